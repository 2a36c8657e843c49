"""Runs checks against planted bugs in scratch copies (development tool)

usage: catchall.py [seed[:prop] ...]
"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(arg):
    id, _, prop = arg.partition(':')
    d = os.path.join(HERE, 'seeded', id)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    work = '/tmp/catch/{}_{}'.format(id, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs('/tmp/catch', exist_ok=True)
    shutil.copytree('/repo', work + '/repo', symlinks=True)
    try:
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=work + '/repo', capture_output=True, text=True)
        if r.returncode:
            return arg, 'patch does not apply: ' + r.stderr
        t = time.time()
        env = dict(os.environ, VERIF_REPO=work + '/repo', VERIF_EVIDENCE=work + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['python3', 'check.py', prop], cwd=HERE, env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('failed obl')]
        open('/tmp/w/catch_{}_{}.log'.format(id, prop), 'w').write(r.stdout + r.stderr)
        return arg, '{} {} {:.0f}s {}'.format({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), prop, time.time() - t,
                                             ' | '.join(lines[:3]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
    with ThreadPoolExecutor(4) as ex:
        for a, m in ex.map(one, args):
            print(a, m, flush=True)
