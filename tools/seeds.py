"""Creates and confirms the planted bugs of /verif/seeded (development tool, not used by any check)

usage: seeds.py [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec %s "$D/demo.py"
''' % PY
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = (prop, edits, needs, breaks, demo)


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(id):
    prop, edits, needs, breaks, demo = SEEDS[id]
    out = os.path.join(HERE, 'seeded', id)
    work = '/tmp/seeds/' + id
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs('/tmp/seeds', exist_ok=True)
    shutil.copytree('/repo', work, symlinks=True)
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    try:
        r = run(['bash', out + '/demo.sh'], work)
        if r.returncode != 0:
            return id, 'BAD: demo fails on the clean tree: ' + (r.stderr + r.stdout)[-600:]
        for f, old, new in edits:
            p = os.path.join(work, 'delayed_image', f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, 'BAD: {} matches of {!r}'.format(s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = run(['git', 'diff'], work).stdout
        open(out + '/patch.diff', 'w').write(d)
        r = run(['bash', out + '/demo.sh'], work)
        if r.returncode == 0:
            return id, 'BAD: demo passes with the change'
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + work).replace('unset PYTHONPATH', 'export PYTHONPATH=' + work + '; unset')
        open(work + '/.t.sh', 'w').write(t)
        run(['bash', work + '/.t.sh', work + '/.t.json'], work)
        got = json.load(open(work + '/.t.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        bad = [k for k in base['stable'] if k not in set(got['passed'])]
        if bad:
            return id, 'BAD: tests fail: {}'.format(bad[:5])
        return id, 'ok'
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree('/tmp/seeds/' + id + '.tmp', ignore_errors=True)


def main(names):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seedlist  # noqa
    ids = names or sorted(seedlist.SEEDS)
    globals()['SEEDS'] = seedlist.SEEDS
    with ThreadPoolExecutor(4) as ex:
        for id, msg in ex.map(one, ids):
            print(id, msg, flush=True)
            if msg.startswith('BAD'):
                shutil.rmtree(os.path.join(HERE, 'seeded', id), ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
