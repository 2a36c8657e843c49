#!/usr/bin/env python3
"""
Entry point of every registered check:  check.py <property> [--replay file]

1. deductive layer (pyver + contracts/<ID>.py): obligations generated from the
   current source of /repo, discharged by z3 / exact algebra / cvc5
2. bounded layer (bounded/): concrete programs, exhaustive small ones and
   random ones, on the real code against an independent oracle; stands in for
   what the deductive layer does not reach and looks for failing inputs
"""
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if sys.prefix != '/opt/venv' or os.environ.get('PYTHONHASHSEED') != '0':
    if os.environ.get('VERIF_REEXEC'):
        sys.exit('cannot start ' + PY)
    os.environ['VERIF_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '2')
sys.path[:0] = [REPO, HERE, os.path.join(HERE, 'bounded')]
sys.path.append(VT)

MODULE = {'C08': 'spec', 'C09': 'spec', 'C10': 'spec', 'C11': 'spec',
          'C12': 'data', 'C13': 'data', 'C14': 'data'}
# random cases per second are about 500 for view properties; seconds per tier
BUDGET = {'quick': 45, 'thorough': 500}
EXTRA = {'C04': 90}
HARD = {'quick': 780, 'thorough': 3000}


def main():
    import warnings
    warnings.simplefilter('ignore')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    import trees
    scratch = trees.scratch()
    os.environ['XDG_CACHE_HOME'] = os.path.join(scratch, 'cache')
    os.environ['TMPDIR'] = scratch
    t0 = time.time()
    import delayed_image
    if not os.path.realpath(delayed_image.__file__).startswith(os.path.realpath(REPO) + os.sep):
        sys.exit('wrong delayed_image: ' + delayed_image.__file__)
    if '--replay' in sys.argv:
        return replay(pid, sys.argv[sys.argv.index('--replay') + 1])
    from pyver import driver
    return driver.run(pid, tier, seed, t0, HERE, REPO, MODULE.get(pid, 'view'),
                      max(BUDGET[tier], EXTRA.get(pid, 0)), HARD[tier])


def replay(pid, path):
    import importlib
    import view
    with open(path) as f:
        d = json.load(f)
    if 'case' not in d:
        print(json.dumps(d, indent=1))
        print('no failing input was found; the failed obligation is shown above')
        return 1
    mod = importlib.import_module(MODULE.get(pid, 'view'))
    msg = view.guarded(getattr(mod, pid)().check, d['case'])
    print('REPLAY {}: {}'.format(pid, msg or 'holds on this input'))
    return 1 if msg else 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
