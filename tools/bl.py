"""Bounded layer only (a development tool):  bl.py SECS ID..."""
import os
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [repo, HERE, os.path.join(HERE, 'bounded')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pyver import driver  # noqa
MODULE = {'C08': 'spec', 'C09': 'spec', 'C10': 'spec', 'C11': 'spec', 'C12': 'data', 'C13': 'data', 'C14': 'data'}
for p in sys.argv[2:]:
    print(p, driver.run_bounded(p, MODULE.get(p, 'view'), int(os.environ.get('VERIF_SEED', 1)), float(sys.argv[1]), time.time() + 600), flush=True)
