import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here]
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
PY = 'python3'
for p in props:
    i = p['id']
    meta = {}
    fp = os.path.join(here, 'contracts', i + '.py')
    level, tech, note = 'exploration', 'bounded differential testing against an independent oracle', 'bounded stand-in only'
    if os.path.exists(fp):
        import ast
        for n in ast.parse(open(fp).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE'):
                meta[n.targets[0].id] = ast.literal_eval(n.value)
        level, tech, note = meta['LEVEL'], meta['TECHNIQUE'], meta['NOTE']
    checks.append({'property': i, 'quick_cmd': PY + ' check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ' + PY + ' check.py ' + i,
                   'evidence_file': 'evidence/{}.json'.format(i), 'technique': tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo. Checks run with /opt/venv/bin/python; solvers from /opt/veriftools.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
