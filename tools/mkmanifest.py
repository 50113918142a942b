"""Writes MANIFEST.json from properties.jsonl and checks/*.py (run with any python3)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = json.load(open(H + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/checks/{i}.py') and i in TECH:
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i} quick', thorough_cmd=f'./run.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH[i][0], level='exploration', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='no check has been built for it yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Pure Python: nothing is compiled; each check imports torchdyn from /repo (PYTHONDONTWRITEBYTECODE) and observes the real code. '
                     'No hooks in /repo are needed: monitors sit in the vector fields, SDE coefficients, callbacks, Brownian paths and solver objects that users supply.'),
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
