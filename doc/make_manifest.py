"""Writes /verif/MANIFEST.json from properties.jsonl and what lib/props.py has checks for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from props import API, CHECKS, NOTES, SCRIPT
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
LATER = 'the part of the specification that decides this property is not built yet'
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        tech, note = NOTES['api' if i in API else 'script' if i in SCRIPT else 'engine']
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i,
                       'thorough_cmd': 'python3 bin/check.py %s thorough' % i, 'technique': tech,
                       'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': LATER})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses the public interface only. Fixes of defects are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
