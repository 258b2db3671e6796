#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    c = f'python3 checks/run.py {p["id"]}'
    checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c,
                   'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na, 
           'notes': 'static analysis of the compiler IR of the current tree; see DESIGN.md'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
