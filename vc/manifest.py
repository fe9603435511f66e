#!/usr/bin/env python3
"""regenerate /verif/MANIFEST.json and properties.jsonl from registry.py and props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from registry import REG
from props import PROPS, NOTE
V = os.path.dirname(H)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS: f.write(json.dumps({k: v for k, v in p.items() if k != 'na'}, ensure_ascii=False) + '\n')
checks = []; na = []
for p in PROPS:
    i = p['id']
    if i in REG:
        e = REG[i]
        checks.append({'property': i, 'quick_cmd': 'python3 vc/check.py ' + i, 'thorough_cmd': 'python3 vc/check.py %s --tier thorough' % i,
                       'technique': e['technique'], 'level': e['level'], 'level_note': e.get('note') or NOTE})
    else:
        na.append({'property': i, 'reason': p.get('na', 'machinery not built yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check re-parses /repo with clang on each run; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
