#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/vc')
from registry import REG
from props import PROPS
try: NOTES = json.load(open(H + '/vc/design_notes.json'))
except OSError: NOTES = {}
o = []
for p in PROPS:
    i = p['id']
    if i not in REG: continue
    r = REG[i]; n = NOTES.get(i, {})
    o.append('### %s %s\n' % (i, p['title']))
    o.append('*Decided by*: %s. Families: %s. At least %d obligations. %s\n' % (r['technique'], ', '.join(r['families']), r['min'], n.get('cost', '')))
    o.append('*Rule and oracle*: %s\n' % r['rule'])
    o.append('*Quantified over*: %s.\n' % p['quantifier']['text'])
    if n.get('bounds'): o.append('*Bounds*: %s\n' % n['bounds'])
    o.append('*Beyond tests*: %s\n' % p['why_tests_cant'])
t = open(H + '/vc/design.in.md').read().replace('@PROPS@', '\n'.join(o))
t = t.replace('@NA@', '\n'.join('* **%s** %s: %s.' % (p['id'], p['title'], p['na'].rstrip('.')) for p in PROPS if p['id'] not in REG))
k = json.load(open(H + '/known_findings.json')); k = k.get('findings', k) if isinstance(k, dict) else k
f = []
for e in k:
    if e['status'] == 'fixed': f.append('* **%s** (%s, fixed) %s' % (e['id'], e['property'], e['note'].split(' ', 2)[2]))
    else: f.append('* **%s** (%s, **known, not repaired**) %s' % (e['id'], e['property'], e['what']))
t = t.replace('@FINDINGS@', '\n'.join(f))
s = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); b = os.path.basename(os.path.dirname(m))
    s.append('| %s | %s | %s | %s | %s |' % (b, d['property'], d['what_it_breaks'], d['needs'], NOTES.get('seeded', {}).get(b, d['property'])))
t = t.replace('@SEEDED@', '\n'.join(s))
open(H + '/DESIGN.md', 'w').write(t)
