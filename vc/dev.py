#!/usr/bin/env python3
"""development helper: run a family and print the outcome, grouped. dev.py family [-c cfgs] [-k regex] [-keep dir] [-n max]"""
import sys, os, importlib, collections, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
a = sys.argv[1:]
fam = a.pop(0)
cfg = None; sub = None; keep = None; show = 15; wid = 230; verb = False
while a:
    o = a.pop(0)
    if o == '-c': cfg = a.pop(0).split(',')
    elif o == '-k': sub = a.pop(0)
    elif o == '-keep': keep = a.pop(0)
    elif o == '-n': show = int(a.pop(0))
    elif o == '-w': wid = int(a.pop(0))
    elif o == '-v': verb = True
m = importlib.import_module('families.' + fam)
tier = os.environ.get('VERIF_TIER', 'quick')
t = time.time()
res = []
if hasattr(m, 'witnesses'):
    w = m.witnesses(tier)
    if cfg: w = [x for x in w if x.cfg in cfg]
    if sub: w = [x for x in w if re.search(sub, x.name)]
    res += core.run_witnesses(w, libsrc=getattr(m, 'LIBS', ('const.cpp',)), keep=keep, verbose=verb, chunk=getattr(m, 'CHUNK', 60), header=getattr(m, 'HEADER', 'wit.h'), timeout=getattr(m, 'TIMEOUT', 500))
if hasattr(m, 'statics'):
    st = m.statics(tier)
    if cfg: st = [x for x in st if x.cfg in cfg]
    if sub: st = [x for x in st if re.search(sub, x.name)]
    res += core.run_statics(st, getattr(m, 'HEADER', 'wit.h'))
if hasattr(m, 'rules') and not sub:
    r, ex = m.rules(tier); res += r
cnt = collections.Counter(r['status'] for _, _, r in res)
groups = collections.OrderedDict()
for c, x, r in res:
    if r['status'] == 'ok': continue
    groups.setdefault((r['status'], x.name), []).append((c, x, r))
for k, ((st, name), l) in enumerate(groups.items()):
    if k >= show: break
    c, x, r = l[0]
    msg = r.get('msg') or ''
    if st == 'compile' or st == 'diff' and msg:
        es = [y for y in msg.split('\n') if 'error:' in y]
        msg = es[0] if es else msg[:600].replace('\n', ' | ')
    print(('%s %s [%s] %s' % (st, name, ','.join(z[0] for z in l), msg.replace('/repo/Vc/', ''))) [:wid * 2])
    for d in r.get('diffs', [])[:1]:
        for q in ('what', 'impl', 'spec', 'when', 'loc'):
            if d[q]: print(('      %s: %s' % (q, d[q].replace('/repo/Vc/', '')))[:wid])
        if r.get('locs'): print(('      via ' + ' '.join(r['locs'][:6]).replace('/repo/Vc/', ''))[:wid])
if len(groups) > show: print('... %d more names: %s' % (len(groups) - show, ' '.join(k[1] for k in list(groups)[show:show + 40])))
slow = sorted(res, key=lambda x: -x[2].get('ms', 0))[:4]
print(dict(cnt), 'time %.1f' % (time.time() - t), 'slowest', [(c, x.name, r.get('ms')) for c, x, r in slow])
