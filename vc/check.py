#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current sources.

exit 0: every obligation decided in favour (or listed in known_findings.json)
exit 1: 'VIOLATION property=<id> replay=<file>'
exit 2: the analysis itself could not give an answer (nothing compiled, anchors missing, too few obligations)"""
import sys, os, json, time, importlib, collections, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from registry import REG

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ent = REG[pid]
    t0 = time.time()
    rows = []     # (cfg, obligation, row)
    extra = {}
    notes = []
    for fam in ent['families']:
        m = importlib.import_module('families.' + fam)
        if hasattr(m, 'witnesses'):
            ws = [w for w in m.witnesses(tier)]
            if 'select' in ent: ws = [w for w in ws if re.search(ent['select'], w.name)]
            if ws: rows += core.run_witnesses(ws, libsrc=getattr(m, 'LIBS', ('const.cpp',)), chunk=getattr(m, 'CHUNK', 60), header=getattr(m, 'HEADER', 'wit.h'), timeout=getattr(m, 'TIMEOUT', 500))
            if hasattr(m, 'settle'): rows = [(c, w, m.settle(w, r)) for c, w, r in rows]
        if hasattr(m, 'statics'):
            sts = m.statics(tier)
            if sts: rows += core.run_statics(sts, getattr(m, 'HEADER', 'wit.h'))
        if hasattr(m, 'rules'):
            r, ex = m.rules(tier)      # [(cfg, obligation(name, what), row)], extra evidence
            rows += r
            extra.update(ex)
    cnt = collections.Counter(r['status'] for _, _, r in rows)
    ok = cnt.get('ok', 0)
    known = json.load(open(os.path.join(core.VERIF, 'known_findings.json')))['findings']
    known = [k for k in known if k.get('property') == pid and k.get('status') == 'known']
    bad, undec, found = [], [], []
    globalfail = 0
    for cfg, w, r in rows:
        st = r['status']
        if st == 'ok': continue
        if st == 'compile' and (r.get('msg') or '').startswith('GLOBAL'):
            globalfail += 1; undec.append((cfg, w, r)); continue
        if st in ('diff', 'compile', 'missing'):
            k = next((k for k in known if matches(k, cfg, w, r)), None)
            if k: found.append((k, cfg, w, r))
            else: bad.append((cfg, w, r))
        else: undec.append((cfg, w, r))
    minimum = ent['min'] if tier == 'quick' else ent['min']
    wall = time.time() - t0
    cov = {
        'obligations': len(rows), 'discharged': ok,
        'checker_cmd': 'python3 vc/check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['clang 18 front end and -O2 IR of the witness translation units', 'engine/ (value-graph analysis, operation lemmas listed in DESIGN.md)', 'reference meanings in vc/families/%s' % ','.join(ent['families'])],
        'rule': ent['rule'],
        'by_configuration': dict(collections.Counter(c for c, _, _ in rows)),
        'status': dict(cnt),
        'undecided': [{'cfg': c, 'obligation': w.name, 'status': r['status'], 'why': (r.get('msg') or '')[:300]} for c, w, r in undec[:60]],
        'instructions_analysed': sum(r.get('insts', 0) for _, _, r in rows),
        'functions': sorted({l for _, _, r in rows for l in r.get('funcs', [])})[:400],
        'samples': [{'cfg': c, 'obligation': w.name, 'what': getattr(w, 'what', ''), 'code': getattr(w, 'code', getattr(w, 'expr', ''))[:1200], 'status': r['status']} for c, w, r in sample(rows)],
        'known_findings': [k['id'] for k, _, _, _ in found],
    }
    cov.update(extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': ent['level'], 'coverage': cov, 'assumptions': ent.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(bad)}
    if ent['level'] == 'other': cov['explanation'] = ent['rule']
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    seen = set()
    for k, c, w, r in found:
        if k['id'] in seen: continue
        seen.add(k['id'])
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for c, w, r in undec[:20]: print('UNDECIDED %s %s %s: %s' % (c, w.name, r['status'], (r.get('msg') or '')[:200].replace('\n', ' ')))
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, %.1fs' % (pid, len(rows), ok, len(bad), len(undec), wall))
    if bad:
        rp = os.path.join(core.VERIF, 'build', 'replay'); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + '.json')
        with open(path, 'w') as f:
            json.dump([{'property': pid, 'cfg': c, 'flags': core.CONFIGS.get(c), 'obligation': w.name, 'what': getattr(w, 'what', ''), 'code': getattr(w, 'code', getattr(w, 'expr', '')), 'result': r} for c, w, r in bad[:200]], f, indent=1)
        for c, w, r in bad[:10]:
            d = (r.get('diffs') or [{}])[0]
            print('  violated: [%s] %s (%s)' % (c, w.name, getattr(w, 'what', '')[:100]))
            if d: print('     observable %s: library %s, meaning %s, when %s; stored at %s' % (d.get('what', '')[:200], d.get('impl', '')[:200], d.get('spec', '')[:200], d.get('when', '')[:160], d.get('loc', '')[:160]))
            if r.get('locs'): print('     library code involved: ' + ' '.join(r['locs'][:8]))
            if r.get('msg'): print('     ' + r['msg'][:600].replace('\n', '\n     '))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if len(rows) < minimum or ok * 2 < len(rows):
        print('analysis incomplete: %d obligations (expected at least %d), %d discharged' % (len(rows), minimum, ok), file=sys.stderr)
        return 2
    return 0

def matches(k, cfg, w, r):
    if k.get('cfg') and cfg not in k['cfg']: return False
    if not re.fullmatch(k['obligation'], w.name): return False
    pat = k.get('result')
    if pat:
        texts = [' '.join(str(d.get(q, '')) for q in ('what', 'impl', 'spec')) for d in r.get('diffs') or []] or [r.get('msg') or '']
        if not all(re.search(pat, x) for x in texts): return False
    return True

def sample(rows):
    n = len(rows)
    return [rows[i] for i in sorted({0, n // 3, 2 * n // 3, n - 1})] if n else []

if __name__ == '__main__':
    try: rc = main()
    except core.Broken as e:
        print('analysis broken: %s' % e, file=sys.stderr); rc = 2
    sys.stdout.flush()
    os._exit(rc)
