"""C32: type-based aliasing agreement. The obligations of the other families are translated once more without any
optimisation; engine/alias.cpp flattens the call tree of each and compares the aliasing types of the accesses to each
memory object with each other and with the element type the caller declared for it."""
import importlib, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import core
ALIAS = os.path.join(core.VERIF, 'build', 'alias')
NAMES = {'float': 'float', 'double': 'double', 'int': 'int', 'uint': 'int', 'short': 'short', 'ushort': 'short', 'bool': 'bool',
         'llong': 'long long', 'ullong': 'long long', 'unsigned': 'int', 'long': 'long', 'size_t': 'long',
         'char': None, 'schar': None, 'uchar': None}
FAMS = {'quick': [('mask', 'load|store|gen|setidx|eq|conv'), ('loads', ''), ('stores', ''), ('gather', ''), ('oldgather', ''), ('interleave', ''), ('memory', ''), ('container', '^(ar|sp|sf|sc)_'),
                  ('subscript', ''), ('simdize', ''), ('random', ''), ('iterate', ''), ('masked', ''), ('transpose', ''), ('simdmask', 'load|store|st|ld'), ('perm', ''), ('alloc', '')],
        'thorough': []}
CAP = {'quick': 420, 'thorough': 1 << 30}     # obligations per family and configuration, evenly spaced
CFGS = {'quick': ('scalar', 'sse2', 'avx2'), 'thorough': ('scalar', 'sse2', 'ssse3', 'sse41', 'avx', 'avx2', 'clang-sse2', 'clang-avx2', 'avx2-17')}

def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out + [cur]

def allowed(p):
    p = p.strip()
    if '*' not in p: return []
    t = p[:p.rindex('*')].replace('const ', '').strip()
    if t in NAMES: return [NAMES[t]] if NAMES[t] else ['char']
    return ['*']

def jobs(tier, fams=None, cap=None, cfgs=None):
    by = {}
    for fam, pat in fams or FAMS[tier] or FAMS['quick']:
        m = importlib.import_module('families.' + fam)
        if not hasattr(m, 'witnesses'): continue
        hdr = getattr(m, 'HEADER', 'wit.h')
        for w in m.witnesses(tier):
            if w.cfg not in (cfgs or CFGS[tier]) or pat and not re.search(pat, w.name): continue
            by.setdefault((fam, w.cfg, hdr), []).append(w)
    for k, ws in by.items():
        n = cap or CAP[tier]
        if len(ws) > n: by[k] = [ws[i * len(ws) // n] for i in range(n)]
    return by

def translate(tmp, cfg, hdr, ws, tag):
    """front-end IR, no pass has run; witnesses that do not compile are reported by their own family"""
    todo = list(ws); n = 0; dropped = []
    while todo and n < 12:
        src = os.path.join(tmp, '%s_%d.cpp' % (tag, n)); owner = {}; line = 2
        with open(src, 'w') as f:
            f.write('#include "%s"\n' % hdr)
            for k, w in enumerate(todo):
                c = w.code + '\n'
                for l in range(line, line + c.count('\n') + 1): owner[l] = k
                f.write(c); line += c.count('\n')
        bc = src[:-3] + 'bc'
        fl = [x for x in core.flags(core.CONFIGS[cfg]) if x != '-fno-strict-aliasing']
        r = core.sh(fl + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', src, '-o', bc])
        if r.returncode == 0: return bc, todo, dropped, ''
        err = r.stderr.decode(errors='replace')
        bad = set()
        for g in re.split(r'\n(?=[^\n]*(?:fatal )?error: )', '\n' + err):
            if 'error: ' not in g: continue
            ks = [owner[int(x)] for x in re.findall(re.escape(src) + r':(\d+):\d+: (?:fatal error|error|note)', g) if int(x) in owner]
            if ks: bad.add(ks[0])
        if not bad: return None, [], todo, err
        dropped += [todo[k] for k in bad]
        todo = [w for k, w in enumerate(todo) if k not in bad]; n += 1
    return None, [], dropped + todo, 'too many rounds'

def rules(tier, only=None, pick=None, fams=None, cap=None):
    core.build_engine()
    tmp = tempfile.mkdtemp(prefix='vca')
    tot = {'accesses': 0, 'pairs': 0, 'declared': 0}
    try:
        groups = []
        for (fam, cfg, hdr), ws in jobs(tier, fams, cap).items():
            if only and fam not in only: continue
            if pick: ws = [w for w in ws if re.search(pick, w.name)]
            if not ws: continue
            n = max(1, (len(ws) + 149) // 150)
            for i in range(n): groups.append((fam, cfg, hdr, ws[i::n], '%s_%s_%d' % (fam, re.sub(r'\W', '_', cfg), i)))
        groups.sort(key=lambda g: -len(g[3]))
        def work(g):
            fam, cfg, hdr, ws, tag = g
            bc, todo, dropped, err = translate(tmp, cfg, hdr, ws, tag)
            rows = []
            if not bc: return [(cfg, core.Wit('%s_%s' % (fam, w.name), '', '', '', [], cfg), {'status': 'compile', 'msg': 'GLOBAL ' + err[-1500:]}) for w in ws[:1]]
            jf = bc + '.json'; of = bc + '.out'
            js = []; params = {}
            for w in todo:
                m = re.search(r'\bimpl_%s\(' % re.escape(w.name), w.code)
                k = m.end(); d = 1; e = k
                while d: d += {'(': 1, ')': -1}.get(w.code[e], 0); e += 1
                params[w.name] = split(w.code[k:e - 1])
                js.append({'name': w.name, 'impl': w.impl, 'args': [allowed(p) for p in split(w.code[k:e - 1])]})
            with open(jf, 'w') as f: json.dump(js, f)
            msg = ''
            try: r = core.sh([ALIAS, jf, of, bc], timeout=400); msg = r.stderr.decode(errors='replace')[-300:]
            except subprocess.TimeoutExpired: msg = 'timeout'
            res = {}
            if os.path.exists(of):
                for l in open(of):
                    try: d = json.loads(l)
                    except ValueError: break
                    res[d['name']] = d
            for q in (bc, jf, of):
                if os.path.exists(q): os.unlink(q)
            for w in todo:
                d = res.get(w.name, {'status': 'limit', 'msg': 'engine stopped: ' + msg})
                x = core.Wit('%s_%s' % (fam, w.name), '', '', '', [], cfg, what='accesses of: ' + w.what); x.code = w.code; x.args = params[w.name]
                rows.append((cfg, x, d))
            return rows
        rows = []
        with ThreadPoolExecutor(core.JOBS) as ex:
            for o in ex.map(work, groups): rows += o
        for _, _, d in rows:
            tot['accesses'] += d.get('insts', 0); tot['pairs'] += d.get('pairs', 0); tot['declared'] += d.get('declared', 0)
        return rows, {'accesses_typed': tot}
    finally: shutil.rmtree(tmp, ignore_errors=True)
