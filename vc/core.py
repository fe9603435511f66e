"""Driver: witness generation -> IR of the current /repo sources -> value-graph analysis -> verdict."""
import json, os, sys, subprocess, shutil, tempfile, time, hashlib, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LANES = os.path.join(VERIF, 'build', 'lanes')
JOBS = int(os.environ.get('VC_JOBS', '8'))

# configuration -> ISA flags
CONFIGS = {
    'scalar': ['-msse2', '-DVc_IMPL=Scalar'],
    'sse2':   ['-msse2'],
    'sse3':   ['-msse3'],
    'ssse3':  ['-mssse3'],
    'sse41':  ['-msse4.1'],
    'sse42':  ['-msse4.2', '-mpopcnt'],
    'avx':    ['-mavx', '-mpopcnt'],
    'avx2':   ['-mavx2', '-mfma', '-mbmi', '-mbmi2', '-mpopcnt', '-mlzcnt', '-mf16c'],
    'avx2p':  ['-mavx2', '-mpopcnt'],            # AVX2 without BMI2 and FMA
    'sse2-17': ['-msse2', '-std=c++17'],
    'avx2-17': ['-mavx2', '-mfma', '-mbmi', '-mbmi2', '-mpopcnt', '-mlzcnt', '-mf16c', '-std=c++17'],
    'clang-sse2': ['-msse2', '-DVC_WITNESS_AS_CLANG'],
    'clang-avx2': ['-mavx2', '-mfma', '-mbmi', '-mbmi2', '-mpopcnt', '-mlzcnt', '-mf16c', '-DVC_WITNESS_AS_CLANG'],
}
BASE_FLAGS = ['-std=c++14', '-O2', '-gline-tables-only', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
              '-fwrapv', '-fno-math-errno', '-mllvm', '-inline-threshold=2000', '-w', '-ferror-limit=0', '-ftemplate-depth=1024', '-fno-strict-aliasing',
              '-mllvm', '-disable-loop-idiom-all', '-fno-unroll-loops']
TYPES = {'double': 8, 'float': 4, 'int': 4, 'uint': 4, 'short': 2, 'ushort': 2}
FLOATS = ('double', 'float')
INTS = ('int', 'uint', 'short', 'ushort')
BITS = {'double': 64, 'float': 32, 'int': 32, 'uint': 32, 'short': 16, 'ushort': 16, 'schar': 8, 'uchar': 8, 'llong': 64, 'ullong': 64, 'bool': 8, 'char': 8}

def abis(cfg):
    """(alias, types) of the vector ABIs available in a configuration"""
    if cfg == 'scalar':
        return ['Sc']
    if cfg in ('avx', 'avx2', 'avx2p', 'clang-avx2'):
        return ['Avx', 'Sse']
    return ['Sse']
def abi_types(cfg, abi):
    if cfg == 'avx' and abi == 'Avx':
        return ['double', 'float']
    return list(TYPES)
def size(abi, t):
    if abi == 'Sc': return 1
    if abi[0] == 'F': return int(abi[1:])   # fixed_size<N>
    w = 16 if abi == 'Sse' else 32
    return w // TYPES[t]

class Wit:
    """one obligation: impl (library) vs spec (reference meaning)"""
    __slots__ = ('name', 'code', 'args', 'opts', 'cfg', 'what', 'impl', 'spec', 'lib')
    def __init__(self, name, params, impl, spec, args, cfg, opts=(), ret='void', what='', pre='', lib=False):
        self.name = name; self.cfg = cfg; self.args = args; self.opts = list(opts)
        self.impl = 'impl_' + name; self.spec = 'spec_' + name
        self.what = what or name
        self.lib = lib
        self.code = '%s\nextern "C" __attribute__((noinline,used)) %s impl_%s(%s) {%s}\nextern "C" __attribute__((noinline,used)) %s spec_%s(%s) {%s}\n' % (
            pre, ret, name, params, impl, ret, name, params, spec)

def ptr(t, n, name, elem=None, **kw):
    e = elem or BITS[t] // 8
    d = {'name': name, 'elem': e, 'size': e * n if n is not None else None}
    if n is None: del d['size']
    d.update(kw)
    if t == 'bool': d['bool'] = True
    return d

def IN(t, n, name, **kw): return ('const %s*%s' % (t, name), ptr(t, n, name, **kw))
def OUT(t, n, name, **kw): return ('%s*%s' % (t, name), ptr(t, n, name, **kw))
def SC(t, name, **kw): return ('%s %s' % (t, name), dict(kw, name=name))
def CTL(name, bits, t='unsigned'): return ('%s %s' % (t, name), {'name': name, 'cls': 0, 'lim': bits})
def mk(w, cfg, name, ps, impl, spec, opts=(), ret='void', what='', pre='', spre=''):
    w.append(Wit(name, ','.join(p[0] for p in ps), impl, spec, [p[1] for p in ps], cfg, opts=opts, ret=ret, what=what, pre=pre))

class Static:
    """a type-level obligation: kind 'assert' (constant expression must hold), 'accept' (a declaration that must
    compile) or 'reject' (a declaration that must not compile)"""
    __slots__ = ('name', 'expr', 'cfg', 'what', 'kind', 'pre')
    def __init__(self, name, expr, cfg, what='', kind='assert', pre=''):
        self.name = name; self.expr = expr; self.cfg = cfg; self.what = what or expr; self.kind = kind; self.pre = pre

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def build_engine():
    r = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), os.path.join(VERIF, 'build')])
    if r.returncode or not os.path.exists(LANES):
        sys.stderr.write(r.stderr.decode()[-3000:])
        raise SystemExit(3)

LIBSRC = {  # extern definitions of the library (compiled into libVc), per Vc_IMPL as in CMakeLists.txt
    'const.cpp': [('', ['-msse2'])],
    'sse_sorthelper.cpp': [('SSE2', ['-msse2']), ('SSE4_1', ['-msse4.1']), ('AVX', ['-mavx']), ('AVX2+FMA+BMI2', ['-mavx2', '-mfma', '-mbmi2'])],
    'avx_sorthelper.cpp': [('AVX', ['-mavx']), ('AVX2+FMA+BMI2', ['-mavx2', '-mfma', '-mbmi2'])],
    'trigonometric.cpp': [('SSE2', ['-msse2']), ('SSE3', ['-msse3']), ('SSSE3', ['-mssse3']), ('SSE4_1', ['-msse4.1']), ('AVX', ['-mavx']), ('AVX+FMA', ['-mavx', '-mfma']), ('AVX2+FMA+BMI2', ['-mavx2', '-mfma', '-mbmi2'])],
    'cpuid.cpp': [('', ['-msse2'])],
    'support_x86.cpp': [('', ['-msse2'])],
}
def flags(cfg_flags, extra=()):
    return [CLANG] + BASE_FLAGS + cfg_flags + ['-I' + REPO, '-I' + HERE, '-include', os.path.join(HERE, 'pre.h')] + list(extra)

def compile_lib(tmp, wanted):
    jobs = []
    for src in wanted:
        for impl, fl in LIBSRC[src]:
            out = os.path.join(tmp, 'lib_%s_%s.bc' % (src.replace('.', '_'), re.sub(r'\W', '_', impl)))
            cmd = flags(fl, ['-DVc_COMPILE_LIB'] + (['-DVc_IMPL=' + impl] if impl else []) + ['-emit-llvm', '-c', os.path.join(REPO, 'src', src), '-o', out])
            jobs.append((src, impl, out, cmd))
    def one(j):
        r = sh(j[3])
        return j, r
    res = []
    with ThreadPoolExecutor(JOBS) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                raise Broken('cannot compile %s for %s: %s' % (j[0], j[1], r.stderr.decode()[-2000:]))
            res.append(j[2])
    return res

class Broken(Exception): pass
class Result:
    def __init__(self): self.ok = []; self.diff = []; self.undecided = []; self.broken = []; self.rows = []

def compile_tu(tmp, cfg, wits, tag, header='wit.h'):
    """compile a list of witnesses; isolate the ones that do not compile. returns [(bc, wits)], failures"""
    fails = []
    todo = list(wits)
    rnd = 0
    while todo:
        src = os.path.join(tmp, '%s_r%d.cpp' % (tag, rnd))
        owner = {}
        line = 1
        with open(src, 'w') as f:
            f.write('#include "%s"\n' % header); line += 1
            for k, w in enumerate(todo):
                c = w.code + '\n'
                for l in range(line, line + c.count('\n') + 1): owner[l] = k
                f.write(c); line += c.count('\n')
        bc = os.path.join(tmp, '%s_r%d.bc' % (tag, rnd))
        r = sh(flags(CONFIGS[cfg], ['-emit-llvm', '-c', src, '-o', bc]))
        if r.returncode == 0: return [(bc, todo)], fails
        err = r.stderr.decode(errors='replace')
        # group diagnostics: an error plus the notes that follow it ("in instantiation ... requested here")
        bad = {}
        groups = re.split(r'\n(?=[^\n]*(?:fatal )?error: )', '\n' + err)
        for g in groups:
            if 'error: ' not in g: continue
            ls = [int(x) for x in re.findall(re.escape(src) + r':(\d+):\d+: (?:fatal error|error|note)', g)]
            ks = [owner[l] for l in ls if l in owner]
            if ks: bad.setdefault(ks[0], g)
        if not bad:
            return [], fails + [(w, 'GLOBAL ' + err) for w in todo]
        fails += [(todo[k], g) for k, g in bad.items()]
        todo = [w for k, w in enumerate(todo) if k not in bad]
        rnd += 1
        if rnd > 12: return [], fails + [(w, 'GLOBAL ' + err) for w in todo]
    return [], fails

def analyse(tmp, bc, wits, libs, timeout):
    jf = bc + '.json'; of = bc + '.out'
    with open(jf, 'w') as f:
        json.dump([{'name': w.name, 'impl': w.impl, 'spec': w.spec, 'args': w.args, 'opts': w.opts} for w in wits], f)
    rows = {}
    todo = list(wits)
    t_end = time.time() + timeout
    while todo:
        with open(jf, 'w') as f:
            json.dump([{'name': w.name, 'impl': w.impl, 'spec': w.spec, 'args': w.args, 'opts': w.opts} for w in todo], f)
        msg = ''
        try:
            r = sh([LANES, jf, of, bc] + libs, timeout=max(5, t_end - time.time()))
            msg = r.stderr.decode(errors='replace')[-500:]
        except subprocess.TimeoutExpired:
            msg = 'timeout'
        got = 0
        if os.path.exists(of):
            for line in open(of):
                try: d = json.loads(line)
                except ValueError: break
                rows[d['name']] = d; got += 1
            os.unlink(of)
        rest = [w for w in todo if w.name not in rows]
        if not rest: break
        rows[rest[0].name] = {'name': rest[0].name, 'status': 'limit', 'msg': 'engine stopped: ' + msg}
        todo = [w for w in rest[1:]]
        if time.time() > t_end:
            for w in todo: rows[w.name] = {'name': w.name, 'status': 'limit', 'msg': 'time budget'}
            break
    return rows

def run_witnesses(wits, libsrc=('const.cpp',), chunk=60, timeout=600, keep=None, header='wit.h', verbose=False):
    build_engine()
    tmp = keep or tempfile.mkdtemp(prefix='vcw')
    os.makedirs(tmp, exist_ok=True)
    try:
        libs = compile_lib(tmp, libsrc)
        groups = []
        bycfg = {}
        for w in wits: bycfg.setdefault(w.cfg, []).append(w)
        for cfg, ws in bycfg.items():
            names = [w.name for w in ws]
            if len(set(names)) != len(names):
                dup = [n for n in names if names.count(n) > 1]
                raise RuntimeError('duplicate witness names in %s: %s' % (cfg, dup[:5]))
            n = max(1, (len(ws) + chunk - 1) // chunk)
            for i in range(n): groups.append((cfg, ws[i::n], '%s_%d' % (cfg, i)))
        def work(g):
            cfg, ws, tag = g
            out = []
            t0 = time.time()
            bcs, fails = compile_tu(tmp, cfg, ws, tag, header)
            t1 = time.time()
            for w, err in fails: out.append((cfg, w, {'name': w.name, 'status': 'compile', 'msg': err[:2500] if not err.startswith('GLOBAL') else err[-2500:]}))
            for bc, bw in bcs:
                rows = analyse(tmp, bc, bw, libs, timeout)
                for w in bw: out.append((cfg, w, rows.get(w.name, {'name': w.name, 'status': 'limit', 'msg': 'no result'})))
            if verbose: print('  %s: %d witnesses, compile %.1fs, analyse %.1fs' % (tag, len(ws), t1 - t0, time.time() - t1), file=sys.stderr)
            return out
        groups.sort(key=lambda g: -len(g[1]))
        res = []
        with ThreadPoolExecutor(JOBS) as ex:
            for o in ex.map(work, groups): res += o
        return res
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)

def run_statics(sts, header='wit.h'):
    """type-check every Static; returns [(cfg, static, row)]"""
    bycfg = {}
    for x in sts: bycfg.setdefault((x.cfg, x.kind == 'reject'), []).append(x)
    groups = []
    for (cfg, rej), xs in bycfg.items():
        for i in range(0, len(xs), 400): groups.append((cfg, rej, xs[i:i + 400]))
    tmp = tempfile.mkdtemp(prefix='vcs')
    def work(g):
        cfg, rej, xs = g
        fd, src = tempfile.mkstemp(suffix='.cpp', dir=tmp); os.close(fd)
        owner = {}
        with open(src, 'w') as f:
            f.write('#include "%s"\n' % header)
            line = 2
            pres = []
            for x in xs:
                if x.pre and x.pre not in pres: pres.append(x.pre)
            for q in pres: f.write(q + '\n'); line += q.count('\n') + 1
            for k, x in enumerate(xs):
                c = ('static_assert(%s, "");' % x.expr if x.kind == 'assert' else x.expr) + '\n'
                f.write('namespace st_%d { %s }\n' % (k, c.strip().replace('\n', ' ')))
                owner[line] = k; line += 1
        r = sh(flags(CONFIGS[cfg], ['-fsyntax-only', src]))
        err = r.stderr.decode(errors='replace')
        bad = {}
        for gr in re.split(r'\n(?=[^\n]*(?:fatal )?error: )', '\n' + err):
            if 'error: ' not in gr: continue
            ls = [int(z) for z in re.findall(re.escape(src) + r':(\d+):\d+: (?:fatal error|error|note)', gr)]
            ks = [owner[l] for l in ls if l in owner]
            if ks: bad.setdefault(ks[0], gr.strip())
            else: bad.setdefault('GLOBAL', gr.strip())
        out = []
        for k, x in enumerate(xs):
            if 'GLOBAL' in bad: row = {'name': x.name, 'status': 'compile', 'msg': 'GLOBAL ' + bad['GLOBAL'][-2000:]}
            elif rej: row = {'name': x.name, 'status': 'ok'} if k in bad else {'name': x.name, 'status': 'diff', 'msg': 'accepted, but must be rejected: ' + x.expr}
            elif k in bad: row = {'name': x.name, 'status': 'diff', 'msg': bad[k][:2000]}
            else: row = {'name': x.name, 'status': 'ok'}
            out.append((cfg, x, row))
        return out
    try:
        res = []
        with ThreadPoolExecutor(JOBS) as ex:
            for o in ex.map(work, groups): res += o
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
