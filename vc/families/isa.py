"""C34: code compiled for an instruction set stays within it. For every configuration the functions a program gets from the
headers, the inline assembly in them and the compiled library functions its references resolve to (in archive order) are
listed from front-end IR; the instruction sets each of them was compiled for must be among those of the program."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import core
from families import alias
CFGS = {'quick': ('scalar', 'sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2'), 'thorough': ('scalar', 'sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'avx2p', 'clang-sse2', 'clang-avx2')}
MORE = {'sse4a': ['-msse4a'], 'sse42-nopopcnt': ['-msse4.2', '-mno-popcnt'], 'avx-fma': ['-mavx', '-mfma'], 'xop-fma4': ['-mxop', '-mfma4'], 'bdver2': ['-march=bdver2'], 'barcelona': ['-march=barcelona'], 'core2': ['-march=core2'], 'nehalem': ['-march=nehalem'],
        'sandybridge': ['-march=sandybridge'], 'haswell': ['-march=haswell'], 'znver2': ['-march=znver2'], 'skylake-avx512': ['-march=skylake-avx512']}
FAMS = [(f, '') for f in 'mask loads stores gather oldgather interleave memory subscript simdize iterate masked transpose simdmask perm alloc arith compare casts reduce sorting mathfn trans simdarray random cpuid'.split()]
CAP = {'quick': 32, 'thorough': 400}
# CMakeLists.txt, in the order in which the objects are archived; every processor with AVX2 is taken to have FMA and BMI2 (cmake/VcMacros.cmake)
LIB = [('const.cpp', '', []), ('cpuid.cpp', '', []), ('support_x86.cpp', '', [])] + \
      [('trigonometric.cpp', i, f) for i, f in (('SSE2', ['-msse2']), ('SSE3', ['-msse3']), ('SSSE3', ['-mssse3']), ('SSE4_1', ['-msse4.1']), ('AVX', ['-mavx']), ('AVX+FMA', ['-mavx', '-mfma']), ('AVX2+FMA+BMI2', ['-mavx2', '-mfma', '-mbmi2']),
                                                ('AVX+XOP+FMA', ['-mavx', '-mxop', '-mfma']), ('SSE+XOP+FMA4', ['-mxop', '-mfma4']), ('AVX+XOP+FMA4', ['-mavx', '-mxop', '-mfma4']))] + \
      [('sse_sorthelper.cpp', i, f) for i, f in core.LIBSRC['sse_sorthelper.cpp']] + [('avx_sorthelper.cpp', i, f) for i, f in core.LIBSRC['avx_sorthelper.cpp']]
AVX2 = {'fma', 'bmi', 'bmi2', 'lzcnt', 'f16c', 'movbe'}
BASE = {'cx8', 'mmx', 'fxsr', 'x87', 'sse', 'sse2', 'cmov', 'crc32'}
NEED = [(r'v?(popcnt)', 'popcnt'), (r'lzcnt', 'lzcnt'), (r'tzcnt|andn|blsr|blsi|blsmsk|bextr', 'bmi'), (r'pdep|pext|mulx|sarx|shlx|shrx|bzhi', 'bmi2'), (r'vp\w+', 'avx'), (r'vf(n?m)(add|sub)\w*', 'fma'), (r'v\w+', 'avx'),
        (r'pinsr[bdq]|pextr[bdq]|blend\w*|pblend\w*|round[ps][sd]|ptest|pm(in|ax)(sb|ud|uw|sd)|pmulld|pmov[sz]x\w+|pcmpeqq|packusdw|dpp[sd]|insertps|extractps|movntdqa', 'sse4.1'), (r'pcmpgtq|pcmp[ei]str\w+|crc32\w*', 'sse4.2'),
        (r'pshufb|palignr|pabs\w|psign\w|ph(add|sub)\w+|pmulhrsw|pmaddubsw', 'ssse3'), (r'lddqu|mov(ddup|shdup|sldup)|h(add|sub)p[sd]|addsubp[sd]', 'sse3'),
        (r'cpuid|xgetbv|bs[fr][lq]?|mov\w*|lea[lq]?|add[lqbw]?|sub[lqbw]?|and[lqbw]?|x?or[lqbw]?|sh[lr][lqbw]?|btr?[lq]?|test[lqbw]?|cmp[lqbw]?|j\w+|punpck\w+|xchg\w?|inc\w?|dec\w?|not\w?|neg\w?|set\w+|push\w?|pop[lq]?|nop|ret|p?(and|andn|or|xor)(ps|pd)?', None)]
class Obl:
    def __init__(self, name, what): self.name = name; self.what = what; self.code = ''

def asm_needs(text):
    """instruction sets named by the mnemonics of an inline assembly text; None for one that is not known"""
    out = set()
    for line in re.split(r'\\0A|\\09|;|\n|\t', text):
        line = re.sub(r'^\s*[\w.]+:|^\s*\d+:', '', line).strip()
        m = re.match(r'(?:rep\w*\s+|lock\s+)?([a-z][a-z0-9_]*)', line)
        if not line or line[0] in '#/.': continue
        if not m: return None
        for rx, need in NEED:
            if re.fullmatch(rx, m.group(1)):
                if need: out.add(need)
                break
        else: return None
    return out

def scan(ll):
    """(defined functions -> instruction sets, referenced library symbols, inline assembly -> functions, defined variables)"""
    attrs = dict(re.findall(r'^attributes (#\d+) = \{(.*)\}', ll, re.M))
    feats = lambda a: set(x[1:] for x in (re.findall(r'"target-features"="([^"]*)"', attrs.get(a, '')) or [''])[0].split(',') if x.startswith('+'))
    fn, cur, asm = {}, None, {}
    linkage = {}
    for l in ll.splitlines():
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l); a = re.findall(r' (#\d+)', l)
            cur = m.group(1); fn[cur] = feats(a[-1]) if a else set(); linkage[cur] = l
        elif cur and 'asm ' in l and re.search(r'\b(call|invoke|callbr)\b', l):
            t = re.search(r'asm (?:sideeffect |inteldialect |alignstack )*"([^"]*)"', l)
            if t: asm.setdefault(t.group(1), set()).add(cur)
    refs = set(re.findall(r'^declare .*@(_ZN?K?4Vc_1\w+)\(', ll, re.M)) | set(re.findall(r'^@(_ZN?4Vc_1\w+) = (?:external|extern_weak)', ll, re.M))
    var = set(re.findall(r'^@(_ZN?4Vc_1\w+) = (?!external|extern_weak|internal|private)', ll, re.M))
    return fn, refs, asm, var, linkage

def ir(flags, src):
    r = core.sh([x for x in core.flags(flags) if x not in ('-O2',)] + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', '-', src])
    return r.stdout.decode(errors='replace') if r.returncode == 0 else None, r.stderr.decode(errors='replace')

USES = '''#include <Vc/Vc>
#include <Vc/cpuid.h>
#include <Vc/support.h>
template <class V> V vc_f(V x, V y) { V s, c; Vc::sincos(x, &s, &c); return Vc::sin(x) + Vc::cos(y) + Vc::asin(x) + Vc::atan(x) + Vc::atan2(x, y) + s + c + Vc::exp(x) + Vc::log(x) + Vc::log2(x) + Vc::log10(x) + Vc::round(x) + Vc::floor(x) + Vc::ceil(x) + Vc::fma(x, y, s); }
template <class V> V vc_g(V x) { return x.sorted() + V::Random(); }
template <class V> void vc_i() { volatile auto a = &vc_g<V>; }
template <class V> void vc_d() { volatile auto a = &vc_f<V>; volatile auto b = &vc_g<V>; }
void vc_use() {
    vc_d<Vc::float_v>(); vc_d<Vc::double_v>(); vc_i<Vc::int_v>(); vc_i<Vc::uint_v>(); vc_i<Vc::short_v>(); vc_i<Vc::ushort_v>();
    vc_d<Vc::SimdArray<float, 16>>(); vc_d<Vc::SimdArray<double, 7>>(); vc_i<Vc::SimdArray<int, 16>>(); vc_i<Vc::SimdArray<short, 32>>();
#ifdef Vc_IMPL_SSE
    vc_d<Vc::SSE::float_v>(); vc_d<Vc::SSE::double_v>(); vc_i<Vc::SSE::int_v>(); vc_i<Vc::SSE::uint_v>(); vc_i<Vc::SSE::short_v>(); vc_i<Vc::SSE::ushort_v>();
#endif
    vc_d<Vc::Scalar::float_v>(); vc_d<Vc::Scalar::double_v>(); vc_i<Vc::Scalar::int_v>();
    volatile bool b = Vc::isImplementationSupported(Vc::SSE2Impl) && Vc::currentImplementationSupported(); volatile auto c = Vc::bestImplementationSupported(); volatile auto d = Vc::extraInstructionsSupported(); Vc::CpuId::init();
}
'''
def have(feats):
    f = set(feats) | BASE
    if 'avx2' in f: f |= AVX2
    return f

def rules(tier):
    tmp = tempfile.mkdtemp(prefix='vci'); rows = []; tot = {'library functions': 0, 'header functions': 0, 'references resolved': 0, 'inline assembly statements': 0}
    try:
        # the library
        def lib(j):
            s, impl, fl = j
            return j, ir(['-DVc_COMPILE_LIB'] + (['-DVc_IMPL=' + impl] if impl else []) + fl, os.path.join(core.REPO, 'src', s))
        with ThreadPoolExecutor(core.JOBS) as ex: libs = list(ex.map(lib, LIB))
        defs = {}
        for (s, impl, fl), (ll, err) in libs:
            name = s + (' for ' + impl if impl else '')
            if ll is None: rows.append(('lib', Obl('lib ' + name, name), {'status': 'compile', 'msg': 'GLOBAL ' + err[-1500:]})); continue
            fn, refs, asm, var, link = scan(ll)
            mine = have(set(ir_features(fl)))
            bad = [(f, x - mine) for f, x in fn.items() if x - mine]
            for t, fs in asm.items():
                n = asm_needs(t)
                if n and n - mine: bad.append((sorted(fs)[0] + ': asm "%s"' % t, n - mine))
            tot['library functions'] += len(fn); tot['inline assembly statements'] += len(asm)
            rows.append(('lib', Obl('own_' + re.sub(r'\W', '_', name), 'functions and inline assembly of src/' + name), verdict(bad, len(fn))))
            for f, x in fn.items():
                if not re.search(r'define .*(internal|linkonce_odr|private|available_externally) ', link[f]): defs.setdefault(f, (name, x))
            for v in var: defs.setdefault(v, (name, set()))
        # programs
        def prog(j):
            cfg, fl, src, tag = j
            return j, ir(fl, src)
        work = []
        src = os.path.join(tmp, 'uses.cpp'); open(src, 'w').write(USES)
        for cfg in CFGS[tier]: work.append((cfg, core.CONFIGS[cfg], src, 'uses'))
        for cfg, fl in MORE.items(): work.append((cfg, fl, src, 'uses'))
        for (fam, cfg, hdr), ws in alias.jobs(tier, FAMS, CAP[tier], CFGS[tier]).items():
            work.append((cfg, core.CONFIGS[cfg], (hdr, ws), fam))
        def run(j):
            cfg, fl, src, tag = j
            if isinstance(src, tuple):
                # drop what does not compile (its own family reports it)
                bc, todo, dropped, err = alias.translate(tmp, cfg, src[0], src[1], 'i_%s_%s' % (tag, re.sub(r'\W', '_', cfg)))
                if not bc: return j, (None, err)
                r = core.sh([core.CLANG, '-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', '-x', 'ir', bc, '-o', '-']); os.unlink(bc)
                return j, (r.stdout.decode(errors='replace') if r.returncode == 0 else None, r.stderr.decode(errors='replace'))
            return j, ir(fl, src)
        with ThreadPoolExecutor(core.JOBS) as ex: res = list(ex.map(run, work))
        seen = {}
        for (cfg, fl, src, tag), (ll, err) in res:
            if ll is None: rows.append((cfg, Obl('prog_' + tag, tag), {'status': 'compile', 'msg': 'GLOBAL ' + err[-1500:]})); continue
            fn, refs, asm, var, link = scan(ll)
            mine = have(ir_features(fl))
            bad = [(f, x - mine) for f, x in fn.items() if x - mine]; unknown = []
            for t, fs in asm.items():
                n = asm_needs(t)
                if n is None: unknown.append(t)
                elif n - mine: bad.append((sorted(fs)[0] + ': asm "%s"' % t, n - mine))
            tot['header functions'] += len(fn); tot['inline assembly statements'] += len(asm)
            v = verdict(bad, len(fn))
            if v['status'] == 'ok' and unknown: v = {'status': 'limit', 'msg': 'inline assembly "%s" is not in the table' % unknown[0]}
            rows.append((cfg, Obl('hdr_' + tag, 'functions and inline assembly of the %s operations' % tag), v))
            for r in refs - set(fn) - var:
                k = (cfg, r)
                if k in seen: continue
                seen[k] = 1; tot['references resolved'] += 1
                d = defs.get(r)
                if d is None: v = {'status': 'diff', 'diffs': [{'what': 'reference to ' + r, 'impl': 'no library object defines it', 'spec': 'defined', 'loc': '', 'when': ''}]}
                else: v = verdict([('%s in %s' % (r, d[0]), d[1] - mine)] if d[1] - mine else [], 1)
                rows.append((cfg, Obl('ref_' + r, 'library function or table ' + r), v))
        return rows, {'instruction sets': tot}
    finally: shutil.rmtree(tmp, ignore_errors=True)

def verdict(bad, n):
    if bad: return {'status': 'diff', 'diffs': [{'what': f, 'impl': 'compiled for ' + ' '.join(sorted(x)), 'spec': 'only what the program is compiled for', 'loc': '', 'when': ''} for f, x in bad[:6]]}
    return {'status': 'ok', 'insts': n}
_cache = {}
def ir_features(fl):
    k = tuple(fl)
    if k not in _cache:
        d = tempfile.mkdtemp(prefix='vcf')
        try:
            p = os.path.join(d, 'f.cpp'); open(p, 'w').write('void f() {}\n')
            r = core.sh([core.CLANG] + [x for x in fl if x.startswith('-m')] + ['-S', '-emit-llvm', '-o', '-', p])
            _cache[k] = set(x[1:] for x in re.findall(r'"target-features"="([^"]*)"', r.stdout.decode())[0].split(',') if x.startswith('+'))
        finally: shutil.rmtree(d, ignore_errors=True)
    return _cache[k]
