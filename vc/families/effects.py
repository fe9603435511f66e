"""C33: effects. Every operation is flattened (engine/alias.cpp) and everything it writes is attributed to its memory
object: only its non-const operands, its result, its own local variables and memory it allocated may be written."""
import json, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import core
from families import alias
FAMS = [(f, '') for f in 'mask loads stores gather oldgather interleave memory container subscript simdize iterate masked transpose simdmask perm alloc arith compare casts reduce sorting mathfn trans simdarray simdown'.split()]
CAP = {'quick': 160, 'thorough': 4000}
CALLS = re.compile(r'(frexp|ldexp|ilogb|logb|scalbn|fma|modf|floor|ceil|round|trunc|rint|nearbyint|sqrt|sin|cos|sincos|tan|asin|acos|atan|atan2|exp|log|log2|log10|log1p|pow|copysign|fmod|hypot)f?'
                   r'|__cxa_(allocate_exception|free_exception|throw|begin_catch|end_catch|rethrow)|__clang_call_terminate|_ZSt9terminatev|_ZSt\d+__throw_\w+|_ZNSt\d+(out_of_range|length_error|bad_alloc)\w*|_ZSt17__throw_bad_allocv'
                   r'|cb_\w+|__vc_\w+|_Zn[wa]\w*|_Zd[la]\w*|malloc|free|posix_memalign|aligned_alloc|abort|printf|mem(cpy|move|set|cmp)|inline assembly|_ZN4Vc_1\w+|__assert_fail')
WITNESS_STATE = re.compile(r'_ZL(3env|3cnt|5dtors|10dtor_frees|\d+\w*)$')

def from_witness(loc):
    f = loc.split(' < ')[0]
    return f and not os.path.abspath(f.split(':')[0]).startswith(core.REPO + '/')

def judge(w, r, allowed_globals, params=None, ctor=False):
    bad = []
    for k, loc in r.get('writes', {}).items():
        if k in ('local', 'null') or k.startswith('result of ') or k.startswith('pointee of local'): continue
        if k.startswith('arg '):
            p = (params or [])[int(k[4:]):][:1]
            if p and p[0].strip().startswith('const ') and not from_witness(loc): bad.append(('operand ' + p[0].strip(), loc))
            continue
        if k.startswith('pointee of global _ZL3env') or k.startswith('global ') and from_witness(loc): continue
        if allowed_globals and re.search(allowed_globals, k): continue
        bad.append((k, loc))
    calls = [c for c in r.get('calls', {}) if not CALLS.fullmatch(c)]
    return bad, calls

def rules(tier):
    rows, tot = [], {'operations': 0, 'library functions': 0, 'writes attributed': 0}
    src, ex = alias.rules(tier, fams=FAMS, cap=CAP[tier])
    for cfg, w, r in src + lib_rows():
        lib = isinstance(w, Lib)
        if r['status'] in ('compile', 'missing', 'limit'): rows.append((cfg, w, r if r['status'] != 'missing' else dict(r, status='limit'))); continue
        tot['library functions' if lib else 'operations'] += 1
        tot['writes attributed'] += len(r.get('writes', {}))
        bad, calls = judge(w, r, w.allow if lib else None, None if lib else w.args)
        d = {'name': w.name, 'insts': r.get('insts', 0)}
        if bad: d.update(status='diff', diffs=[{'what': 'writes ' + k, 'impl': 'written', 'spec': 'not written', 'loc': l, 'when': ''} for k, l in bad[:5]])
        elif calls: d.update(status='limit', msg='calls to functions without a known effect: ' + ', '.join(calls[:5]))
        else: d['status'] = 'ok'
        rows.append((cfg, w, d))
    return rows, {'effects': tot}

class Lib:
    def __init__(self, name, what, allow): self.name = name; self.what = what; self.allow = allow; self.code = ''
SRC_ALLOW = {'cpuid.cpp': r'_ZN4Vc_15CpuId|_ZZN4Vc_15CpuId'}   # detection fills its own table (before main)

def lib_rows():
    tmp = tempfile.mkdtemp(prefix='vce')
    jobs = [(s, i, f) for s, v in core.LIBSRC.items() for i, f in v]
    def one(j):
        s, impl, fl = j
        t = re.sub(r'\W', '_', s + impl)
        bc = os.path.join(tmp, t + '.bc'); jf = bc + '.json'; of = bc + '.out'
        cmd = [x for x in core.flags(fl, ['-DVc_COMPILE_LIB'] + (['-DVc_IMPL=' + impl] if impl else [])) if x != '-fno-strict-aliasing']
        r = core.sh(cmd + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', os.path.join(core.REPO, 'src', s), '-o', bc])
        cfg = 'lib ' + (impl or 'common')
        if r.returncode: return [(cfg, Lib('lib_' + t, s, None), {'status': 'compile', 'msg': 'GLOBAL ' + r.stderr.decode()[-1500:]})]
        open(jf, 'w').write('[]')
        core.sh([alias.ALIAS, jf, of, bc], timeout=400)
        out = []
        for l in open(of):
            d = json.loads(l)
            out.append((cfg, Lib('lib_%s_%s' % (t, d['name']), 'function %s of src/%s' % (d['name'], s), SRC_ALLOW.get(s)), d))
        return out
    try:
        res = []
        with ThreadPoolExecutor(core.JOBS) as ex:
            for o in ex.map(one, jobs): res += o
        return res
    finally: shutil.rmtree(tmp, ignore_errors=True)
