"""C08 simd_cast (vectors and masks, n-to-1, 1-to-n, across ABIs), converting constructors, reinterpret_components_cast."""
from core import *
from families.compare import CFGS, EXTRA
def allabis(cfg): return ['Sc'] if cfg == 'scalar' else ['Sc'] + abis(cfg)
def types(cfg):
    return [(a, t) for a in allabis(cfg) for t in abi_types(cfg, a)]
def floor_for(u, t):
    """domain restriction for fp -> integer: the truncated value is representable"""
    return {'floor': BITS[t] if t[0] == 'u' else -BITS[t]} if u in FLOATS and t in INTS else {}
PROBE = False
def mask_n(fa, u, ta, t, n):
    """the n-to-1 mask forms the library offers: powers of two"""
    return n & (n - 1) == 0 and not (fa == 'Sse' and u == 'double' and ta == 'Avx' and t in ('short', 'ushort') and n == 8)
def convertible(fa, ta): return fa == ta or (fa, ta) == ('Sse', 'Avx')
def pairs(cfg, w, fa, u, ta, t):
    NF, NT = size(fa, u), size(ta, t)
    F = 'Vx<%s,A::%s>' % (u, fa); T = 'Vx<%s,A::%s>' % (t, ta)
    MF = 'Mx<%s,A::%s>' % (u, fa); MT = 'Mx<%s,A::%s>' % (t, ta)
    id_ = '%s_%s_%s_%s' % (fa, u, ta, t)
    for n in range(1, max(1, (NT + NF - 1) // NF) + 1):
        ty = t
        ps = [IN(u, NF * n, 'a', **floor_for(u, t)), OUT(t, NT, 'r')]
        mk(w, cfg, 'c%d_%s' % (n, id_), ps, 'typedef %s F; typedef %s T; stv(r,Vc::simd_cast<T>(%s));' % (F, T, ','.join('ldv<F>(a+%d)' % (NF * k) for k in range(n))),
               'for(int i=0;i<%d;++i) r[i]=i<%d?%s(a[i]):%s(0);' % (NT, NF * n, t, t), what='simd_cast<%s>(%d x %s)' % (T, n, F))
        pm = [IN('bool', NF * n, 'a'), OUT('bool', NT, 'r')]
        if mask_n(fa, u, ta, t, n): mk(w, cfg, 'm%d_%s' % (n, id_), pm, 'typedef %s F; typedef %s T; stm(r,Vc::simd_cast<T>(%s));' % (MF, MT, ','.join('ldm<F>(a+%d)' % (NF * k) for k in range(n))),
           'for(int i=0;i<%d;++i) r[i]=i<%d?a[i]:false;' % (NT, NF * n), what='simd_cast<%s>(%d x %s)' % (MT, n, MF))
    for off in range(0, max(1, (NF + NT - 1) // NT)):
        fl = dict(floor_for(u, t))
        ps = [IN(u, NF, 'a', **fl), OUT(t, NT, 'r')]
        mk(w, cfg, 'o%d_%s' % (off, id_), ps, 'typedef %s F; typedef %s T; stv(r,Vc::simd_cast<T,%d>(ldv<F>(a)));' % (F, T, off),
           'for(int i=0;i<%d;++i) r[i]=i+%d<%d?%s(a[i+%d]):%s(0);' % (NT, off * NT, NF, t, off * NT, t), what='simd_cast<%s,%d>(%s)' % (T, off, F))
        mk(w, cfg, 'om%d_%s' % (off, id_), [IN('bool', NF, 'a'), OUT('bool', NT, 'r')], 'typedef %s F; typedef %s T; stm(r,Vc::simd_cast<T,%d>(ldm<F>(a)));' % (MF, MT, off),
           'for(int i=0;i<%d;++i) r[i]=i+%d<%d?a[i+%d]:false;' % (NT, off * NT, NF, off * NT), what='simd_cast<%s,%d>(%s)' % (MT, off, MF))
    ps = [IN(u, NF, 'a', **floor_for(u, t)), OUT(t, NT, 'r')]
    sp = 'for(int i=0;i<%d;++i) r[i]=i<%d?%s(a[i]):%s(0);' % (NT, NF, t, t)
    if convertible(fa, ta): mk(w, cfg, 'ctor_%s' % id_, ps, 'typedef %s F; typedef %s T; stv(r,T(ldv<F>(a)));' % (F, T), sp, what='%s(%s)' % (T, F))
    if NF == NT and BITS[u] == BITS[t] and fa == ta and u != t:
        mk(w, cfg, 'rc_%s' % id_, [IN(u, NF, 'a'), OUT(t, NT, 'r')], 'typedef %s F; typedef %s T; stv(r,Vc::reinterpret_components_cast<T>(ldv<F>(a)));' % (F, T), '__builtin_memcpy(r,a,%d);' % (NF * BITS[u] // 8), what='reinterpret_components_cast<%s>(%s)' % (T, F))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for fa, u in types(cfg):
            for ta, t in types(cfg): pairs(cfg, w, fa, u, ta, t)
    return w
