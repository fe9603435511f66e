"""C14 (part): what only SimdArray has: constructors, element access, casts between shapes, generators, free operators on mixtures."""
from core import *
from families.casts import floor_for
from families.simdshape import shapes
HEADER = 'wit_math.h'
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vc::SimdArray<%s,%d>' % (t, N); M = V + '::mask_type'; id_ = '%s_%s' % (abi, t)
    td = 'typedef %s V; typedef V::mask_type M; ' % V
    F = 'for(int i=0;i<%d;++i)' % N
    A_, B_, R_ = IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')
    K_ = IN('bool', N, 'm')
    fp = t in FLOATS
    nb = max(1, N.bit_length())
    def u(nm, ps, impl, spec, **kw): mk(w, cfg, '%s_%s' % (nm, id_), ps, td + impl, spec, what='%s on %s' % (nm, V), **kw)
    u('zero0', [R_], 'stv(r,V(Vc::Zero));', F + ' r[i]=0;')
    u('one0', [R_], 'stv(r,V(Vc::One));', F + ' r[i]=1;')
    u('idx0', [R_], 'stv(r,V(Vc::IndexesFromZero));', F + ' r[i]=%s(i);' % t)
    u('zerof', [R_], 'stv(r,V(V::Zero()));', F + ' r[i]=0;')
    u('onef', [R_], 'stv(r,V(V::One()));', F + ' r[i]=1;')
    u('idxf', [R_], 'stv(r,V(V::IndexesFromZero()));', F + ' r[i]=%s(i);' % t)
    u('bc', [SC(t, 's'), R_], 'V x=s; stv(r,x);', F + ' r[i]=s;')
    u('defzero', [R_], 'V x{}; stv(r,x);', F + ' r[i]=0;')
    u('init', [A_, R_], 'V x={%s}; stv(r,x);' % ','.join('a[%d]' % i for i in range(N)), F + ' r[i]=a[i];')
    u('gen', [A_, R_], 'V x([&](int i){return a[i];}); stv(r,x);', F + ' r[i]=a[i];')
    u('genf', [A_, R_], 'V x=V::generate([&](int i){return a[i];}); stv(r,x);', F + ' r[i]=a[i];')
    u('setzero', [A_, R_], 'V x=ldv<V>(a); x.setZero(); stv(r,x);', F + ' r[i]=0;')
    u('setzerok', [A_, K_, R_], 'V x=ldv<V>(a); x.setZero(ldm<M>(m)); stv(r,x);', F + ' r[i]=m[i]?%s(0):a[i];' % t)
    u('setzeroinvk', [A_, K_, R_], 'V x=ldv<V>(a); x.setZeroInverted(ldm<M>(m)); stv(r,x);', F + ' r[i]=m[i]?a[i]:%s(0);' % t)
    if fp:
        u('setqnan', [A_, K_, OUT('bool', N, 'r')], 'V x=ldv<V>(a); x.setQnan(ldm<M>(m)); %s q[%d]; stv(q,x); ' % (t, N) + F + ' r[i]=is_nan(q[i]);', F + ' r[i]=m[i]||is_nan(a[i]);', opts=('fbits',))
    u('assign', [A_, B_, K_, R_], 'V x=ldv<V>(a); x.assign(ldv<V>(b),ldm<M>(m)); stv(r,x);', F + ' r[i]=m[i]?b[i]:a[i];')
    u('iif', [A_, B_, K_, R_], 'stv(r,V(Vc::iif(ldm<M>(m),ldv<V>(a),ldv<V>(b))));', F + ' r[i]=m[i]?a[i]:b[i];')
    u('get', [A_, CTL('n', nb)], 'const V x=ldv<V>(a); return x[n];', '__vc_assume(n<%d); %s z=a[0]; for(int i=0;i<%d;++i) if(n==i) z=a[i]; return z;' % (N, t, N), ret=t)
    for k in range(N): u('get%d' % k, [A_], 'const V x=ldv<V>(a); return x[%d];' % k, 'return a[%d];' % k, ret=t)
    u('set', [A_, SC(t, 'v'), CTL('n', nb), R_], 'V x=ldv<V>(a); x[n]=v; stv(r,x);', '__vc_assume(n<%d); ' % N + F + ' r[i]=i==n?v:a[i];')
    u('setplus', [A_, SC(t, 'v'), CTL('n', nb), R_], 'V x=ldv<V>(a); x[n]+=v; stv(r,x);', '__vc_assume(n<%d); ' % N + F + ' r[i]=i==n?%s(a[i]+v):a[i];' % t)
    u('copy', [A_, R_], 'V x=ldv<V>(a); V y(x); V z; z=y; stv(r,z);', F + ' r[i]=a[i];')
    for nm, ex in (('apply', 'x.apply(f)'),):
        u(nm, [A_, R_], 'V x=ldv<V>(a); auto f=[](%s v){return %s(v+v);}; stv(r,V(x.apply(f)));' % (t, t), F + ' r[i]=%s(a[i]+a[i]);' % t)
    u('applyk', [A_, K_, R_], 'V x=ldv<V>(a); auto f=[](%s v){return %s(v+v);}; stv(r,V(x.apply(f,ldm<M>(m))));' % (t, t), F + ' r[i]=m[i]?%s(a[i]+a[i]):a[i];' % t)
    for t2 in ('float', 'double', 'int', 'short', 'uint'):
        if t2 == t: continue
        W = 'Vc::SimdArray<%s,%d>' % (t2, N)
        mk(w, cfg, 'conv_%s_%s' % (t2, id_), [IN(t2, N, 'a', **floor_for(t2, t)), R_], td + 'V x(ldv<%s>(a)); stv(r,x);' % W, F + ' r[i]=%s(a[i]);' % t, what='%s(%s)' % (V, W))
def casts(cfg, N, u, w, tier):
    """simd_cast between SimdArray shapes, from and to native vectors, with offsets, n to 1; and the mask forms"""
    from families.casts import allabis
    F = 'Vc::SimdArray<%s,%d>' % (u, N)
    def fo(nm, ret, NT, t, expr, n, off, src=N, **kw):
        fl = floor_for(u, t)
        mk(w, cfg, nm, [IN(u, src * n, 'a', **fl), OUT(t, NT, 'r')], 'typedef %s F; typedef %s T; stv(r,Vc::simd_cast<T%s>(%s));' % (kw.get('F', F), ret, ',%d' % off if off else '', expr),
           'for(int i=0;i<%d;++i) r[i]=i+%d<%d?%s(a[i+%d]):%s(0);' % (NT, off * NT, src * n, t, off * NT, t), what='simd_cast<%s%s>(%d x %s)' % (ret, ',%d' % off if off else '', n, kw.get('F', F)))
    def fm(nm, ret, NT, expr, n, off, src=N, **kw):
        mk(w, cfg, nm, [IN('bool', src * n, 'a'), OUT('bool', NT, 'r')], 'typedef %s F; typedef %s T; stm(r,Vc::simd_cast<T%s>(%s));' % (kw.get('F', F) + '::mask_type', ret, ',%d' % off if off else '', expr),
           'for(int i=0;i<%d;++i) r[i]=i+%d<%d?a[i+%d]:false;' % (NT, off * NT, src * n, off * NT), what='simd_cast<%s%s>(%d x %s)' % (ret, ',%d' % off if off else '', n, kw.get('F', F) + '::mask_type'))
    for t in ('float', 'double', 'int', 'short', 'ushort'):
        for NT in sorted({2, 3, N - 1, N, N + 1, 2 * N}):
            if NT < 1: continue
            if NT == N and t == u: continue
            T = 'Vc::SimdArray<%s,%d>' % (t, NT); i_ = 'F%d_%s_F%d_%s' % (N, u, NT, t)
            fo('sc1_%s' % i_, T, NT, t, 'ldv<F>(a)', 1, 0)
            fm('sm1_%s' % i_, T + '::mask_type', NT, 'ldm<F>(a)', 1, 0)
            if NT == 2 * N:
                fo('sc2_%s' % i_, T, NT, t, 'ldv<F>(a),ldv<F>(a+%d)' % N, 2, 0)
                fm('sm2_%s' % i_, T + '::mask_type', NT, 'ldm<F>(a),ldm<F>(a+%d)' % N, 2, 0)
            for off in range(1, (N + NT - 1) // NT):
                fo('so%d_%s' % (off, i_), T, NT, t, 'ldv<F>(a)', 1, off)
                fm('sp%d_%s' % (off, i_), T + '::mask_type', NT, 'ldm<F>(a)', 1, off)
        for ab in allabis(cfg):
            if t not in abi_types(cfg, ab): continue
            n2 = size(ab, t); T = 'Vx<%s,A::%s>' % (t, ab); TM = 'Mx<%s,A::%s>' % (t, ab); i_ = 'F%d_%s_%s_%s' % (N, u, ab, t)
            fo('vc_%s' % i_, T, n2, t, 'ldv<F>(a)', 1, 0)
            fm('vm_%s' % i_, TM, n2, 'ldm<F>(a)', 1, 0)
            for off in range(1, (N + n2 - 1) // n2):
                fo('vo%d_%s' % (off, i_), T, n2, t, 'ldv<F>(a)', 1, off)
                fm('vp%d_%s' % (off, i_), TM, n2, 'ldm<F>(a)', 1, off)
    for ab in allabis(cfg):
        for s in ('float', 'double', 'int', 'short'):
            if s not in abi_types(cfg, ab): continue
            ns = size(ab, s); S = 'Vx<%s,A::%s>' % (s, ab); i_ = '%s_%s_F%d_%s' % (ab, s, N, u)
            for n in range(1, (N + ns - 1) // ns + 1):
                mk(w, cfg, 'vs%d_%s' % (n, i_), [IN(s, ns * n, 'a', **floor_for(s, u)), OUT(u, N, 'r')], 'typedef %s S; typedef %s T; stv(r,Vc::simd_cast<T>(%s));' % (S, F, ','.join('ldv<S>(a+%d)' % (ns * k) for k in range(n))),
                   'for(int i=0;i<%d;++i) r[i]=i<%d?%s(a[i]):%s(0);' % (N, ns * n, u, u), what='simd_cast<%s>(%d x %s)' % (F, n, S))
            for off in range(1, (ns + N - 1) // N):
                mk(w, cfg, 'vso%d_%s' % (off, i_), [IN(s, ns, 'a', **floor_for(s, u)), OUT(u, N, 'r')], 'typedef %s S; typedef %s T; stv(r,Vc::simd_cast<T,%d>(ldv<S>(a)));' % (S, F, off),
                   'for(int i=0;i<%d;++i) r[i]=i+%d<%d?%s(a[i+%d]):%s(0);' % (N, off * N, ns, u, off * N, u), what='simd_cast<%s,%d>(%s)' % (F, off, S))
def ismask(x): return x.name.split('_')[0].rstrip('0123456789') in ('sm', 'sp', 'vm', 'vp')
def witnesses(tier): return [x for x in all_(tier) if not ismask(x)]
def all_(tier):
    w = []
    for cfg, abi, t in shapes(tier): one(cfg, abi, t, w)
    q = (('avx2', (3, 5, 8), ('float', 'int', 'short')), ('sse41', (3,), ('double', 'short')), ('avx', (5,), ('float',)), ('scalar', (3,), ('int',)))
    if tier == 'thorough': q = (('avx2', (3, 4, 5, 8, 12), ('float', 'int', 'short', 'double', 'ushort')), ('sse41', (3, 6), ('float', 'double', 'short')), ('sse2', (5,), ('float', 'int')), ('avx', (5, 12), ('double', 'int', 'float')), ('scalar', (3,), ('int', 'double')))
    for cfg, ns, us in q:
        for n in ns:
            for u in us: casts(cfg, n, u, w, tier)
    return w
