"""C20 result types and acceptance of operators and conversions."""
from core import *
from families.compare import CFGS, EXTRA
HEADER = 'wit_types.h'
SZ = {'bool': 1, 'char': 1, 'schar': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'llong': 8, 'ullong': 8, 'float': 4, 'double': 8}
RANK = ['bool', 'schar', 'short', 'int', 'long', 'llong']
UNS = {'schar': 'uchar', 'char': 'uchar', 'short': 'ushort', 'int': 'uint', 'long': 'ulong', 'llong': 'ullong'}
SCAL = list(SZ)
isf = lambda t: t in FLOATS
uns = lambda t: t[0] == 'u' or t == 'bool'
mku = lambda t: UNS.get(t, t)
def fund(t, u):
    """entry type for operands with entry types t and u"""
    if u == 'En': return t
    if isf(t) and isf(u): return u if SZ[u] > SZ[t] else t
    if isf(t): return t
    if isf(u): return u
    if SZ[t] != SZ[u]: return t if SZ[t] > SZ[u] else u
    s = {v: k for k, v in UNS.items() if k != 'char'}
    a, b = s.get(t, t), s.get(u, u)
    r = a if RANK.index(a) >= RANK.index(b) else b
    return mku(r) if uns(t) or uns(u) else r
def implicit(a, b):
    """vectors convert implicitly between the signed and the unsigned variant of a type only"""
    return a == b or (not isf(a) and not isf(b) and mku(a) == mku(b))
def scalar_result(t, u):
    if u == 'int': return t
    if u == 'uint': return mku(t) if not isf(t) else t
    r = fund(t, u)
    return r if r in TYPES and implicit(t, r) else None
def one(cfg, abi, r, tier):
    ts = abi_types(cfg, abi)
    V = lambda t: 'Vx<%s,A::%s>' % (t, abi)
    M = lambda t: 'Mx<%s,A::%s>' % (t, abi)
    n = [0]
    def S(e, what): n[0] += 1; r.append(Static('t_%s_%d' % (abi, n[0]), e, cfg, what))
    def binary(L, R, res, resm, tl, tr, comp=True):
        """res: expected vector type or None"""
        what = '%s op %s' % (L, R)
        if res is None:
            S('all_rejected<%s,%s>()' % (L, R), what + ' is rejected'); return
        f = isf(res)
        E = V(res)
        S('arith<%s,%s,%s>()' % (L, R, E), what + ' (arithmetic) gives ' + E)
        S('%s<%s,%s,%s>()' % ('bits', L, R, 'void' if f else E), what + ' (bits, remainder)')
        S('cmp<%s,%s,%s>()' % (L, R, M(res)), what + ' (comparisons) gives ' + M(res))
    for t in ts:
        v = V(t)
        for u in SCAL + ['En']:
            e = scalar_result(t, u)
            binary(v, u, e, None, t, u); binary(u, v, e, None, t, u)
            binary('const %s&' % v, '%s&' % u, e, None, t, u)
            if e is None: S('cassign<%s,%s,void>()&&cbits<%s,%s,void>()' % (v, u, v, u), '%s op= %s is rejected' % (v, u))
            else:
                S('cassign<%s,%s,%s&>()' % (v, u, v), '%s op= %s' % (v, u))
                S('cbits<%s,%s,%s>()' % (v, u, 'void' if isf(t) else v + '&'), '%s op= %s (bits, remainder)' % (v, u))
            S('logic<%s,%s,%s>()&&logic<%s,%s,%s>()' % (v, u, M(t), u, v, M(t)), '%s && %s' % (v, u))
            S('conv<%s,%s>()' % (u, v), '%s converts to %s' % (u, v))
            S('!conv<%s,%s>()' % (v, u), '%s does not convert to %s' % (v, u))
        for u in ts:
            e = fund(t, u); e = e if implicit(t, e) and implicit(u, e) and size(abi, t) == size(abi, u) else None
            binary(v, V(u), e, None, t, u); binary('const %s&' % v, '%s&' % V(u), e, None, t, u)
            S('cassign<%s,%s,%s>()' % (v, V(u), v + '&' if e else 'void'), '%s op= %s' % (v, V(u)))
            S('conv<%s,%s>()==%s' % (V(u), v, 'true' if implicit(u, t) else 'false'), 'implicit conversion from %s to %s' % (V(u), v))
            if e: S('logic<%s,%s,%s>()' % (v, V(u), M(e)), '%s && %s' % (v, V(u)))
            # masks of different types
            S('conv<%s,%s>()==%s' % (M(u), v, 'false'), 'masks do not convert to vectors')
            S('conv<%s,%s>()==false' % (v, M(u)), 'vectors do not convert to masks')
            S('arith<%s,%s,void>()&&cmp<%s,%s,void>()' % (v, M(u), v, M(u)), '%s op %s is rejected' % (v, M(u)))
        for u in ('void*', 'std::nullptr_t', 'NotArith', 'const char*'):
            S('all_rejected<%s,%s>()&&all_rejected<%s,%s>()&&!conv<%s,%s>()' % (v, u, u, v, u, v), '%s op %s is rejected' % (v, u))
        S('arith<%s,ToV<%s>,%s>()&&arith<ToV<%s>,%s,%s>()&&cmp<%s,ToV<%s>,%s>()' % (v, v, v, v, v, v, v, v, M(t)), 'operands that convert to %s' % v)
        for o in abis(cfg) + (['Sc'] if abi != 'Sc' else []):
            if o == abi: continue
            for u in abi_types(cfg, o):
                V2 = 'Vx<%s,A::%s>' % (u, o); M2 = 'Mx<%s,A::%s>' % (u, o)
                S('all_rejected<%s,%s>()&&cassign<%s,%s,void>()&&!conv<%s,%s>()' % (v, V2, v, V2, V2, v), '%s op %s is rejected' % (v, V2))
        # masks
        S('bitonly<%s,%s,%s>()&&logic<%s,%s,%s>()&&same<r_eq<%s,%s>,bool>()&&same<r_ne<%s,%s>,bool>()' % ((M(t),) * 10), 'mask operators of ' + M(t))
        S('arith<%s,%s,void>()&&same<r_rem<%s,%s>,void>()&&ordr<%s,%s,void>()' % ((M(t),) * 6), 'masks have no arithmetic and no order')
        S('!conv<bool,%s>()&&!conv<%s,bool>()&&std::is_constructible<%s,bool>::value' % (M(t), M(t), M(t)), 'bool and masks convert explicitly only')
        S('!conv<int,%s>()&&!conv<%s,int>()' % (M(t), M(t)), 'int and masks')
        if not isf(t):
            S('same<r_shl<%s,int>,%s>()&&same<r_shr<%s,int>,%s>()' % ((v, v) * 2), 'shifts of %s by int' % v)
            S('same<r_ashl<%s&,int>,%s&>()&&same<r_ashr<%s&,int>,%s&>()' % (v, v, v, v), 'shift assignments of ' + v)
        if not isf(t): S('same<r_shl<%s,%s>,%s>()' % (v, v, v), 'shifts by vectors')
        S('same<decltype(-std::declval<%s>()),%s>()&&same<decltype(+std::declval<%s>()),%s>()&&same<decltype(!std::declval<%s>()),%s>()' % (v, v, v, v, v, M(t)), 'unary operators of ' + v)
        S('same<decltype(++std::declval<%s&>()),%s&>()&&same<decltype(std::declval<%s&>()++),%s>()' % (v, v, v, v), 'increments of ' + v)
        if not isf(t): S('same<decltype(~std::declval<%s>()),%s>()' % (v, v), 'complement of ' + v)
        S('same<decltype(!std::declval<%s>()),%s>()' % (M(t), M(t)), 'negation of ' + M(t))
        S('std::is_convertible<decltype(std::declval<%s&>()[0]),%s>::value&&same<decltype(std::declval<const %s&>()[0]),%s>()' % (v, t, v, t), 'element access of ' + v)
        S('same<decltype(std::declval<%s>().min()),%s>()&&same<decltype(std::declval<%s>().sum()),%s>()' % (v, t, v, t), 'reductions of ' + v)
def arrays(cfg, r, tier):
    n = [0]
    def S(e, what): n[0] += 1; r.append(Static('a_%d' % n[0], e, cfg, what))
    for N in ((4, 7) if tier == 'quick' else (1, 4, 7, 16)):
        A = lambda t: 'SimdArray<%s,%d>' % (t, N); Fx = lambda t: 'Vc::fixed_size_simd<%s,%d>' % (t, N); Mk = lambda t: 'SimdMaskArray<%s,%d>' % (t, N); FM = lambda t: 'Vc::fixed_size_simd_mask<%s,%d>' % (t, N)
        def promo(t, u):
            if not isf(t) and not isf(u) and SZ[t] < 4 and SZ[u] < 4:
                if SZ[t] == SZ[u]: return t if uns(t) else u
                return t if SZ[t] > SZ[u] else u
            if isf(t) or isf(u): return 'double' if 'double' in (t, u) else 'float'
            if SZ[t] < 4: t = 'int'
            if SZ[u] < 4: u = 'int'
            return fund(t, u)
        for t in TYPES:
            for u in SCAL:
                ok = not (not isf(u) and (SZ[u] > 4))
                e = promo(t, u) if ok else None
                what = '%s op %s' % (A(t), u)
                if e is None or e not in TYPES:
                    S('all_rejected<%s,%s>()&&all_rejected<%s,%s>()' % (A(t), u, u, A(t)), what + ' is rejected'); continue
                S('arith<%s,%s,%s>()&&arith<%s,%s,%s>()' % (A(t), u, Fx(e), u, A(t), Fx(e)), what + ' gives ' + Fx(e))
                S('cmp<%s,%s,%s>()&&cmp<%s,%s,%s>()' % (A(t), u, Mk(e), u, A(t), Mk(e)) + '' if 0 else 'std::is_base_of<%s,r_eq<%s,%s>>::value&&std::is_base_of<%s,r_lt<%s,%s>>::value' % (Mk(e), A(t), u, Mk(e), u, A(t)), what + ' (comparisons)')
            for u in TYPES:
                e = promo(t, u)
                S('arith<%s,%s,%s>()' % (A(t), A(u), Fx(e)), '%s op %s' % (A(t), A(u)))
                S('std::is_base_of<%s,r_eq<%s,%s>>::value&&std::is_base_of<%s,r_lt<%s,%s>>::value' % (Mk(e), A(t), A(u), Mk(e), A(t), A(u)), '%s compared with %s' % (A(t), A(u)))
            S('all_rejected<%s,SimdArray<%s,%d>>()&&all_rejected<SimdArray<%s,%d>,%s>()&&!conv<SimdArray<%s,%d>,%s>()' % (A(t), t, N + 1, t, N + 1, A(t), t, N + 1, A(t)), 'arrays of different sizes do not mix')
            S('conv<%s,%s>()&&conv<%s,%s>()' % (A(t), Fx(t), Fx(t), A(t)), 'SimdArray and fixed_size_simd convert')
            S('same<r_shl<%s,int>,%s>()&&same<r_shr<%s,int>,%s>()' % ((A(t), Fx(t)) * 2) if not isf(t) else 'same<r_shl<%s,int>,void>()' % A(t), 'shifts of ' + A(t))
            S('logic<%s,%s,%s>()' % (Mk(t), Mk(t), Mk(t)) if 0 else 'std::is_base_of<%s,r_land<%s,%s>>::value&&std::is_base_of<%s,r_xor<%s,%s>>::value&&same<r_eq<%s,%s>,bool>()' % ((Mk(t),) * 8), 'mask operators of ' + Mk(t))
            S('arith<%s,%s,void>()' % (Mk(t), Mk(t)), 'masks have no arithmetic')
def statics(tier):
    r = []
    for cfg in CFGS + EXTRA + (['avx2p'] if tier != 'quick' else []):
        for abi in abis(cfg): one(cfg, abi, r, tier)
        if cfg in ('scalar', 'sse2', 'avx', 'avx2') or tier != 'quick': arrays(cfg, r, tier)
    return r
