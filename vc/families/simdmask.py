"""C15 SimdMaskArray<T, N> as N booleans: the mask family on every register mixture."""
from core import *
from families import mask
from families.casts import allabis
HEADER = 'wit_math.h'
T6 = ('float', 'double', 'int', 'uint', 'short', 'ushort')
Q = [('scalar', (1, 3), ('float', 'short')), ('sse2', (3, 7), ('float', 'double', 'short')), ('sse41', (5, 12), ('double', 'int', 'ushort')), ('avx', (3, 6, 13), ('float', 'double', 'short')), ('avx2', (5, 11), T6), ('avx2', (2, 3, 4, 8, 16, 19, 31), ('double', 'int', 'short'))]
TH = Q + [('avx2', (1, 4, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32), T6), ('clang-avx2', (5, 11), T6), ('sse2', (2, 5, 6, 9, 16), T6), ('avx', (5, 9), T6)]
def conv(cfg, N, t, w):
    """between SimdMaskArray and native masks of equal size"""
    for ab in allabis(cfg):
        for t2 in abi_types(cfg, ab):
            if size(ab, t2) != N: continue
            S = 'Mx<%s,A::F%d>' % (t, N); M = 'Mx<%s,A::%s>' % (t2, ab)
            mk(w, cfg, 'ton_%s_%s_F%d_%s' % (ab, t2, N, t), [IN('bool', N, 'a'), OUT('bool', N, 'r')], '%s k=ldm<%s>(a); stm(r,k);' % (M, S), 'for(int i=0;i<%d;++i) r[i]=a[i];' % N, what='%s from %s' % (M, S))
            mk(w, cfg, 'fromn_%s_%s_F%d_%s' % (ab, t2, N, t), [IN('bool', N, 'a'), OUT('bool', N, 'r')], '%s k=ldm<%s>(a); stm(r,k);' % (S, M), 'for(int i=0;i<%d;++i) r[i]=a[i];' % N, what='%s from %s' % (S, M))
def witnesses(tier):
    w = []; seen = set()
    for cfg, ns, ts in (Q if tier == 'quick' else TH):
        for n in ns:
            for t in ts:
                if (cfg, n, t) in seen: continue
                seen.add((cfg, n, t))
                q = []
                mask.one(cfg, 'F%d' % n, t, q)
                conv(cfg, n, t, q)
                w += q
    from families import simdown
    return w + [x for x in simdown.all_(tier) if simdown.ismask(x)]
