"""C14 SimdArray<T, N> as N independent lanes: every operation family on register mixtures and odd N."""
from core import *
from families import arith, compare, masked, loads, stores, gather, perm, reduce, sorting, mathfn
from families.simdshape import shapes
HEADER = 'wit_math.h'
LIBS = ('const.cpp', 'sse_sorthelper.cpp', 'avx_sorthelper.cpp')
PARTS = {'arith': arith, 'compare': compare, 'masked': masked, 'loads': loads, 'stores': stores, 'gather': gather, 'perm': perm, 'reduce': reduce, 'sorting': sorting, 'mathfn': mathfn}
def witnesses(tier):
    w = []
    for cfg, abi, t in shapes(tier):
        for nm, m in PARTS.items():
            q = []
            if nm == 'sorting' and int(abi[1:]) > 8: continue   # the threshold images of larger networks exceed the node limit
            m.one(cfg, abi, t, q)
            if int(abi[1:]) > 8: q = [x for x in q if not x.name.startswith(('msum_', 'mproduct_', 'product_', 'sum_'))]
            if cfg == 'sse2' and t in ('int', 'uint') and int(abi[1:]) == 8: q = [x for x in q if not x.name.startswith('product_')]   # the nested 64-bit multiplications of SSE2 are no multiset of lanes
            for x in q:
                x.code = x.code.replace('impl_' + x.name, 'impl_' + nm + '_' + x.name).replace('spec_' + x.name, 'spec_' + nm + '_' + x.name)
                x.name = nm + '_' + x.name; x.impl = 'impl_' + x.name; x.spec = 'spec_' + x.name
            w += q
    return w
