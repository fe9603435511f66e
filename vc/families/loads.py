"""C05 loads and load constructors (all flags, converting loads)."""
from core import *
from families.compare import CFGS, EXTRA
FLAGS = (('', '', 0), ('U', 'Vc::Unaligned', 0), ('A', 'Vc::Aligned', 1), ('S', 'Vc::Streaming', 1), ('AS', 'Vc::Aligned|Vc::Streaming', 1), ('US', 'Vc::Unaligned|Vc::Streaming', 0),
         ('P', 'Vc::PrefetchDefault', 1), ('UP', 'Vc::Unaligned|Vc::PrefetchDefault', 0), ('PX', 'Vc::Prefetch<1024,4096,Vc::Exclusive>()', 1))
SRC = ['double', 'float', 'int', 'uint', 'short', 'ushort', 'schar', 'uchar', 'llong', 'ullong']
def sources(abi, t):
    """element types a vector of t can be loaded from (the documented conversions that the ABI implements)"""
    if abi[0] == 'F': return {'double': ['float', 'int'], 'float': ['double', 'uint', 'uchar'], 'int': ['ushort', 'schar'], 'uint': ['ushort'], 'short': ['uchar'], 'ushort': []}[t]
    if abi == 'Sc':
        return [u for u in SRC if u != t and not (u in ('llong', 'ullong') and t not in FLOATS) and (u in FLOATS or t in FLOATS or BITS[u] <= BITS[t])]
    return {'double': ['float', 'int', 'uint', 'short', 'ushort', 'schar', 'uchar'], 'float': ['double', 'int', 'uint', 'short', 'ushort', 'schar', 'uchar'],
            'int': ['uint', 'short', 'ushort', 'schar', 'uchar'], 'uint': ['ushort', 'uchar'], 'short': ['ushort', 'schar', 'uchar'], 'ushort': ['uchar']}[t]
def regs(abi, cfg=None, t=None):
    if abi[0] == 'F':   # SimdArray: the widest register it is composed of
        n = size(abi, t); r = 1
        for a in (['Sse', 'Avx'] if cfg != 'scalar' else []):
            if a in abis(cfg) and t in abi_types(cfg, a) and size(a, t) <= n: r = regs(a)
        return r
    return {'Sc': 1, 'Sse': 16, 'Avx': 32}[abi]
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t); td = 'typedef %s V; ' % V
    for u in [t] + sources(abi, t):
        for nm, fl, al in FLAGS:
            if u != t and nm not in ('', 'U', 'A', 'S', 'UP'): continue
            a = IN(u, N, 'a', align=max(BITS[u] // 8, regs(abi, cfg, t)) if al else BITS[u] // 8)
            if u in FLOATS and t in INTS: a[1]['floor'] = BITS[t] if t[0] == 'u' else -BITS[t]
            r = OUT(t, N, 'r')
            spec = 'for(int i=0;i<%d;++i) r[i]=%s(a[i]);' % (N, t)
            args = 'a' + (',' + fl if fl else '')
            for form, code in (('ld', 'V x; x.load(%s); stv(r,x);' % args), ('ct', 'V x(%s); stv(r,x);' % args)):
                mk(w, cfg, '%s%s_%s_%s' % (form, nm, u, id_), [a, r], td + code, spec, opts=['reads'], what='%s of %s from %s with flags %s' % ('load' if form == 'ld' else 'constructor', V, u, fl or '(default)'))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
