"""C10 horizontal reductions and partial sums of the vector types."""
from core import *
from families.compare import CFGS, EXTRA
from families.casts import allabis
TOP = {'float': '__builtin_inff()', 'double': '__builtin_inf()', 'int': '0x7fffffff', 'uint': '0xffffffffu', 'short': 'short(0x7fff)', 'ushort': 'ushort(0xffff)'}
BOT = {'float': '-__builtin_inff()', 'double': '-__builtin_inf()', 'int': '(-0x7fffffff-1)', 'uint': '0u', 'short': 'short(-0x7fff-1)', 'ushort': 'ushort(0)'}
def fold(op, t, N, masked):
    n = {'min': TOP[t], 'max': BOT[t], 'sum': '0', 'product': '1'}[op]
    leaf = '%s v[%d]; for(int i=0;i<%d;++i) v[i]=%s; %s r=%s; ' % (t, N, N, 'm[i]?a[i]:%s(%s)' % (t, n) if masked else 'a[i]', t, n)
    return leaf + 'for(int i=0;i<%d;++i) ' % N + {'min': 'r=v[i]<r?v[i]:r;', 'max': 'r=r<v[i]?v[i]:r;', 'sum': 'r=%s(r+v[i]);' % t, 'product': 'r=%s(r*v[i]);' % t}[op]
def one(cfg, abi, t, w):
    N = size(abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi); Mk = 'Mx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    D = 'typedef %s V; V x=ldv<V>(a); ' % V
    for op in ('min', 'max', 'sum', 'product'):
        o = ('order',) if op in ('min', 'max') else ('ac',)
        mk(w, cfg, '%s_%s' % (op, id_), [IN(t, N, 'a')], D + 'return x.%s();' % op, fold(op, t, N, False) + 'return r;', opts=o, ret=t, what='%s::%s()' % (V, op))
        if op in ('min', 'max'):
            ne = '{bool any=false; for(int i=0;i<%d;++i) any=any||m[i]; __vc_assume(any);} ' % N
        else: ne = ''
        mk(w, cfg, 'm%s_%s' % (op, id_), [IN(t, N, 'a'), IN('bool', N, 'm')], D + 'return x.%s(ldm<%s>(m));' % (op, Mk), ne + fold(op, t, N, True) + 'return r;', opts=o, ret=t, what='%s::%s(mask)' % (V, op))
    mk(w, cfg, 'psum_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], D + 'stv(r,x.partialSum());', '%s s=0; for(int i=0;i<%d;++i){ s=%s(s+a[i]); r[i]=s; }' % (t, N, t), opts=('ac',), what='%s::partialSum()' % V)
    if abi == 'Avx':
        for op, rel in (('min', '<'), ('max', '>')):
            # a single extreme lane k
            kb = N.bit_length() - 1
            mk(w, cfg, '%six_%s' % (op, id_), [CTL('k', kb), SC(t, 's'), SC(t, 'z'), OUT(t, N, 'r'), OUT('int', 1, 'q')], 'typedef %s V; V x([&](int i){return i==int(k)?s:z;}); auto p=x.%sIndex(); stv(r,p.first); *q=p.second;' % (V, op), '__vc_assume(s%sz); for(int i=0;i<%d;++i) r[i]=s; *q=k;' % (rel, N), what='%s::%sIndex()' % (V, op))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in allabis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
