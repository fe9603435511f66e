"""C02 comparisons and floating-point classification."""
from core import *
OPS = (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='))
CFGS = ['scalar', 'sse2', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2']
EXTRA = ['sse3', 'clang-sse2', 'clang-avx2']
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    td = 'typedef %s V; ' % V
    for nm, op in OPS:
        mk(w, cfg, '%s_%s' % (nm, id_), [IN(t, N, 'a'), IN(t, N, 'b'), OUT('bool', N, 'r')], td + 'auto m=ldv<V>(a)%sldv<V>(b); stm(r,m);' % op,
           'for(int i=0;i<%d;++i) r[i]=a[i]%sb[i];' % (N, op), what='%s on %s' % (op, V))
        mk(w, cfg, '%ss_%s' % (nm, id_), [IN(t, N, 'a'), SC(t, 's'), OUT('bool', N, 'r')], td + 'auto m=ldv<V>(a)%sV(s); stm(r,m);' % op,
           'for(int i=0;i<%d;++i) r[i]=a[i]%ss;' % (N, op), what='%s with scalar on %s' % (op, V))
        mk(w, cfg, 's%s_%s' % (nm, id_), [IN(t, N, 'a'), SC(t, 's'), OUT('bool', N, 'r')], td + 'auto m=s%sldv<V>(a); stm(r,m);' % op,
           'for(int i=0;i<%d;++i) r[i]=s%sa[i];' % (N, op), what='scalar %s on %s' % (op, V))
        for all_, fold, ini in (('all', '&=', 'true'), ('any', '|=', 'false')):
            mk(w, cfg, '%s%s_%s' % (nm, all_, id_), [IN(t, N, 'a'), IN(t, N, 'b')], td + 'return Vc::%s_of(ldv<V>(a)%sldv<V>(b));' % (all_, op),
               'bool x=%s; for(int i=0;i<%d;++i) x%sa[i]%sb[i]; return x;' % (ini, N, fold, op), opts=['lanemajor'], ret='bool')
    if t in FLOATS:
        for nm, e in (('isnan', 'x!=x'), ('isfinite', '__builtin_isfinite(x)'), ('isinf', '__builtin_isinf(x)!=0'), ('isnegative', '__builtin_signbit(x)!=0')):
            mk(w, cfg, '%s_%s' % (nm, id_), [IN(t, N, 'a'), OUT('bool', N, 'r')], td + 'stm(r,Vc::%s(ldv<V>(a)));' % nm,
               'for(int i=0;i<%d;++i){%s x=a[i]; r[i]=%s;}' % (N, t, e), opts=['fcmp_exact'], what='%s on %s' % (nm, V))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
