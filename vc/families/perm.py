"""C09 lane permutations of the vector types: shifted, shifted with shift-in, rotated, reversed, interleave, broadcast, permutation by index."""
from core import *
from families.compare import CFGS, EXTRA
from families.casts import allabis
def one(cfg, abi, t, w):
    N = size(abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    def A_(): return [IN(t, N, 'a'), OUT(t, N, 'r')]
    def AB(): return [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')]
    D = 'typedef %s V; V x=ldv<V>(a); ' % V
    D2 = D + 'V y=ldv<V>(b); '
    amts = list(range(-N, N + 1)) + [N + 1, -N - 1, 100, -100]
    for k in amts:
        nm = str(k).replace('-', 'm')
        mk(w, cfg, 'shifted%s_%s' % (nm, id_), A_(), D + 'stv(r,x.shifted(%d));' % k, 'for(int i=0;i<%d;++i){int j=i+(%d); r[i]=j>=0&&j<%d?a[j]:%s(0);}' % (N, k, N, t), what='%s::shifted(%d)' % (V, k))
        mk(w, cfg, 'rotated%s_%s' % (nm, id_), A_(), D + 'stv(r,x.rotated(%d));' % k, 'for(int i=0;i<%d;++i){int j=(i+(%d)+1024*%d)%%%d; r[i]=a[j];}' % (N, k, N, N), what='%s::rotated(%d)' % (V, k))
        if abs(k) <= N:
            mk(w, cfg, 'shiftin%s_%s' % (nm, id_), AB(), D2 + 'stv(r,x.shifted(%d,y));' % k, 'for(int i=0;i<%d;++i){int j=i+(%d); r[i]=j<0?b[j+%d]:j<%d?a[j]:b[j-%d];}' % (N, k, N, N, N), what='%s::shifted(%d,shiftIn)' % (V, k))
    # amounts not known at compile time
    c = ('unsigned c', {'name': 'c', 'cls': 0, 'lim': 7})
    for nm, impl, spec, ps in (
        ('shifted', 'stv(r,x.shifted(n));', 'int j=i+n; %s q=0; for(int k=0;k<%d;++k) if(k==j) q=a[k]; r[i]=q;' % (t, N), A_()),
        ('rotated', 'stv(r,x.rotated(n));', 'int j=(i+n+64*%d)%%%d; %s q=0; for(int k=0;k<%d;++k) if(k==j) q=a[k]; r[i]=q;' % (N, N, t, N), A_())):
        mk(w, cfg, '%s_rt_%s' % (nm, id_), ps + [c], D + 'int n=int(c)-64; ' + impl, 'int n=int(c)-64; for(int i=0;i<%d;++i){%s}' % (N, spec), what='%s::%s(run-time amount)' % (V, nm))
    mk(w, cfg, 'shiftin_rt_%s' % id_, AB() + [c], D2 + 'int n=int(c)-64; stv(r,x.shifted(n,y));',
       'int n=int(c)-64; __vc_assume(n>=-%d&&n<=%d); for(int i=0;i<%d;++i){int j=i+n; %s q=0; for(int k=0;k<%d;++k){ if(k==j) q=a[k]; if(k-%d==j||k+%d==j) q=b[k]; } r[i]=q;}' % (N, N, N, t, N, N, N), what='%s::shifted(run-time amount, shiftIn)' % V)
    mk(w, cfg, 'reversed_%s' % id_, A_(), D + 'stv(r,x.reversed());', 'for(int i=0;i<%d;++i) r[i]=a[%d-i];' % (N, N - 1), what='%s::reversed' % V)
    if abi == 'Avx': mk(w, cfg, 'reversedtag_%s' % id_, A_(), D + 'stv(r,x[Vc::Permutation::Reversed]);', 'for(int i=0;i<%d;++i) r[i]=a[%d-i];' % (N, N - 1), what='%s[Reversed]' % V)
    lo = 'for(int i=0;i<%d;++i) r[i]=i%%2?b[i/2]:a[i/2];' % N; hi = 'for(int i=0;i<%d;++i){int j=i+%d; r[i]=j%%2?b[j/2]:a[j/2];}' % (N, N)
    if abi == 'Sc': hi = 'r[0]=b[0];'
    mk(w, cfg, 'ilow_%s' % id_, AB(), D2 + 'stv(r,x.interleaveLow(y));', lo, what='%s::interleaveLow' % V)
    mk(w, cfg, 'ihigh_%s' % id_, AB(), D2 + 'stv(r,x.interleaveHigh(y));', hi, what='%s::interleaveHigh' % V)
    mk(w, cfg, 'interleave_%s' % id_, AB() + [OUT(t, N, 's')], D2 + 'auto p=Vc::interleave(x,y); stv(r,p.first); stv(s,p.second);', lo + hi.replace('r[', 's['), what='interleave(%s)' % V)
    if abi[0] == 'F': return
    if t in FLOATS and abi != 'Sc':
        for k in range(N):
            mk(w, cfg, 'bc%d_%s' % (k, id_), A_(), D + 'stv(r,x.template broadcast<%d>());' % k, 'for(int i=0;i<%d;++i) r[i]=a[%d];' % (N, k), what='%s::broadcast<%d>' % (V, k))
    if t == 'float' and abi != 'Sc':
        mk(w, cfg, 'permidx_%s' % id_, [IN(t, N, 'a'), IN('int', N, 'p', cls=0, lim=N.bit_length() - 1), OUT(t, N, 'r')],
           D + 'typename V::IndexType q; for(int i=0;i<%d;++i) q[i]=p[i]; stv(r,x[q]);' % N, 'for(int i=0;i<%d;++i){ __vc_assume(p[i]>=0&&p[i]<%d); float q=0; for(int k=0;k<%d;++k) if(p[i]==k) q=a[k]; r[i]=q; }' % (N, N, N), what='%s[index vector]' % V)
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in allabis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
