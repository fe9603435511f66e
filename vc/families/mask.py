"""C03 mask algebra, queries, conversions and bool-array transfer."""
from core import *
from families.compare import CFGS, EXTRA
def one(cfg, abi, t, w):
    N = size(abi, t); M = 'Mx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t); nb = max(1, N.bit_length() - 1)
    td = 'typedef %s M; ' % M
    A_, B_, R_ = IN('bool', N, 'a'), IN('bool', N, 'b'), OUT('bool', N, 'r')
    F = 'for(int i=0;i<%d;++i)' % N
    def un(nm, impl, spec, **kw): mk(w, cfg, '%s_%s' % (nm, id_), [A_, R_], td + 'M x=ldm<M>(a); ' + impl, spec, what='%s on %s' % (nm, M), **kw)
    def bi(nm, impl, spec, **kw): mk(w, cfg, '%s_%s' % (nm, id_), [A_, B_, R_], td + 'M x=ldm<M>(a),y=ldm<M>(b); ' + impl, spec, what='%s on %s' % (nm, M), **kw)
    def q(nm, impl, spec, ret='bool', ps=(), **kw): mk(w, cfg, '%s_%s' % (nm, id_), [A_] + list(ps), td + 'M x=ldm<M>(a); ' + impl, spec, ret=ret, what='%s on %s' % (nm, M), **kw)
    for nm, op, so in (('and', '&', '&'), ('or', '|', '|'), ('xor', '^', '^'), ('land', '&&', '&'), ('lor', '||', '|')):
        bi(nm, 'stm(r,M(x%sy));' % op, F + ' r[i]=a[i]%sb[i];' % so)
    for nm, op in (('cand', '&'), ('cor', '|'), ('cxor', '^')):
        bi(nm, 'x%s=y; stm(r,x);' % op, F + ' r[i]=a[i]%sb[i];' % op)
    un('lnot', 'stm(r,M(!x));', F + ' r[i]=!a[i];')
    un('copy', 'M z; z=x; stm(r,z);', F + ' r[i]=a[i];')
    un('store', 'x.store(r);', F + ' r[i]=a[i];', opts=['reads'])
    un('storeU', 'x.store(r,Vc::Unaligned);', F + ' r[i]=a[i];')
    mk(w, cfg, 'storeA_' + id_, [A_, OUT('bool', N, 'r', align=N)], td + 'ldm<M>(a).store(r,Vc::Aligned);', F + ' r[i]=a[i];')
    mk(w, cfg, 'load_' + id_, [A_, R_], td + 'M x; x.load(a); stm(r,x);', F + ' r[i]=a[i];')
    mk(w, cfg, 'loadU_' + id_, [A_, R_], td + 'M x(a,Vc::Unaligned); stm(r,x);', F + ' r[i]=a[i];')
    mk(w, cfg, 'loadA_' + id_, [IN('bool', N, 'a', align=N), R_], td + 'M x(a,Vc::Aligned); stm(r,x);', F + ' r[i]=a[i];')
    q('full', 'return x.isFull();', 'bool z=true;' + F + ' z&=a[i]; return z;')
    q('empty', 'return x.isEmpty();', 'bool z=false;' + F + ' z|=a[i]; return !z;')
    q('notempty', 'return x.isNotEmpty();', 'bool z=false;' + F + ' z|=a[i]; return z;')
    q('mix', 'return x.isMix();', 'bool z=false,y=true;' + F + ' {z|=a[i];y&=a[i];} return z&&!y;')
    q('allof', 'return Vc::all_of(x);', 'bool z=true;' + F + ' z&=a[i]; return z;')
    q('anyof', 'return Vc::any_of(x);', 'bool z=false;' + F + ' z|=a[i]; return z;')
    q('noneof', 'return Vc::none_of(x);', 'bool z=false;' + F + ' z|=a[i]; return !z;')
    q('someof', 'return Vc::some_of(x);', 'bool z=false,y=true;' + F + ' {z|=a[i];y&=a[i];} return z&&!y;')
    q('count', 'return x.count();', 'int z=0;' + F + ' z+=a[i]; return z;', 'int')
    q('toint', 'return x.toInt();', 'int z=0;' + F + ' z|=int(a[i])<<i; return z;', 'int')
    q('first', 'return x.firstOne();', 'bool z=false;' + F + ' z|=a[i]; __vc_assume(z); for(int i=0;i<%d;++i) if(a[i]) return i; return 0;' % N, 'int')
    bi('eqmask', 'r[0]=x==y; r[1]=x!=y;' if N > 1 else 'r[0]=x==y;', 'bool z=true;' + F + ' z&=a[i]==b[i]; r[0]=z;' + (' r[1]=!z;' if N > 1 else ''))
    if N == 1: bi('nemask', 'r[0]=x!=y;', 'r[0]=a[0]!=b[0];')
    q('idx', 'return x[n];', '__vc_assume(n<%d); bool z=a[0]; for(int i=0;i<%d;++i) if(n==i) z=a[i]; return z;' % (N, N), ps=[CTL('n', nb)])
    for k in range(N): q('idxc%d' % k, 'const M z=x; return z[%d];' % k, 'return a[%d];' % k)
    mk(w, cfg, 'setidx_' + id_, [A_, R_, CTL('n', nb), SC('bool', 'v')], td + 'M x=ldm<M>(a); x[n]=v; stm(r,x);', '__vc_assume(n<%d); ' % N + F + ' r[i]=i==n?v:a[i];')
    mk(w, cfg, 'setidxop_' + id_, [A_, R_, CTL('n', nb)], td + 'M x=ldm<M>(a); x[n]=!x[n]; stm(r,x);', '__vc_assume(n<%d); ' % N + F + ' r[i]=a[i]^(i==n);')
    mk(w, cfg, 'bc_' + id_, [SC('bool', 'v'), R_], td + 'M x(v); stm(r,x);', F + ' r[i]=v;')
    mk(w, cfg, 'bcz_' + id_, [R_], td + 'M x(Vc::Zero); stm(r,x);', F + ' r[i]=false;')
    mk(w, cfg, 'bco_' + id_, [R_], td + 'M x(Vc::One); stm(r,x);', F + ' r[i]=true;')
    mk(w, cfg, 'Z_' + id_, [R_], td + 'stm(r,M::Zero());', F + ' r[i]=false;')
    mk(w, cfg, 'O_' + id_, [R_], td + 'stm(r,M::One());', F + ' r[i]=true;')
    mk(w, cfg, 'gen_' + id_, [A_, R_], td + 'M x=M::generate([&](int i){return a[i];}); stm(r,x);', F + ' r[i]=a[i];')
    if N > 1:
        mk(w, cfg, 'shifted_' + id_, [A_, R_, CTL('u', nb + 2)], td + 'M x=ldm<M>(a); stm(r,M(x.shifted(int(u)-%d)));' % N,
           '__vc_assume(u<=%d); int s=int(u)-%d; ' % (2 * N, N) + F + ' {bool z=false; for(int j=0;j<%d;++j) if(j==i+s) z=a[j]; r[i]=z;}' % N)
    for t2 in abi_types(cfg, abi):
        if size(abi, t2) == N and t2 != t:
            M2 = 'Mx<%s,A::%s>' % (t2, abi)
            mk(w, cfg, 'conv_%s_%s' % (t2, id_), [A_, R_], td + 'M x=ldm<M>(a); %s y(x); stm(r,y);' % M2, F + ' r[i]=a[i];', what='%s from %s' % (M2, M))
            mk(w, cfg, 'convand_%s_%s' % (t2, id_), [A_, B_, R_], td + 'M x=ldm<M>(a); %s y=ldm<%s>(b); x&=M(y); stm(r,x);' % (M2, M2), F + ' r[i]=a[i]&b[i];', what='%s from %s' % (M2, M))
            if {t, t2} in ({'int', 'uint'}, {'short', 'ushort'}): mk(w, cfg, 'conveq_%s_%s' % (t2, id_), [A_, R_], td + 'M x=ldm<M>(a); %s y=%s(Vc::Zero); y=x; x=y; stm(r,x);' % (M2, M2), F + ' r[i]=a[i];', what='%s from %s' % (M2, M))
def witnesses(tier):
    w = []
    for cfg in CFGS + ['avx2p'] + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
