"""C22 iteration helpers: call, apply, fill, generate, lane and mask iteration, simd_for_each(_n)."""
from core import *
from families.compare import CFGS, EXTRA
import families.simdshape as shp
HEADER = 'wit_iter.h'
CHUNK = 30
def one(cfg, abi, t, w, tier):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    SA = abi[0] == 'F'
    if SA: V = 'Vc::SimdArray<%s,%d>' % (t, N)
    td = 'typedef %s V; typedef V::mask_type M; typedef %s T; ' % (V, t)
    F = 'for(int i=0;i<%d;++i) ' % N
    m = IN('bool', N, 'm'); a = IN(t, N, 'a'); r = OUT(t, N, 'r')
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, nm + '_' + id_, ps, td + i, td + s, what='%s of %s' % (what, V), **k)
    if not SA:
        W('call', [a], 'const V v=ldv<V>(a); v.call([](T x){CB(x);});', F + 'CB(a[i]);', 'call(f): every lane once, ascending')
        W('callm', [a, m], 'const V v=ldv<V>(a); v.call([](T x){CB(x);},ldm<M>(m));', F + 'if(m[i]) CB(a[i]);', 'call(f, mask): the set lanes once, ascending')
        W('fillf', [r], 'V v; v.fill(cg_%s); stv(r,v);' % t, F + 'CG(i,r[i]);', 'fill(f(i)): lane i gets f(i)')
        W('filln', [r], 'cnt=0; V v; v.fill(nxt<T>); stv(r,v); cnt=0;', F + 'CG(i,r[i]); cnt=0;', 'fill(f()): lane i gets the i-th result')
        W('cws', [a], 'V v=ldv<V>(a); v.callWithValuesSorted([](T x){CB(x);});', 'T u=a[0]; CB(u); ' + 'for(int i=1;i<%d;++i) if(a[i]!=u) {u=a[i]; CB(u);}' % N, 'callWithValuesSorted: each new value once, ascending', opts=['fcmp_exact'] if 0 else [])
    W('apply', [a, r], 'const V v=ldv<V>(a); stv(r,V(v.apply([](T x){return CF(x);})));', F + 'r[i]=CF(a[i]);', 'apply(f): lane i is f(lane i), called ascending')
    W('applym', [a, m, r], 'const V v=ldv<V>(a); stv(r,V(v.apply([](T x){return CF(x);},ldm<M>(m))));', F + '{r[i]=a[i]; if(m[i]) r[i]=CF(a[i]);}', 'apply(f, mask): the set lanes only')
    W('gen', [r], 'stv(r,V(V::generate([](int i){T x; CG(i,x); return x;})));', F + 'CG(i,r[i]);', 'generate(f): lane i is f(i), called ascending')
    W('genc', [r], 'stv(r,V([](int i){T x; CG(i,x); return x;}));', F + 'CG(i,r[i]);', 'generator constructor')
    W('genm', [OUT('bool', N, 'r')], 'stm(r,M(M::generate([](int i){return cb_g_bool(i);})));', F + 'r[i]=cb_g_bool(i);', 'mask generate(f)', opts=['unordered']) if SA or abi != 'Sc' else None
    # lanes
    W('itr', [a], 'const V v=ldv<V>(a); for(T x:v) CB(x);', F + 'CB(a[i]);', 'for (x : const v)')
    W('itw', [a, r], 'V v=ldv<V>(a); for(auto i=Vc::begin(v);i!=Vc::end(v);++i) *i=CF(*i); stv(r,v);', F + 'r[i]=CF(a[i]);', 'iterator loop modifies lane after lane')
    W('itb', [a, r], 'V v=ldv<V>(a); auto e=Vc::end(v); auto b=Vc::begin(v); int i=0; while(e!=b) {--e; r[i++]=*e;} stv(r,v*T());' if 0 else 'const V v=ldv<V>(a); auto e=Vc::cend(v); auto b=Vc::cbegin(v); int i=0; while(e!=b) {--e; r[i++]=*e;}', F + 'r[i]=a[%d-i];' % (N - 1), 'backward iteration')
    W('itx', [a, CTL('d', 5), ('llong*q', {'name': 'q', 'elem': 8, 'size': 32}), OUT(t, 2, 'r')], 'const V v=ldv<V>(a); auto b=Vc::begin(v); auto c=b; c+=d; r[0]=b[d]; r[1]=*(b+d); q[0]=c-b; q[1]=(c!=b)|(c==b)<<1|(b<c)<<2|(b<=c)<<3|(b>c)<<4|(b>=c)<<5; auto g=c; g-=d; q[2]=g==b; auto h=b; if(d<%d) {for(unsigned i=0;i<d;++i) h++;} else h=c; q[3]=(h==c)+2*((c-d)==b)+4*((int(d)+b)==c)+8*((Vc::end(v)-b)==%d);' % (N, N),
      '__vc_assume(d<%d); r[0]=r[1]=a[d]; q[0]=d; q[1]=(d!=0)|(d==0)<<1|(d!=0)<<2|8; if(!d) q[1]=2|8|32; q[2]=1; q[3]=15;' % N, 'iterator arithmetic and comparison')
    W('itwx', [a, CTL('d', 5), SC(t, 'x'), r], 'V v=ldv<V>(a); auto b=Vc::begin(v); b[d]=x; *(b+d)=CF(*(b+d)); stv(r,v);', '__vc_assume(d<%d); ' % N + F + 'r[i]=a[i]; r[d]=CF(x);', 'writing through an iterator')
    # masks
    W('mit', [m], 'const M k=ldm<M>(m); for(bool x:k) cb_c_bool(x);', F + 'cb_c_bool(m[i]);', 'for (x : const mask)')
    W('mitw', [m, OUT('bool', N, 'r')], 'M k=ldm<M>(m); int i=0; for(auto x=Vc::begin(k);x!=Vc::end(k);x++,i++) {*x=!*x; if(i%3==1) *x=cb_g_bool(i);} stm(r,k);', F + '{r[i]=!m[i]; if(i%3==1) r[i]=cb_g_bool(i);}', 'iterator loop over a mask modifies lane after lane')
    W('wit', [m], 'const M k=ldm<M>(m); for(size_t i:where(k)) cb_idx(i);', F + 'if(m[i]) cb_idx(i);', 'for (i : where(mask)): the set lanes once, ascending')
    W('witr', [m, a, r], 'const M k=ldm<M>(m); const V v=ldv<V>(a); V u(T(0)); for(size_t i:where(k)) u[i]=v[i]; stv(r,u);', F + 'r[i]=m[i]?a[i]:T(0);', 'lane access in a loop over where(mask)')
def algo(cfg, t, w, tier):
    # native vector of the configuration
    abi = abis(cfg)[0]
    if t not in abi_types(cfg, abi): abi = 'Sse'
    N = size(abi, t); hi = (2 if tier == 'quick' else 4) * N + 3
    bits = max(3, hi.bit_length())
    td = 'typedef %s T; ' % t
    n = CTL('n', bits)
    for first, ty in (('p', 'T*'), ('VI(p)', 'typename std::vector<T>::iterator'), ('AI(p)', '')):
        tag = {'p': 'p', 'VI(p)': 'v', 'AI(p)': 'a'}[first]
        if tag == 'a': continue
        pre = td + ('typedef T*I; ' if tag == 'p' else 'typedef std::vector<T>::iterator I; ') + 'I b(p); '
        p = ('%s*p' % t, {'name': 'p', 'elem': TYPES[t], 'neg': 1 << 20, 'size': 1 << 20} if 0 else {'name': 'p', 'elem': TYPES[t], 'size': (hi + 1) * TYPES[t]})
        W = lambda nm, ps, i, s, what, **k: mk(w, cfg, '%s_%s_%s' % (nm, tag, t), ps, pre + i, td + '__vc_assume(n<=%d); ' % hi + s, what='%s over %s' % (what, t), opts=['reads'], **k)
        F = 'for(unsigned i=0;i<n;++i) '
        W('fe', [p, n], 'Vc::simd_for_each(b,b+n,Seen());', F + 'CB(p[i]);', 'simd_for_each by value')
        W('fec', [p, n], 'Vc::simd_for_each(b,b+n,Seen1());', F + 'CB(p[i]);', 'simd_for_each by const reference')
        W('few', [p, n], 'Vc::simd_for_each(b,b+n,Chg());', F + 'p[i]=CF(p[i]);', 'simd_for_each by reference')
        W('fn', [p, n], 'Vc::simd_for_each_n(b,n,Seen());', F + 'CB(p[i]);', 'simd_for_each_n by value')
        W('fnw', [p, n], 'Vc::simd_for_each_n(b,n,Chg());', F + 'p[i]=CF(p[i]);', 'simd_for_each_n by reference')
        if tag == 'p':
            W('fel', [p, n], 'Vc::simd_for_each(b,b+n,[](auto v){for(int k=0;k<int(v.size());++k) CB((T)v[k]);});', F + 'CB(p[i]);', 'simd_for_each with a generic lambda')
            W('few2', [p, n], 'Vc::simd_for_each(b,b+n,[](auto &v){for(int k=0;k<int(v.size());++k) v[k]=CF((T)v[k]);});', F + 'p[i]=CF(p[i]);', 'simd_for_each with a modifying generic lambda')
            R = ('llong*q', {'name': 'q', 'elem': 8, 'size': 8})
            W('fer', [p, n, R], 'q[0]=Vc::simd_for_each(b,b+n,Count{0}).n*0+n;', F + 'CB(p[i]); q[0]=n;', 'simd_for_each with a stateful functor')
            W('fef', [('const %s*p' % t, p[1]), n], 'Vc::simd_for_each((const T*)p,(const T*)p+n,Seen());' , F + 'CB(p[i]);', 'simd_for_each over constants') if 0 else None
    # counts of 2^31 and more: the first elements are visited as those of a short range
    M = 2 * N
    for hn, hv in (('p31', (1 << 31) + 5), ('p32', (1 << 32) + 1), ('p33', 1 << 33), ('m16', (1 << 16) - 1), ('m15', (1 << 15) + 2)):
        p = ('%s*p' % t, {'name': 'p', 'elem': TYPES[t], 'size': (M + N) * TYPES[t]})
        for nm, call in (('fn', 'simd_for_each_n(p,%dull,%s<%d>{&c});'), ('fe', 'simd_for_each(p,p+%dull,%s<%d>{&c});')):
            for sn, S in (('', 'Stop'), ('w', 'StopW')):
                mk(w, cfg, '%s%s_%s_%s' % (nm, sn, hn, t), [p], td + 'int c=0; Vc::' + call % (hv, S, M), td + ('for(int i=0;i<%d;++i) CB(p[i]); throw 1;' % M if not sn else 'T u[%d]; for(int i=0;i<%d;++i) u[i]=CF(p[i]); for(int i=0;i<%d;++i) p[i]=u[i]; throw 1;' % (M, M, M - N)), what='%s over %d elements, leaving after %d' % (call.split('(')[0], hv, M), opts=['reads'])
    if t in ('float', 'double', 'int', 'short'):
        S = 'PT<%s>' % t
        p = ('%s*p' % S, {'name': 'p', 'elem': TYPES[t], 'size': (hi + 1) * 2 * TYPES[t]})
        W = lambda nm, ps, i, s, what, **k: mk(w, cfg, '%s_%s' % (nm, t), ps, td + i, td + '__vc_assume(n<=%d); ' % hi + s, what='%s over %s' % (what, S), opts=['reads'], **k)
        F = 'for(unsigned i=0;i<n;++i) '
        W('fes', [p, n], 'Vc::simd_for_each(p,p+n,See2());', F + '{CB(p[i].x); CB(p[i].y);}', 'simd_for_each by value')
        W('fesw', [p, n], 'Vc::simd_for_each(p,p+n,Chg2());', F + '{T x=p[i].x; p[i].x=CF(p[i].y); p[i].y=x;}', 'simd_for_each by reference')
        W('fns', [p, n], 'Vc::simd_for_each_n(p,n,Chg2());', F + '{T x=p[i].x; p[i].x=CF(p[i].y); p[i].y=x;}', 'simd_for_each_n by reference')
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w, tier)
        for t in TYPES: algo(cfg, t, w, tier)
    for cfg, abi, t in shp.shapes(tier): one(cfg, abi, t, w, tier)
    return w
