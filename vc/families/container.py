"""C27 Vc::array and Vc::span: every access path, symbolic contents, extents, offsets and counts."""
from core import *
HEADER = 'wit_cont.h'
CHUNK = 40
CF = ['sse2', 'avx2', 'sse2-17']
EL = {'int': 4, 'float': 4, 'double': 8, 'short': 2, 'Tri': 12, 'uchar': 1}
def P_(t, n, name, **kw): return ('const %s*%s' % (t, name), dict({'name': name, 'elem': 4 if t == 'Tri' else EL[t], 'size': EL[t] * n}, **kw))
def O_(t, n, name, **kw): return ('%s*%s' % (t, name), dict({'name': name, 'elem': 4 if t == 'Tri' else EL[t], 'size': EL[t] * n}, **kw))
def arrays(w, cfg, t, N):
    id_ = '%s_%d' % (t, N); td = 'typedef Vc::array<%s,%d> C; ' % (t, N)
    n1 = max(N, 1)
    obj = td + 'C &c=*(C*)a; '; cobj = td + 'const C &c=*(const C*)a; '
    a = P_(t, n1, 'a'); b = P_(t, n1, 'b'); r = O_(t, 16, 'r'); R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 24})
    am = O_(t, n1, 'a'); bm = O_(t, n1, 'b'); val = P_(t, 1, 'v')
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, 'ar_%s_%s' % (nm, id_), ps, i, s, what='Vc::array<%s,%d> %s' % (t, N, what), **k)
    W('addr', [a, R], obj + 'const C &d=c; put(r,0,c.data()); put(r,1,d.data()); put(r,2,c.begin()); put(r,3,d.begin()); put(r,4,c.end()); put(r,5,d.end()); put(r,6,c.cbegin()); put(r,7,c.cend()); '
      'put(r,8,&c.front()); put(r,9,&d.front()); put(r,10,&c.back()); put(r,11,&d.back()); put(r,12,c.rbegin().base()); put(r,13,d.rbegin().base()); put(r,14,c.rend().base()); put(r,15,d.rend().base()); '
      'put(r,16,c.crbegin().base()); put(r,17,c.crend().base()); using std::begin; using std::end; put(r,18,begin(c)); put(r,19,end(c)); put(r,20,begin(d)); put(r,21,end(d)); r[22]=d.size(); r[23]=d.max_size()+100*d.empty()+1000*sizeof(C);',
      'const %s *z=a+%d,*l=a+%d; const %s *q[]={a,a,a,a,z,z,a,z,a,a,l,l,z,z,a,a,z,a,a,z,a,z}; for(int i=0;i<22;++i) r[i]=(llong)q[i]; r[22]=%d; r[23]=%d+100*%d+1000*%d;' % (t, N, n1 - 1, t, N, N, N == 0, EL[t] * n1), 'bounds, first and last element')
    if N:
        idx = ('size_t k', {'name': 'k', 'cls': 0, 'lim': 4})
        W('ix', [a, idx, R], obj + 'const C &d=c; put(r,0,&c[k]); put(r,1,&d[k]); put(r,2,&c.at(k)); put(r,3,&d.at(k));', '__vc_assume(k<%d); for(int i=0;i<4;++i) r[i]=(llong)(a+k);' % N, 'subscript and at() inside the bounds')
        W('at', [a, ('size_t k', {'name': 'k'}), R], obj + 'put(r,0,&c.at(k));', 'if(k>=%d) throw 1; r[0]=(llong)(a+k);' % N, 'at() for every index')
        W('atc', [a, ('size_t k', {'name': 'k'}), R], cobj + 'put(r,0,&c.at(k));', 'if(k>=%d) throw 1; r[0]=(llong)(a+k);' % N, 'const at() for every index')
        W('get', [a, R], obj + 'const C &d=c; ' + ' '.join('put(r,%d,&std::get<%d>(c)); put(r,%d,&std::get<%d>(d));' % (2 * i, i, 2 * i + 1, i) for i in range(min(N, 12))), 'for(int i=0;i<%d;++i) r[i]=(llong)(a+i/2);' % (2 * min(N, 12)), 'std::get')
        W('iter', [a, r], obj + 'int k=0; for(auto &x: c) r[k++]=x;', 'for(int i=0;i<%d;++i) r[i]=a[i];' % N, 'range-for')
        W('riter', [a, r], cobj + 'int k=0; for(auto i=c.rbegin();i!=c.rend();++i) r[k++]=*i;', 'for(int i=0;i<%d;++i) r[i]=a[%d-i];' % (N, N - 1), 'reverse iteration')
        W('fill', [am, val], obj + 'c.fill(*v);', 'for(int i=0;i<%d;++i) a[i]=*v;' % N, 'fill')
        W('swap', [am, bm], obj + 'c.swap(*(C*)b);', 'for(int i=0;i<%d;++i) {auto x=a[i]; a[i]=b[i]; b[i]=x;}' % N, 'swap')
        W('sswap', [am, bm], obj + 'using std::swap; swap(c,*(C*)b);', 'for(int i=0;i<%d;++i) {auto x=a[i]; a[i]=b[i]; b[i]=x;}' % N, 'free swap')
        if t != 'Tri': W('agg', [a, r], td + 'C c={{%s}}; for(int i=0;i<%d;++i) r[i]=c.data()[i];' % (','.join('a[%d]' % i for i in range((N + 1) // 2)), N), 'for(int i=0;i<%d;++i) {%s x={}; r[i]=i<%d?a[i]:x;}' % (N, t, (N + 1) // 2), 'aggregate initialisation')
        if N <= 5:
            out = ('int*r', {'name': 'r', 'elem': 4, 'size': 24})
            W('cmp', [a, b, out], cobj + 'const C &d=*(const C*)b; r[0]=c==d; r[1]=c!=d; r[2]=c<d; r[3]=c>d; r[4]=c<=d; r[5]=c>=d;',
              'int n=%d; bool eq=true; for(int i=0;i<n;++i) if(!(a[i]==b[i])) {eq=false;break;} auto lt=[&](const %s*x,const %s*y){for(int i=0;i<n;++i){if(x[i]<y[i]) return true; if(y[i]<x[i]) return false;} return false;};'
              'r[0]=eq; r[1]=!eq; r[2]=lt(a,b); r[3]=lt(b,a); r[4]=!lt(b,a); r[5]=!lt(a,b);' % (N, t, t), 'comparison')
DYN = -1
def spans(w, cfg, t):
    S = 'Vc::span<%s>' % t; CS = 'Vc::span<const %s>' % t
    mem = lambda c='': ('%s%s*a' % (c, t), {'name': 'a', 'elem': 4 if t == 'Tri' else EL[t], 'neg': 1 << 40})
    n = ('pd n', {'name': 'n'}); R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 16})
    M = 'n>=0&&n<(1ll<<40)'
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, 'sp_%s_%s' % (nm, t), ps, i, s, what='Vc::span<%s> %s' % (t, what), **k)
    sz = EL[t]
    for q, SS in (('', S), ('c', CS)):
        for cn, init in (('pn', 's(a,n)'), ('pp', 's(a,a+n)'), ('copy', 'z(a,n),s(z)'), ('asg', 's,z(a,n); s=z')):
            if t == 'Tri' and cn == 'pp': continue  # element count by exact division of an address difference by 12
            pre = 'typedef %s SP; SP %s; ' % (SS, init)
            W('%s%s' % (cn, q), [mem(), n, R], pre + 'put(r,0,s.data()); r[1]=s.size(); r[2]=s.size_bytes(); r[3]=s.empty(); put(r,4,s.begin()); put(r,5,s.end()); put(r,6,s.cbegin()); put(r,7,s.cend()); '
              'put(r,8,s.rbegin().base()); put(r,9,s.rend().base()); put(r,10,s.crbegin().base()); put(r,11,s.crend().base()); using Vc::Common::begin; using Vc::Common::end; put(r,12,begin(s)); put(r,13,end(s));',
              '__vc_assume(%s); %s*z=a+n; %s*q[]={a,0,0,0,a,z,a,z,z,a,z,a,a,z}; for(int i=0;i<14;++i) r[i]=(llong)q[i]; r[1]=n; r[2]=n*%d; r[3]=n==0;' % (M, t, t, sz), 'construction %s%s and bounds' % (cn, ' (const)' if q else ''))
        pre = 'typedef %s SP; SP s(a,n); ' % SS
        k = ('pd k', {'name': 'k'})
        W('ix' + q, [mem(), n, k, R], pre + 'put(r,0,&s[k]); put(r,1,&s(k));', '__vc_assume(%s&&k>=0&&k<n); r[0]=r[1]=(llong)(a+k);' % M, 'subscript')
        W('first' + q, [mem(), n, k, R], pre + 'auto x=s.first(k); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(%s&&k>=0&&k<=n); r[0]=(llong)a; r[1]=k;' % M, 'first(k)')
        W('last' + q, [mem(), n, k, R], pre + 'auto x=s.last(k); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(%s&&k>=0&&k<=n); r[0]=(llong)(a+(n-k)); r[1]=k;' % M, 'last(k)')
        W('sub' + q, [mem(), n, k, ('pd m', {'name': 'm'}), R], pre + 'auto x=s.subspan(k,m); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(%s&&k>=0&&k<=n&&(m==-1||(m>=0&&m<=n-k))); r[0]=(llong)(a+k); r[1]=m==-1?n-k:m;' % M, 'subspan(k,m)')
        W('sub1' + q, [mem(), n, k, R], pre + 'auto x=s.subspan(k); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(%s&&k>=0&&k<=n); r[0]=(llong)(a+k); r[1]=n-k;' % M, 'subspan(k)')
        for C in (0, 1, 2, 3, 5, 8):
            W('tfirst%d%s' % (C, q), [mem(), n, R], pre + 'auto x=s.template first<%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % C, '__vc_assume(%s&&n>=%d); r[0]=(llong)a; r[1]=r[2]=%d;' % (M, C, C), 'first<%d>' % C)
            W('tlast%d%s' % (C, q), [mem(), n, R], pre + 'auto x=s.template last<%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % C, '__vc_assume(%s&&n>=%d); r[0]=(llong)(a+(n-%d)); r[1]=r[2]=%d;' % (M, C, C, C), 'last<%d>' % C)
            W('tsubr%d%s' % (C, q), [mem(), n, R], pre + 'auto x=s.template subspan<%d>(); put(r,0,x.data()); r[1]=x.size();' % C, '__vc_assume(%s&&n>=%d); r[0]=(llong)(a+%d); r[1]=n-%d;' % (M, C, C, C), 'subspan<%d>' % C)
            for D in (0, 1, 2, 4):
                W('tsub%d_%d%s' % (C, D, q), [mem(), n, R], pre + 'auto x=s.template subspan<%d,%d>(); put(r,0,x.data()); r[1]=x.size();' % (C, D), '__vc_assume(%s&&n>=%d); r[0]=(llong)(a+%d); r[1]=%d;' % (M, C + D, C, D), 'subspan<%d,%d>' % (C, D))
    W('swap', [mem(), n, ('%s*b' % t, {'name': 'b', 'elem': 4, 'neg': 1 << 40}), ('pd m', {'name': 'm'}), R], '%s s(a,n),z(b,m); s.swap(z); put(r,0,s.data()); r[1]=s.size(); put(r,2,z.data()); r[3]=z.size(); using Vc::Common::swap; Vc::Common::span<%s> p(a,n),q(b,m); swap(p,q); put(r,4,p.data()); r[5]=p.size(); put(r,6,q.data()); r[7]=q.size();' % (S, t),
      'r[0]=r[4]=(llong)b; r[1]=r[5]=m; r[2]=r[6]=(llong)a; r[3]=r[7]=n;', 'swap')
    W('def', [R], '%s s; put(r,0,s.data()); r[1]=s.size(); r[2]=s.empty();' % S, 'r[0]=0; r[1]=0; r[2]=1;', 'default construction')
    W('conv', [mem(), n, R], '%s s(a,n); %s c(s); put(r,0,c.data()); r[1]=c.size(); Vc::span<const %s,4> d(s); put(r,2,d.data()); r[3]=d.size(); Vc::span<%s,3> e(a,3); %s f(e); put(r,4,f.data()); r[5]=f.size(); %s g(e); put(r,6,g.data()); r[7]=g.size(); Vc::span<const %s,3> h(e); put(r,8,h.data()); r[9]=h.size();' % (S, CS, t, t, S, CS, t),
      '__vc_assume(%s); long long q[]={(llong)a,n,(llong)a,4,(llong)a,3,(llong)a,3,(llong)a,3}; for(int i=0;i<10;++i) r[i]=q[i];' % M, 'conversions between extents and to const')
    for N in (1, 2, 3, 7):
        W('arr%d' % N, [mem(), R], '%s(&x)[%d]=*(%s(*)[%d])a; const %s(&cx)[%d]=x; auto &y=*(std::array<%s,%d>*)a; const auto &cy=y; int k=0; auto p=[&](auto s){put(r,k,s.data()); r[k+1]=s.size(); k+=2;}; p(%s(x)); p(%s(y)); p(%s(cy)); p(%s(cx)); p(Vc::span<%s,%d>(x)); p(Vc::span<%s,%d>(y)); p(Vc::span<const %s,%d>(cy));' % (t, N, t, N, t, N, t, N, S, S, CS, CS, t, N, t, N, t, N),
          'for(int i=0;i<14;i+=2) {r[i]=(llong)a; r[i+1]=%d;}' % N, 'construction from arrays of %d' % N)
        W('cont%d' % N, [mem(), n, R], 'typedef std::vector<%s> V; void *ob[3]={a,a+n,a+n}; V &v=*(V*)ob; const V &cv=v; %s s(v); %s c(v); %s d(cv); put(r,0,s.data()); r[1]=s.size(); put(r,2,c.data()); r[3]=c.size(); put(r,4,d.data()); r[5]=d.size();' % (t, S, CS, CS),
          '__vc_assume(%s); for(int i=0;i<6;i+=2) {r[i]=(llong)a; r[i+1]=n;}' % M, 'construction from a container') if N == 1 and t != 'Tri' else None
def fixed(w, cfg, t, N):
    S = 'Vc::span<%s,%d>' % (t, N); sz = EL[t]
    mem = ('%s*a' % t, {'name': 'a', 'elem': 4 if t == 'Tri' else EL[t], 'neg': 1 << 40}); R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 16})
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, 'sf_%s_%s_%d' % (nm, t, N), ps, i, s, what='Vc::span<%s,%d> %s' % (t, N, what), **k)
    pre = 'typedef %s SP; SP s(a,%d); ' % (S, N)
    for cn, p2 in (('pn', pre), ('pp', 'typedef %s SP; SP s(a,a+%d); ' % (S, N)), ('copy', pre.replace('s(', 'z(') + 'SP s(z); ')):
        W(cn, [mem, R], p2 + 'put(r,0,s.data()); r[1]=s.size(); r[2]=s.size_bytes(); r[3]=s.empty(); put(r,4,s.begin()); put(r,5,s.end()); put(r,6,s.cbegin()); put(r,7,s.cend()); '
          'put(r,8,s.rbegin().base()); put(r,9,s.rend().base()); put(r,10,s.crbegin().base()); put(r,11,s.crend().base()); using Vc::Common::begin; using Vc::Common::end; put(r,12,begin(s)); put(r,13,end(s));',
          '%s*z=a+%d; %s*q[]={a,0,0,0,a,z,a,z,z,a,z,a,a,z}; for(int i=0;i<14;++i) r[i]=(llong)q[i]; r[1]=%d; r[2]=%d; r[3]=%d;' % (t, N, t, N, N * sz, N == 0), 'construction %s and bounds' % cn)
    k = ('pd k', {'name': 'k'})
    if N: W('ix', [mem, k, R], pre + 'put(r,0,&s[k]); put(r,1,&s(k));', '__vc_assume(k>=0&&k<%d); r[0]=r[1]=(llong)(a+k);' % N, 'subscript')
    W('first', [mem, k, R], pre + 'auto x=s.first(k); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(k>=0&&k<=%d); r[0]=(llong)a; r[1]=k;' % N, 'first(k)')
    W('last', [mem, k, R], pre + 'auto x=s.last(k); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(k>=0&&k<=%d); r[0]=(llong)(a+(%d-k)); r[1]=k;' % (N, N), 'last(k)')
    W('sub', [mem, k, ('pd m', {'name': 'm'}), R], pre + 'auto x=s.subspan(k,m); put(r,0,x.data()); r[1]=x.size();', '__vc_assume(k>=0&&k<=%d&&(m==-1||(m>=0&&m<=%d-k))); r[0]=(llong)(a+k); r[1]=m==-1?%d-k:m;' % (N, N, N), 'subspan(k,m)')
    W('swap', [mem, ('%s*b' % t, {'name': 'b', 'elem': 4, 'neg': 1 << 40}), R], pre + 'SP z(b,%d); s.swap(z); put(r,0,s.data()); put(r,1,z.data());' % N, 'r[0]=(llong)b; r[1]=(llong)a;', 'swap')
    for C in range(N + 1):
        W('tfirst%d' % C, [mem, R], pre + 'auto x=s.template first<%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % C, 'r[0]=(llong)a; r[1]=r[2]=%d;' % C, 'first<%d>' % C)
        W('tlast%d' % C, [mem, R], pre + 'auto x=s.template last<%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % C, 'r[0]=(llong)(a+%d); r[1]=r[2]=%d;' % (N - C, C), 'last<%d>' % C)
        W('tsubr%d' % C, [mem, R], pre + 'auto x=s.template subspan<%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % C, 'r[0]=(llong)(a+%d); r[1]=r[2]=%d;' % (C, N - C), 'subspan<%d>' % C)
        for D in range(N - C + 1):
            W('tsub%d_%d' % (C, D), [mem, R], pre + 'auto x=s.template subspan<%d,%d>(); put(r,0,x.data()); r[1]=x.size(); r[2]=decltype(x)::extent;' % (C, D), 'r[0]=(llong)(a+%d); r[1]=r[2]=%d;' % (C, D), 'subspan<%d,%d>' % (C, D))
def cmps(w, cfg, t):
    out = ('int*r', {'name': 'r', 'elem': 4, 'size': 24})
    for e1, e2 in ((-1, -1), (3, 3), (2, 3), (3, 2), (-1, 3)):
        n = ('unsigned n', {'name': 'n', 'cls': 0, 'lim': 2}); m = ('unsigned m', {'name': 'm', 'cls': 0, 'lim': 2})
        a = P_(t, 4, 'a'); b = P_(t, 4, 'b')
        A = lambda e, p, c: '%s(%s,%s)' % (p, p == 's' and 'a' or 'b', c if e < 0 else e)
        mk(w, cfg, 'sc_%s_%s_%s' % (t, str(e1).replace('-1', 'd'), str(e2).replace('-1', 'd')), [a, n, b, m, out], 'Vc::Common::span<const %s,%d> %s; Vc::Common::span<const %s,%d> %s; r[0]=s==z; r[1]=s!=z; r[2]=s<z; r[3]=s>z; r[4]=s<=z; r[5]=s>=z;' % (t, e1, A(e1, 's', 'n'), t, e2, A(e2, 'z', 'm')),
           'unsigned N=%s,M=%s; bool eq=N==M; if(eq) for(unsigned i=0;i<N;++i) if(!(a[i]==b[i])) {eq=false;break;} auto lt=[&](const %s*x,unsigned nx,const %s*y,unsigned ny){for(unsigned i=0;i<nx&&i<ny;++i){if(x[i]<y[i]) return true; if(y[i]<x[i]) return false;} return nx<ny;};'
           'r[0]=eq; r[1]=!eq; r[2]=lt(a,N,b,M); r[3]=lt(b,M,a,N); r[4]=!r[3]; r[5]=!r[2];' % ('n' if e1 < 0 else e1, 'm' if e2 < 0 else e2, t, t), what='span<%s> comparison, extents %d and %d' % (t, e1, e2))
def makes(w, cfg, abi, t):
    n = size(abi, t); V = 'Vc::Vector<%s,A::%s>' % (t, abi); st = {'uint': 'unsigned', 'ushort': 'unsigned short'}.get(t, t)
    for K in sorted({0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n}):
        q = (K + n - 1) // n; lst = ','.join('a[%d]' % i for i in range(K)); id_ = '%s_%s_%d' % (abi, t, K)
        a = ('const %s*a' % t, {'name': 'a', 'elem': TYPES[t], 'size': max(K, 1) * TYPES[t]}); m = (q + 1) * n; r = ('%s*r' % t, {'name': 'r', 'elem': TYPES[t], 'size': m * TYPES[t]}); c = ('llong*c', {'name': 'c', 'elem': 8, 'size': 8})
        spec = 'for(int i=0;i<%d;++i) r[i]=i<%d?a[i]:%s(0); ' % (q * n, K, t)
        mk(w, cfg, 'mk_bag_' + id_, [a, r, c], 'auto b=Vc::makeContainer<Bag<%s>,%s>({%s}); *c=b.size(); %s*p=r; for(auto &v: b) {v.store(p,Vc::Unaligned); p+=%d;}' % (V, t, lst, t, n),
           '*c=%d; ' % q + spec, what='makeContainer of %d values in a sequence of %s' % (K, V))
        if K: mk(w, cfg, 'mk_row_' + id_, [a, r], 'auto b=Vc::makeContainer<Row<%s,%d>,%s>({%s}); static_assert(std::is_same<decltype(b),Row<%s,%d>>::value,""); %s*p=r; for(auto &v: b) {v.store(p,Vc::Unaligned); p+=%d;}' % (V, K, t, lst, V, q, t, n), spec, what='makeContainer of %d values in an array of %s' % (K, V))
def witnesses(tier):
    w = []
    for cfg in ('scalar', 'sse2', 'avx2') + (('avx', 'clang-avx2') if tier == 'thorough' else ()):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): makes(w, cfg, abi, t)
    ts = ['int', 'double', 'Tri', 'short'] + (['float', 'uchar'] if tier == 'thorough' else [])
    for cfg in CF[:1] + (CF[1:] if tier == 'thorough' else CF[2:]):
        for t in ts:
            for N in (0, 1, 2, 3, 5, 8) + ((12,) if tier == 'thorough' else ()): arrays(w, cfg, t, N)
            spans(w, cfg, t)
            for N in (0, 1, 2, 3, 5, 8): fixed(w, cfg, t, N) if t == 'int' or N in (3, 5) else None
            if t in ('int', 'double', 'short'): cmps(w, cfg, t)
    return w
def statics(tier):
    r = []
    for cfg in CF:
        k = [0]
        def S(kind, e, what=''):
            k[0] += 1; r.append(Static('t%d' % k[0], e, cfg, what or e, kind))
        for t in ('int', 'float', 'Tri', 'double'):
            for N in (1, 2, 5):
                S('assert', 'std::tuple_size<Vc::array<%s,%d>>::value==%d' % (t, N, N)); S('assert', 'std::is_same<std::tuple_element<%d,Vc::array<%s,%d>>::type,%s>::value' % (N - 1, t, N, t))
                S('assert', 'sizeof(Vc::array<%s,%d>)==sizeof(std::array<%s,%d>)&&std::is_trivially_copyable<Vc::array<%s,%d>>::value&&std::is_standard_layout<Vc::array<%s,%d>>::value' % ((t, N) * 4))
                S('assert', 'Vc::array<%s,%d>().size()==%d' % (t, N, N) if t != 'Tri' else 'true')
                S('assert', 'Vc::span<%s,%d>::extent==%d' % (t, N, N)); S('assert', 'Vc::span<%s>::extent==-1' % t)
                S('assert', 'std::is_same<decltype(std::declval<Vc::span<%s,%d>>().first(1)),Vc::Common::span<%s,-1>>::value' % (t, N, t))
                S('assert', 'std::is_trivially_copyable<Vc::span<%s,%d>>::value' % (t, N))
                S('assert', 'std::is_same<decltype(*std::declval<const Vc::array<%s,%d>&>().begin()),const %s&>::value&&std::is_same<decltype(*std::declval<Vc::array<%s,%d>&>().begin()),%s&>::value' % (t, N, t, t, N, t))
                S('assert', 'std::is_same<decltype(std::declval<const Vc::array<%s,%d>&>()[0]),const %s&>::value&&std::is_same<decltype(std::declval<Vc::array<%s,%d>&>()[0]),%s&>::value' % (t, N, t, t, N, t))
                S('assert', 'std::is_same<decltype(std::declval<const Vc::span<%s,%d>&>()[0]),%s&>::value&&std::is_same<decltype(std::declval<const Vc::span<const %s>&>()[0]),const %s&>::value' % (t, N, t, t, t))
                S('assert', '!std::is_convertible<%s(&)[%d],Vc::Common::span<%s,%d>>::value' % (t, N + 1, t, N), 'no static span over an array of another length')
                S('assert', '!std::is_constructible<Vc::Common::span<%s,%d>,%s(&)[%d]>::value' % (t, N + 1, t, N)); S('assert', '!std::is_constructible<Vc::Common::span<%s,%d>,Vc::array<%s,%d>&>::value' % (t, N + 1, t, N))
                S('reject', 'void f(%s (&a)[%d]) { Vc::span<%s,%d> s(a); }' % (t, N + 1, t, N)); S('reject', 'void f(Vc::array<%s,%d> &a) { Vc::span<%s,%d> s(a); }' % (t, N + 1, t, N))
                S('assert', '!std::is_constructible<Vc::Common::span<%s,%d>,const %s(&)[%d]>::value' % (t, N, t, N), 'no mutable span over constant elements'); S('assert', '!std::is_constructible<Vc::Common::span<%s>,const %s(&)[%d]>::value' % (t, t, N))
                S('assert', '!std::is_constructible<Vc::Common::span<%s>,Vc::Common::span<const %s>>::value' % (t, t)); S('assert', '!std::is_constructible<Vc::Common::span<%s,%d>,Vc::Common::span<const %s,%d>>::value' % (t, N, t, N))
                S('assert', '!std::is_constructible<Vc::Common::span<%s,%d>,Vc::Common::span<%s,%d>>::value' % (t, N + 1, t, N), 'no static span from a static span of another extent')
                S('reject', 'void f(Vc::span<%s,%d> s) { (void)s.template first<%d>(); }' % (t, N, N + 1)); S('reject', 'void f(Vc::span<%s,%d> s) { (void)s.template last<%d>(); }' % (t, N, N + 2))
                S('reject', 'void f() { Vc::span<%s,%d> s; }' % (t, N)); S('reject', 'void f(Vc::array<%s,%d> &a) { (void)std::get<%d>(a); }' % (t, N, N))
        S('reject', 'void f() { Vc::Common::span<int,-2> s; }')
        S('assert', '!std::is_constructible<Vc::Common::span<int>,Vc::Common::span<short>>::value&&!std::is_constructible<Vc::Common::span<int>,Vc::Common::span<unsigned>>::value')
    return r
def settle(w, r):
    """a constant number of elements: a loop the analysis cannot leave within its bound (thousands of rounds) does not end with them"""
    if w.name.startswith('mk_') and r['status'] == 'unsupported' and 'loop iteration bound in impl_' in (r.get('msg') or ''):
        return dict(r, status='diff', diffs=[{'what': 'loop', 'impl': r['msg'], 'spec': 'ends with the last element', 'when': 'always', 'loc': ''}])
    return r
