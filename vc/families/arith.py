"""C01 element-wise arithmetic, bitwise, shift, unary and compound operators of the vector types."""
from core import *
def one(cfg, abi, t, w):
    N = size(abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi)
    id_ = '%s_%s' % (abi, t)
    A_ = ptr(t, N, 'a'); B_ = ptr(t, N, 'b'); R_ = ptr(t, N, 'r')
    def bin_(nm, impl, spec, pre=''):
        w.append(Wit('%s_%s' % (nm, id_), 'const %s*a,const %s*b,%s*r' % (t, t, t),
            'typedef %s V; V x=ldv<V>(a),y=ldv<V>(b); %s' % (V, impl), 'typedef %s T; for(int i=0;i<%d;++i){%s %s}' % (t, N, pre, spec), [A_, B_, R_], cfg,
            what='%s on %s' % (nm, V)))
    def un_(nm, impl, spec):
        w.append(Wit('%s_%s' % (nm, id_), 'const %s*a,%s*r' % (t, t), 'typedef %s V; V x=ldv<V>(a); %s' % (V, impl), 'typedef %s T; for(int i=0;i<%d;++i){%s}' % (t, N, spec), [A_, R_], cfg, what='%s on %s' % (nm, V)))
    def sc_(nm, impl, spec, pre=''):
        w.append(Wit('%s_%s' % (nm, id_), 'const %s*a,%s s,%s*r' % (t, t, t), 'typedef %s V; V x=ldv<V>(a); %s' % (V, impl), 'typedef %s T; %s for(int i=0;i<%d;++i){%s}' % (t, pre, N, spec), [A_, {'name': 's'}, R_], cfg, what='%s on %s' % (nm, V)))
    def sh_(nm, impl, spec):
        w.append(Wit('%s_%s' % (nm, id_), 'const %s*a,int n,%s*r' % (t, t), 'typedef %s V; V x=ldv<V>(a); %s' % (V, impl), 'typedef %s T; __vc_assume(n>=0&&n<%d); for(int i=0;i<%d;++i){%s}' % (t, BITS[t], N, spec), [A_, {'name': 'n', 'cls': 0, 'lim': BITS[t].bit_length()-1}, R_], cfg, what='%s on %s' % (nm, V)))
    flt = t in FLOATS
    divpre = '' if flt else '__vc_assume(b[i]!=0);' + ('' if t in ('uint', 'ushort') else '__vc_assume(!(b[i]==-1&&a[i]==std::numeric_limits<T>::min()));')
    divpre_s = '' if flt else '__vc_assume(s!=0);' + ('' if t in ('uint', 'ushort') else '__vc_assume(s!=-1);')
    fixed = abi[0] == 'F'   # SimdArray has no increment and no shift by vector
    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        p = divpre if op == '/' else ''
        bin_(nm, 'stv(r,V(x%sy));' % op, 'r[i]=T(a[i]%sb[i]);' % op, p)
        bin_('c' + nm, 'x%s=y; stv(r,x);' % op, 'r[i]=T(a[i]%sb[i]);' % op, p)
        sc_(nm + 's', 'stv(r,V(x%sV(s)));' % op, 'r[i]=T(a[i]%ss);' % op, divpre_s if op == '/' else '')
        sc_('s' + nm, 'stv(r,V(s%sx));' % op, 'r[i]=T(s%sa[i]);' % op, ('for(int i=0;i<%d;++i){__vc_assume(a[i]!=0);' % N + ('' if t in ('uint', 'ushort') else '__vc_assume(a[i]!=-1);') + '}') if op == '/' and not flt else '')
    un_('neg', 'stv(r,V(-x));', 'r[i]=T(-a[i]);')
    un_('pos', 'stv(r,V(+x));', 'r[i]=a[i];')
    if not fixed: un_('preinc', 'V y=++x; stv(r,V(y-x+x));' if False else '++x; stv(r,x);', 'r[i]=T(a[i]+1);')
    if not fixed: un_('predec', '--x; stv(r,x);', 'r[i]=T(a[i]-1);')
    if not fixed: w.append(Wit('postinc_%s' % id_, 'const %s*a,%s*r,%s*q' % (t, t, t), 'typedef %s V; V x=ldv<V>(a); V y=x++; stv(r,y); stv(q,x);' % V, 'typedef %s T; for(int i=0;i<%d;++i){r[i]=a[i];q[i]=T(a[i]+1);}' % (t, N), [A_, R_, ptr(t, N, 'q')], cfg))
    if not fixed: w.append(Wit('postdec_%s' % id_, 'const %s*a,%s*r,%s*q' % (t, t, t), 'typedef %s V; V x=ldv<V>(a); V y=x--; stv(r,y); stv(q,x);' % V, 'typedef %s T; for(int i=0;i<%d;++i){r[i]=a[i];q[i]=T(a[i]-1);}' % (t, N), [A_, R_, ptr(t, N, 'q')], cfg))
    if not fixed: w.append(Wit('preincret_%s' % id_, 'const %s*a,%s*r' % (t, t), 'typedef %s V; V x=ldv<V>(a); stv(r,V(++x));' % V, 'typedef %s T; for(int i=0;i<%d;++i){r[i]=T(a[i]+1);}' % (t, N), [A_, R_], cfg))
    w.append(Wit('bcast_%s' % id_, '%s s,%s*r' % (t, t), 'typedef %s V; V x(s); stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=s;' % N, [{'name': 's'}, R_], cfg))
    w.append(Wit('bcasteq_%s' % id_, '%s s,%s*r' % (t, t), 'typedef %s V; V x; x=s; stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=s;' % N, [{'name': 's'}, R_], cfg))
    w.append(Wit('zero_%s' % id_, '%s*r' % t, 'typedef %s V; V x(Vc::Zero); stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=0;' % N, [R_], cfg))
    w.append(Wit('one_%s' % id_, '%s*r' % t, 'typedef %s V; V x(Vc::One); stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=1;' % N, [R_], cfg))
    w.append(Wit('zeroF_%s' % id_, '%s*r' % t, 'typedef %s V; stv(r,V::Zero());' % V, 'for(int i=0;i<%d;++i) r[i]=0;' % N, [R_], cfg))
    w.append(Wit('oneF_%s' % id_, '%s*r' % t, 'typedef %s V; stv(r,V::One());' % V, 'for(int i=0;i<%d;++i) r[i]=1;' % N, [R_], cfg))
    w.append(Wit('iota_%s' % id_, '%s*r' % t, 'typedef %s V; V x(Vc::IndexesFromZero); stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=i;' % N, [R_], cfg))
    w.append(Wit('iotaF_%s' % id_, '%s*r' % t, 'typedef %s V; stv(r,V::IndexesFromZero());' % V, 'for(int i=0;i<%d;++i) r[i]=i;' % N, [R_], cfg))
    w.append(Wit('setZero_%s' % id_, 'const %s*a,%s*r' % (t, t), 'typedef %s V; V x=ldv<V>(a); x.setZero(); stv(r,x);' % V, 'for(int i=0;i<%d;++i) r[i]=0;' % N, [A_, R_], cfg))
    w.append(Wit('lanerd_%s' % id_, 'const %s*a,%s*r' % (t, t), 'typedef %s V; const V x=ldv<V>(a); for(int i=0;i<%d;++i) r[i]=x[i];' % (V, N), 'for(int i=0;i<%d;++i) r[i]=a[i];' % N, [A_, R_], cfg))
    w.append(Wit('lanerdv_%s' % id_, 'const %s*a,int n' % t, 'typedef %s V; const V x=ldv<V>(a); return x[n];' % V, '__vc_assume(n>=0&&n<%d); %s q=a[0]; for(int i=0;i<%d;++i) if(n==i) q=a[i]; return q;' % (N, t, N), [A_, {'name': 'n', 'cls': 0, 'lim': max(1,N.bit_length()-1)}], cfg, ret=t))
    w.append(Wit('lanewr_%s' % id_, 'const %s*a,const %s*b,%s*r,int n' % (t, t, t), 'typedef %s V; V x=ldv<V>(a); x[n]=b[n]; stv(r,x);' % V, '__vc_assume(n>=0&&n<%d); for(int i=0;i<%d;++i) r[i]=i==n?b[i]:a[i];' % (N, N), [A_, B_, R_, {'name': 'n', 'cls': 0, 'lim': max(1,N.bit_length()-1)}], cfg))
    if not flt:
        for nm, op in (('and', '&'), ('or', '|'), ('xor', '^')):
            bin_(nm, 'stv(r,V(x%sy));' % op, 'r[i]=T(a[i]%sb[i]);' % op)
            bin_('c' + nm, 'x%s=y; stv(r,x);' % op, 'r[i]=T(a[i]%sb[i]);' % op)
        bin_('mod', 'stv(r,V(x%y));', 'r[i]=T(a[i]%b[i]);', divpre)
        bin_('cmod', 'x%=y; stv(r,x);', 'r[i]=T(a[i]%b[i]);', divpre)
        un_('not', 'stv(r,V(~x));', 'r[i]=T(~a[i]);')
        sh_('shl', 'stv(r,V(x<<n));', 'r[i]=T(a[i]<<n);')
        sh_('shr', 'stv(r,V(x>>n));', 'r[i]=T(a[i]>>n);')
        sh_('cshl', 'x<<=n; stv(r,x);', 'r[i]=T(a[i]<<n);')
        sh_('cshr', 'x>>=n; stv(r,x);', 'r[i]=T(a[i]>>n);')
        rng = '__vc_assume(b[i]>=0&&b[i]<%d);' % BITS[t]
        if not fixed: bin_('vshl', 'stv(r,V(x<<y));', 'r[i]=T(a[i]<<b[i]);', rng)
        if not fixed: bin_('vshr', 'stv(r,V(x>>y));', 'r[i]=T(a[i]>>b[i]);', rng)
        if not fixed: bin_('cvshl', 'x<<=y; stv(r,x);', 'r[i]=T(a[i]<<b[i]);', rng)
        if not fixed: bin_('cvshr', 'x>>=y; stv(r,x);', 'r[i]=T(a[i]>>b[i]);', rng)
        for k in (1, 3, BITS[t] - 1):
            un_('shlc%d' % k, 'stv(r,V(x<<%d));' % k, 'r[i]=T(a[i]<<%d);' % k)
            un_('shrc%d' % k, 'stv(r,V(x>>%d));' % k, 'r[i]=T(a[i]>>%d);' % k)
CFGS = ['scalar', 'sse2', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2']
def witnesses(tier):
    w = []
    for cfg in CFGS + (['sse3', 'clang-sse2', 'clang-avx2'] if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
