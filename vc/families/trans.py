"""C13 transcendental functions: lane i of f(v) is lane 0 of f applied to the broadcast of lane i."""
import re
from core import *
from families.compare import CFGS, EXTRA
LIBS = ('const.cpp', 'trigonometric.cpp')
HEADER = 'wit_math.h'
UNARY = ('asin', 'atan', 'exp', 'log', 'log2', 'log10', 'rsqrt', 'reciprocal', 'sqrt')

SFX = {'float': 'f', 'double': ''}
P4 = {'float': '0x1.921fb6p-1f', 'double': '0x1.921FB54442D18p-1'}
def quotient(cfg, t, i):
    """|a[i]| in units of pi/2, rounded to an integer; spelled the way the instruction set rounds, which is the same number"""
    q = '__builtin_fabs(%sa[%s])/(2*0x1.921FB54442D18p-1)' % ('(double)' if t == 'float' else '', i)
    if re.match(r'(clang-)?(sse2|sse3|ssse3)\b', cfg): return 'round_sse2(%s)' % q
    return '__builtin_rint(%s)' % q
def classes(cfg, f, t):
    """the ranges in which sin and cos use one range reduction: every lane of the vector is in the class"""
    a = '__builtin_fabs%s(a[i])' % SFX[t]; y = quotient(cfg, t, 'i')
    # every threshold is decided, so that the conditions of all other ranges are refuted
    if t == 'double': th = [('small', '%s<%s' % (a, P4[t]), '')] + [('mid', '%s<1025*%s' % (a, P4[t]), ''), ('big', '%s<=0x1p30' % y, ''), ('huge', '', '')]
    else:
        T = {'sin': 527449, 'cos': 393382}[f]; d = '__builtin_fabs((double)a[i])'
        top = 'a[i]==a[i]&&%s==%s&&%s==%s&&' % (d, d, y, y) + '!(%s<%s)&&!(%s<1025*%s)&&' % (d, P4['double'], d, P4['double'])   # implied: the argument is above 393382
        low = '%s<393382&&%s<527449&&' % (a, a)
        nl = '!(%s<%s)&&!(%s<33*%s)&&' % (a, P4[t], a, P4[t])
        return {'small': low + '%s<33*%s&&%s<%s' % (a, P4[t], a, P4[t]), 'mid': low + '!(%s<%s)&&%s<33*%s' % (a, P4[t], a, P4[t]), 'big': low + nl + 'true',
                'vbig': nl + '!(%s<393382)&&!(%s<527449)&&' % (a, a) + top + '%s<=0x1p30' % y, 'huge': nl + '!(%s<393382)&&!(%s<527449)&&' % (a, a) + top + '!(%s<=0x1p30)&&a[i]==a[i]' % y}
    r = {}; neg = ''
    for c, e, _ in th:
        r[c] = 'a[i]==a[i]&&%s==%s&&' % (y, y) + neg + (e or 'true'); neg += '!(%s)&&' % e
    # a smaller range implies the conditions of the larger ones
    r['small'] += '&&%s<1025*%s&&%s<=0x1p30' % (a, P4[t], y); r['mid'] += '&&%s<=0x1p30' % y
    return r
def below(cfg, f, t, c):
    """lane j is in class c or in one of smaller arguments"""
    a = '__builtin_fabs%s(a[j])' % SFX[t]; y = quotient(cfg, t, 'j')
    nn = 'a[j]==a[j]&&%s==%s' % (y, y)
    if t == 'double':
        return nn + {'small': '&&%s<%s&&%s<1025*%s&&%s<=0x1p30' % (a, P4[t], a, P4[t], y), 'mid': '&&%s<1025*%s&&%s<=0x1p30' % (a, P4[t], y), 'big': '&&%s<=0x1p30' % y, 'huge': ''}[c]
    low = '&&%s<393382&&%s<527449' % (a, a)
    return nn + {'small': low + '&&%s<%s&&%s<33*%s' % (a, P4[t], a, P4[t]), 'mid': low + '&&%s<33*%s' % (a, P4[t]), 'big': low, 'vbig': '&&%s<=0x1p30' % y, 'huge': ''}[c]
def one(cfg, abi, t, w, tier):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    for f in UNARY:
        mk(w, cfg, '%s_%s' % (f, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::%s(x)));' % (V, f),
           'typedef %s V; for(int i=0;i<%d;++i){ V x(a[i]); V y=Vc::%s(x); %s q[%d]; stv(q,y); r[i]=q[0]; }' % (V, N, f, t, N), what='%s(%s) lane by lane' % (f, V))
    mk(w, cfg, 'atan2_%s' % id_, [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a),y=ldv<V>(b); stv(r,V(Vc::atan2(x,y)));' % V,
       'typedef %s V; for(int i=0;i<%d;++i){ V x(a[i]),y(b[i]); V z=Vc::atan2(x,y); %s q[%d]; stv(q,z); r[i]=q[0]; }' % (V, N, t, N), what='atan2(%s) lane by lane' % V)
    for f in ('sin', 'cos'):
        for c, e in classes(cfg, f, t).items():
            asm = 'for(int i=0;i<%d;++i) __vc_assume(%s);' % (N, e)
            mk(w, cfg, '%s_%s_%s' % (f, c, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::%s(x)));' % (V, f),
               asm + 'typedef %s V; for(int i=0;i<%d;++i){ V x(a[i]); V y=Vc::%s(x); %s q[%d]; stv(q,y); r[i]=q[0]; }' % (V, N, f, t, N), what='%s(%s) lane by lane (%s)' % (f, V, c))
            mk(w, cfg, '%ssc_%s_%s' % (f, c, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a),y,z; Vc::sincos(x,&y,&z); stv(r,%s);' % (V, 'y' if f == 'sin' else 'z'),
               asm + 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::%s(x)));' % (V, f), what='sincos(%s) agrees with %s (%s)' % (V, f, c))
        # lanes of different classes: the largest argument decides which reduction is exact enough, its lane is as if alone
        for c, e in classes(cfg, f, t).items():
            if c == 'small': continue
            for k in range(N):
                asm = 'for(int i=%d;i<%d;++i) __vc_assume(%s); for(int j=0;j<%d;++j) if(j!=%d) __vc_assume(%s);' % (k, k+1, e, N, k, below(cfg, f, t, c))
                mk(w, cfg, '%smix_%s%d_%s' % (f, c, k, id_), [IN(t, N, 'a'), OUT(t, 1, 'r')], 'typedef %s V; V x=ldv<V>(a); %s q[%d]; stv(q,V(Vc::%s(x))); r[0]=q[%d];' % (V, t, N, f, k),
                   asm + 'typedef %s V; V x(a[%d]); V y=Vc::%s(x); %s q[%d]; stv(q,y); r[0]=q[0];' % (V, k, f, t, N), what='%s(%s), lane %d the largest (%s)' % (f, V, k, c))
        if t == 'float': continue
        # the vector as a whole chooses the reduction, every lane is treated alike
        rot = '%s b[%d]; for(int i=0;i<%d;++i) b[i]=a[(i+1)%%%d];' % (t, N, N, N)
        mk(w, cfg, '%srot_%s' % (f, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::%s(x)));' % (V, f),
           rot + 'typedef %s V; V x=ldv<V>(b); %s q[%d]; stv(q,V(Vc::%s(x))); for(int i=0;i<%d;++i) r[(i+1)%%%d]=q[i];' % (V, t, N, f, N, N), what='%s(%s) of rotated lanes' % (f, V))
def special(cfg, abi, t, w):
    """exactly defined results: zeros, infinities, NaN, arguments outside the domain; symmetries"""
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t); inf = '__builtin_inf%s()' % SFX[t]; fabs = '__builtin_fabs' + SFX[t]
    def val(name, f, cond, exp):
        mk(w, cfg, 'sp_%s_%s' % (name, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); %s q[%d]; stv(q,V(Vc::%s(x))); for(int i=0;i<%d;++i) r[i]=(%s)?q[i]:%s(0);' % (V, t, N, f, N, cond, t),
           'for(int i=0;i<%d;++i) r[i]=(%s)?%s(%s):%s(0);' % (N, cond, t, exp, t), what='%s(%s) where %s' % (f, V, cond))
    def nan(name, f, cond):
        mk(w, cfg, 'sp_%s_%s' % (name, id_), [IN(t, N, 'a'), OUT('int', N, 'r')], 'typedef %s V; V x=ldv<V>(a); %s q[%d]; stv(q,V(Vc::%s(x))); for(int i=0;i<%d;++i) r[i]=(%s)&&q[i]!=q[i];' % (V, t, N, f, N, cond),
           'for(int i=0;i<%d;++i) r[i]=(%s);' % (N, cond), what='%s(%s) is NaN where %s' % (f, V, cond))
    for f in ('log', 'log2', 'log10'):
        val(f+'0', f, 'a[i]==0', '-'+inf); nan(f+'neg', f, 'a[i]<0'); val(f+'inf', f, 'a[i]==%s' % inf, 'a[i]'); nan(f+'nan', f, 'a[i]!=a[i]')
    val('exphi', 'exp', 'a[i]>%s' % ('88.73f' if t == 'float' else '709.79'), inf); val('explo', 'exp', 'a[i]<%s' % ('-104.f' if t == 'float' else '-746.'), '0')
    nan('expnan', 'exp', 'a[i]!=a[i]')
    nan('asinout', 'asin', '%s(a[i])>1' % fabs)
    for f in ('asin', 'atan') + (('sin', 'cos') if t == 'double' else ()): nan(f+'nan', f, 'a[i]!=a[i]')
    nan('sqrtneg', 'sqrt', 'a[i]<0')
    for f in ('asin', 'atan'):
        cond = 'a[i]==a[i]&&a[i]!=0' if f == 'atan' else '%s(a[i])<=1&&a[i]!=0' % fabs
        mk(w, cfg, 'sp_%sodd_%s' % (f, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); %s q[%d]; stv(q,V(Vc::%s(-x))); for(int i=0;i<%d;++i) r[i]=(%s)?q[i]:%s(0);' % (V, t, N, f, N, cond, t),
           'typedef %s V; V x=ldv<V>(a); %s q[%d]; stv(q,V(-Vc::%s(x))); for(int i=0;i<%d;++i) r[i]=(%s)?q[i]:%s(0);' % (V, t, N, f, N, cond, t), what='%s(-x)==-%s(x) for %s' % (f, f, V))
    if t == 'double': mk(w, cfg, 'sp_sinodd_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::sin(-x)));' % V, 'typedef %s V; V x=ldv<V>(a); stv(r,V(-Vc::sin(x)));' % V, what='sin(-x)==-sin(x) for ' + V)
    if t == 'double': mk(w, cfg, 'sp_coseven_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::cos(-x)));' % V, 'typedef %s V; V x=ldv<V>(a); stv(r,V(Vc::cos(x)));' % V, what='cos(-x)==cos(x) for ' + V)
    pi = '0x1.921fb6p+1f' if t == 'float' else '0x1.921FB54442D18p+1'
    def at2(name, cond, exp):
        mk(w, cfg, 'sp_atan2%s_%s' % (name, id_), [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')], 'typedef %s V; V y=ldv<V>(a),x=ldv<V>(b); %s q[%d]; stv(q,V(Vc::atan2(y,x))); for(int i=0;i<%d;++i) r[i]=(%s)?q[i]:%s(0);' % (V, t, N, N, cond, t),
           'for(int i=0;i<%d;++i) r[i]=(%s)?%s(%s):%s(0);' % (N, cond, t, exp, t), what='atan2(%s) where %s' % (V, cond))
    at2('x0neg', 'b[i]==0&&a[i]<0', '-%s/2' % pi)
    mk(w, cfg, 'sp_atan2nan_%s' % id_, [IN(t, N, 'a'), IN(t, N, 'b'), OUT('int', N, 'r')], 'typedef %s V; V y=ldv<V>(a),x=ldv<V>(b); %s q[%d]; stv(q,V(Vc::atan2(y,x))); for(int i=0;i<%d;++i) r[i]=(a[i]!=a[i]||b[i]!=b[i])&&q[i]!=q[i];' % (V, t, N, N),
       'for(int i=0;i<%d;++i) r[i]=(a[i]!=a[i]||b[i]!=b[i]);' % N, what='atan2(%s) is NaN when an argument is' % V)
def arrays(cfg, t, w):
    """a SimdArray of two native registers is the two registers"""
    abi = 'Avx' if 'Avx' in abis(cfg) else 'Sse'
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); SA = 'Vc::SimdArray<%s,%d>' % (t, 2*N)
    for f in UNARY + ('sin', 'cos'):
        mk(w, cfg, 'sa_%s_%s' % (f, t), [IN(t, 2*N, 'a'), OUT(t, 2*N, 'r')], 'typedef %s S; S x(a,Vc::Unaligned); S(Vc::%s(x)).store(r,Vc::Unaligned);' % (SA, f),
           'typedef %s V; for(int i=0;i<2;++i){ V x=ldv<V>(a+i*%d); stv(r+i*%d,V(Vc::%s(x))); }' % (V, N, N, f), what='%s(%s) by registers' % (f, SA))
    mk(w, cfg, 'sa_atan2_%s' % t, [IN(t, 2*N, 'a'), IN(t, 2*N, 'b'), OUT(t, 2*N, 'r')], 'typedef %s S; S x(a,Vc::Unaligned),y(b,Vc::Unaligned); S(Vc::atan2(x,y)).store(r,Vc::Unaligned);' % SA,
       'typedef %s V; for(int i=0;i<2;++i){ V x=ldv<V>(a+i*%d),y=ldv<V>(b+i*%d); stv(r+i*%d,V(Vc::atan2(x,y))); }' % (V, N, N, N), what='atan2(%s) by registers' % SA)
    for o in 'sc':
        mk(w, cfg, 'sa_sincos%s_%s' % (o, t), [IN(t, 2*N, 'a'), OUT(t, 2*N, 'r')], 'typedef %s S; S x(a,Vc::Unaligned),s,c; Vc::sincos(x,&s,&c); %s.store(r,Vc::Unaligned);' % (SA, o),
           'typedef %s V; for(int i=0;i<2;++i){ V x=ldv<V>(a+i*%d),s,c; Vc::sincos(x,&s,&c); stv(r+i*%d,%s); }' % (V, N, N, o), what='sincos(%s) by registers' % SA)
def witnesses(tier):
    w = []
    for cfg in CFGS + EXTRA:
        if cfg != 'scalar':
            for t in FLOATS: arrays(cfg, t, w)
        for abi in abis(cfg):
            if abi == 'Sc': continue
            for t in FLOATS: one(cfg, abi, t, w, tier); special(cfg, abi, t, w)
    return w
