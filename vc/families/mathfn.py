"""C12 exactly defined math functions."""
from core import *
from families.compare import CFGS, EXTRA
from families.casts import allabis
MAN = {'float': 23, 'double': 52}; EB = {'float': 8, 'double': 11}
UI = {'float': 'unsigned', 'double': 'unsigned long long'}
HEADER = 'wit_math.h'
def one(cfg, abi, t, w):
    N = size(abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    D = 'typedef %s V; V x=ldv<V>(a); ' % V
    D2 = D + 'V y=ldv<V>(b); '
    for f, s in (('min', 'x<y?x:y'), ('max', 'x<y?y:x')):
        mk(w, cfg, '%s_%s' % (f, id_), [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')], D2 + 'stv(r,V(Vc::%s(x,y)));' % f,
           'for(int i=0;i<%d;++i){ %s x=a[i],y=b[i]; r[i]=%s; }' % (N, t, s), opts=('order',), what='%s(%s)' % (f, V))
    if t != 'ushort' and t != 'uint':
        mk(w, cfg, 'abs_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], D + 'stv(r,V(Vc::abs(x)));',
           'for(int i=0;i<%d;++i) r[i]=%s;' % (N, '__builtin_fabs%s(a[i])' % ('f' if t == 'float' else '') if t in FLOATS else '%s(a[i]<0?-a[i]:a[i])' % t) +
           ('for(int i=0;i<%d;++i) __vc_assume(a[i]!=%s);' % (N, '-0x7fffffff-1' if t == 'int' else '-0x8000') if t in INTS and abi == 'Sc' else ''), what='abs(%s)' % V)
    mk(w, cfg, 'fma_%s' % id_, [IN(t, N, 'a'), IN(t, N, 'b'), IN(t, N, 'c'), OUT(t, N, 'r')], D2 + 'V z=ldv<V>(c); stv(r,V(Vc::fma(x,y,z)));',
       'for(int i=0;i<%d;++i) r[i]=%s;' % (N, '%s(a[i]*b[i]+c[i])' % t if t in INTS else
          ('__builtin_fma%s(a[i],b[i],c[i])' % ('f' if t == 'float' else '') if cfg in ('avx2', 'clang-avx2') and abi == 'Avx' or abi == 'Sc' else 'float(double(a[i])*double(b[i])+double(c[i]))')), what='fma(%s)' % V) if abi[0] != 'F' and not (t == 'double' and not (abi == 'Sc' or (abi == 'Avx' and 'avx2' in cfg and cfg != 'avx2p'))) else None
    if t not in FLOATS: return
    sfx = 'f' if t == 'float' else ''
    mk(w, cfg, 'sqrt_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], D + 'stv(r,V(Vc::sqrt(x)));', 'for(int i=0;i<%d;++i) r[i]=__builtin_sqrt%s(a[i]);' % (N, sfx), what='sqrt(%s)' % V)
    mk(w, cfg, 'copysign_%s' % id_, [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')], D2 + 'stv(r,V(Vc::copysign(x,y)));', 'for(int i=0;i<%d;++i) r[i]=__builtin_copysign%s(a[i],b[i]);' % (N, sfx), what='copysign(%s)' % V)
    # NaN lanes (payload, sign, quieting) are not compared
    for f, g in (('trunc', 'trunc'), ('floor', 'floor'), ('ceil', 'ceil'), ('round', 'rint')):
        mk(w, cfg, '%s_%s' % (f, id_), [IN(t, N, 'a'), OUT(t, N, 'r')], D + '%s q[%d]; stv(q,V(Vc::%s(x))); for(int i=0;i<%d;++i) r[i]=only(!is_nan(a[i]),q[i]);' % (t, N, f, N),
           'for(int i=0;i<%d;++i) r[i]=only(!is_nan(a[i]),__builtin_%s%s(a[i]));' % (N, g, sfx), opts=('fbits',), what='%s(%s)' % (f, V))
    mk(w, cfg, 'exponent_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], D + '%s q[%d]; stv(q,V(Vc::exponent(x))); for(int i=0;i<%d;++i) r[i]=only(is_pos_normal(a[i]),q[i]);' % (t, N, N),
       'for(int i=0;i<%d;++i) r[i]=only(is_pos_normal(a[i]),%s(int(bitsof(a[i])>>%d)-%d));' % (N, t, MAN[t], (1 << (EB[t] - 1)) - 1), opts=('fbits',), what='exponent(%s)' % V)
    # deprecated members name the same functions
    mk(w, cfg, 'exponentm_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], D + '%s q[%d]; stv(q,V(x.exponent())); for(int i=0;i<%d;++i) r[i]=only(is_pos_normal(a[i]),q[i]);' % (t, N, N),
       'for(int i=0;i<%d;++i) r[i]=only(is_pos_normal(a[i]),%s(int(bitsof(a[i])>>%d)-%d));' % (N, t, MAN[t], (1 << (EB[t] - 1)) - 1), opts=('fbits',), what='%s::exponent()' % V)
    mk(w, cfg, 'copysignm_%s' % id_, [IN(t, N, 'a'), IN(t, N, 'b'), OUT(t, N, 'r')], D2 + 'stv(r,V(x.copySign(y)));', 'for(int i=0;i<%d;++i) r[i]=__builtin_copysign%s(a[i],b[i]);' % (N, sfx), what='%s::copySign' % V)
    for nm, e in (('isnegative', 'Vc::isnegative(x)'), ('isnegativem', 'x.isNegative()')):
        mk(w, cfg, '%s_%s' % (nm, id_), [IN(t, N, 'a'), OUT('bool', N, 'r')], D + 'stm(r,V::Mask(%s));' % e, 'for(int i=0;i<%d;++i) r[i]=bitsof(a[i])>>%d;' % (N, BITS[t] - 1), opts=('fbits',), what='isnegative(%s)' % V)
    if abi[0] == 'F': return   # the scalar tail calls std::frexp and std::ldexp; C12 decides these functions for the parts
    E = 'Vc::SimdArray<int,%d>' % N
    IM = D + '%s q; V m=Vc::frexp(x,&q); %s z[%d]; stv(z,m); ' % (E, t, N)
    if abi == 'Sc':
        mk(w, cfg, 'frexp_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r'), OUT('int', N, 'e')], IM + 'r[0]=z[0]; e[0]=q[0];', 'r[0]=__builtin_frexp%s(a[0],e);' % sfx, opts=('fbits',), what='frexp(%s)' % V)
        mk(w, cfg, 'ldexp_%s' % id_, [IN(t, N, 'a'), IN('int', N, 'e'), OUT(t, N, 'r')], D + '%s q; q[0]=e[0]; stv(r,V(Vc::ldexp(x,q)));' % E, 'r[0]=__builtin_ldexp%s(a[0],e[0]);' % sfx, opts=('fbits',), what='ldexp(%s)' % V)
        return
    # zero, infinity, NaN and normal numbers (the exponent of infinities and NaN is unspecified)
    mk(w, cfg, 'frexp_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r'), OUT('int', N, 'e')], IM + 'for(int i=0;i<%d;++i){ r[i]=only(!is_denormal(a[i]),z[i]); e[i]=expf_(a[i])!=%d&&!is_denormal(a[i])?int(q[i]):0; }' % (N, (1 << EB[t]) - 1),
       'for(int i=0;i<%d;++i){ r[i]=only(!is_denormal(a[i]),frexp_nrm(a[i],e+i)); if(is_denormal(a[i])) e[i]=0; }' % N, opts=('fbits',), what='frexp(%s)' % V)
    for nm, bits in (('min', 1), ('max', (1 << MAN[t]) - 1), ('half', 1 << (MAN[t] - 1))):
        mk(w, cfg, 'frexpden_%s_%s' % (nm, id_), [OUT(t, N, 'r'), OUT('int', N, 'e')], '%s a[%d]; for(int i=0;i<%d;++i) a[i]=fromb((%s)%dull); ' % (t, N, N, UI[t], bits) + IM + 'for(int i=0;i<%d;++i){ r[i]=z[i]; e[i]=q[i]; }' % N,
           'for(int i=0;i<%d;++i) r[i]=frexp_def(fromb((%s)%dull),e+i);' % (N, UI[t], bits), opts=('fbits',), what='frexp(%s) of a denormal' % V)
    # normal operands with a normal result: the exponent argument comes from the bits that line up with the operand's exponent field
    IT = 'int' if t == 'float' else 'llong'
    mk(w, cfg, 'ldexp_%s' % id_, [IN(t, N, 'a'), IN(IT, N, 'e'), OUT(t, N, 'r')], D + '%s q; for(int i=0;i<%d;++i) q[i]=int(e[i]>>%d); %s z[%d]; stv(z,V(Vc::ldexp(x,q))); for(int i=0;i<%d;++i) r[i]=only(ldexp_dom(a[i],int(e[i]>>%d)),z[i]);' % (E, N, MAN[t], t, N, N, MAN[t]),
       'for(int i=0;i<%d;++i) r[i]=only(ldexp_dom(a[i],int(e[i]>>%d)),ldexp_def(a[i],int(e[i]>>%d)));' % (N, MAN[t], MAN[t]), opts=('fbits',), what='ldexp(%s)' % V)
    # zero, infinity and NaN, with any exponent
    mk(w, cfg, 'ldexps_%s' % id_, [IN(t, N, 'a'), IN('int', N, 'e'), OUT(t, N, 'r')], '%s x0[%d]; for(int i=0;i<%d;++i) x0[i]=special(a[i]); typedef %s V; V x=ldv<V>(x0); %s q; for(int i=0;i<%d;++i) q[i]=e[i]; %s z[%d]; stv(z,V(Vc::ldexp(x,q))); for(int i=0;i<%d;++i) r[i]=z[i];' % (t, N, N, V, E, N, t, N, N),
       'for(int i=0;i<%d;++i) r[i]=special(a[i]);' % N, opts=('fbits',), what='ldexp(%s) of zero, infinity, NaN' % V)
def witnesses(tier):
    w = []
    for cfg in CFGS + EXTRA + ['avx2p']:
        for abi in allabis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
