"""C04 write-masked assignment, where(), iif(), masked zeroing."""
from core import *
from families.compare import CFGS, EXTRA
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    td = 'typedef %s V; typedef V::Mask M; V x=ldv<V>(a); M k=ldm<M>(m); ' % V
    T = 'typedef %s T; ' % t
    ps = [IN(t, N, 'a'), IN(t, N, 'b'), IN('bool', N, 'm'), OUT(t, N, 'r')]
    F = 'for(int i=0;i<%d;++i)' % N
    flt = t in FLOATS
    sg = t not in ('uint', 'ushort')
    def e(nm, impl, expr, pre=''):
        mk(w, cfg, '%s_%s' % (nm, id_), ps, td + 'V y=ldv<V>(b); %s stv(r,x);' % impl, T + F + '{%s r[i]=m[i]?T(%s):a[i];}' % (pre, expr), what='%s on %s' % (nm, V))
    dv = '' if flt else '__vc_assume(b[i]!=0);' + ('__vc_assume(!(b[i]==-1&&a[i]==std::numeric_limits<T>::min()));' if sg else '')
    sh = '__vc_assume(b[i]>=0&&b[i]<%d);' % BITS[t]
    ops = [('add', '+', ''), ('sub', '-', ''), ('mul', '*', ''), ('div', '/', dv)]
    if not flt: ops += [('mod', '%', dv), ('and', '&', ''), ('or', '|', ''), ('xor', '^', '')] + ([('shl', '<<', sh), ('shr', '>>', sh)] if abi[0] != 'F' else [])
    forms = (('m', 'x(k)%s y;'), ('w', 'Vc::where(k)|x%s y;'), ('c', 'Vc::where(k)(x)%s y;'), ('t', 'Vc::where(k,x)%s y;'))
    for f, src in forms:
        e(f + 'asg', src % '=', 'b[i]')
        for nm, op, pre in ops:
            if f == 'c' and nm not in ('add',): continue
            if f == 't' and nm not in ('mul', 'sub'): continue
            e(f + nm, src % (op + '='), 'a[i]%sb[i]' % op, pre)
    for f, s1, s2 in (('m', 'x(k)', ''), ('w', '(Vc::where(k)|x)', '')):
        e(f + 'preinc', '++%s;' % s1, 'a[i]+1'); e(f + 'predec', '--%s;' % s1, 'a[i]-1')
        e(f + 'postinc', '%s++;' % s1, 'a[i]+1'); e(f + 'postdec', '%s--;' % s1, 'a[i]-1')
    e('iif', 'x=Vc::iif(k,y,x);', 'b[i]')
    e('assign', 'x.assign(y,k);', 'b[i]')
    e('setzero', 'x.setZero(k);', '0')
    e('setzeroinv', 'x.setZeroInverted(!k);', '0')
    e('setqnan', 'x.setQnan(k);', '__builtin_nan("")') if flt and False else None
    e('mretinc', 'V z=x(k)++; if(Vc::any_of(z!=x&&!k)) x=z;', 'a[i]+1') if False else None
    mk(w, cfg, 'scalarasg_' + id_, [IN(t, N, 'a'), SC(t, 's'), IN('bool', N, 'm'), OUT(t, N, 'r')], td + 'x(k)=s; stv(r,x);', T + F + ' r[i]=m[i]?s:a[i];')
    mk(w, cfg, 'scalaradd_' + id_, [IN(t, N, 'a'), SC(t, 's'), IN('bool', N, 'm'), OUT(t, N, 'r')], td + 'Vc::where(k)|x+=V(s); stv(r,x);', T + F + ' r[i]=m[i]?T(a[i]+s):a[i];')
    mk(w, cfg, 'iif2_' + id_, ps, td + 'stv(r,Vc::iif(k,x,ldv<V>(b)));', F + ' r[i]=m[i]?a[i]:b[i];')
    mk(w, cfg, 'cmpsel_' + id_, [IN(t, N, 'a'), IN(t, N, 'b'), IN(t, N, 'c'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); Vc::where(x<ldv<V>(b))|x=ldv<V>(c); stv(r,x);' % V, F + ' r[i]=a[i]<b[i]?c[i]:a[i];')
    mk(w, cfg, 'boolwhere_' + id_, [SC(t, 'x'), SC(t, 'y'), SC('bool', 'm')], 'Vc::where(m)|x=y; return x;', 'return m?y:x;', ret=t)
    mk(w, cfg, 'booliif_' + id_, [SC(t, 'x'), SC(t, 'y'), SC('bool', 'm')], 'return Vc::iif(m,y,x);', 'return m?y:x;', ret=t)
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
