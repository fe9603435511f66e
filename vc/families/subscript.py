"""C26 subscripts with index vectors: flat and nested, plain and masked, read and write."""
from core import *
from families.compare import CFGS, EXTRA
import families.simdshape as shp
HEADER = 'wit_sub.h'
CHUNK = 40
CONT = {  # name: declaration of c around the elements at mem
 'arr': lambda S: 'typedef Vc::array<%s,1000> C; C &c=*(C*)mem; ' % S,
 'vec': lambda S: 'typedef Vc::vector<%s> C; Around<C> ar(mem,sizeof(%s)*1000); C &c=ar.get(); ' % (S, S),
 'span': lambda S: 'Vc::span<%s> c(mem,1000); ' % S,
}
def one(cfg, abi, t, w, tier):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    if abi[0] == 'F': V = 'Vc::SimdArray<%s,%d>' % (t, N)
    td = 'typedef %s V; typedef V::Mask M; ' % V
    F = 'for(int i=0;i<%d;++i) ' % N
    LIM = 20
    IDX = {'ix': ('int', 'V::IndexType j=ldv<V::IndexType>(x); '), 'carr': ('int', 'const int (&j)[%d]=*(const int(*)[%d])x; ' % (N, N)),
           'sarr': ('ushort', 'typedef std::array<ushort,%d> AI; const AI &j=*(const AI*)x; ' % N),
           'varr': ('short', 'typedef Vc::array<short,%d> AI; const AI &j=*(const AI*)x; ' % N),
           'sa': ('uint', 'typedef Vc::fixed_size_simd<uint,%d> IV; IV j(x,Vc::Unaligned); ' % N)}
    def idx(nm, n='x'):
        e = IDX[nm][0]
        return IN(e, N, n, free=True, **({'lim': LIM} if BITS[e] == 32 else {'lim': 15} if e == 'short' else {}))
    m = IN('bool', N, 'm', free=True); a = IN(t, N, 'a', free=True); r = OUT(t, N, 'r')
    hw = cfg in ('avx2', 'clang-avx2')
    # (name, struct, library path, element in the meaning, needs)
    TS = t
    FORMS = [('flat', TS, 'c[j]', 'mem[x[i]]'), ('mb', 'S1<%s>' % t, 'c[j][&S1<%s>::b]' % t, 'mem[x[i]].b'), ('ma', 'S1<%s>' % t, 'c[j][&S1<%s>::a]' % t, 'mem[x[i]].a'),
             ('nest', 'S2<%s>' % t, 'c[j][&S2<%s>::in][&S1<%s>::b]' % (t, t), 'mem[x[i]].in.b'), ('dk', 'S2<%s>' % t, 'c[j][&S2<%s>::data][k]' % t, 'mem[x[i]].data[k]'),
             ('dj', 'S2<%s>' % t, 'c[j][&S2<%s>::data][h]' % t, 'mem[x[i]].data[y[i]]'), ('d2', 'S3<%s>' % t, 'c[j][&S3<%s>::d][k][k2]' % t, 'mem[x[i]].d[k][k2]'),
             ('va', 'S3<%s>' % t, 'c[j][&S3<%s>::v][k]' % t, 'mem[x[i]].v[k]'), ('aj', 'Vc::array<%s,5>' % t, 'c[j][h]', 'mem[x[i]].data()[y[i]]'), ('ak', 'std::array<%s,5>' % t, 'c[j][k]', 'mem[x[i]].data()[k]')]
    for fn, S, path, el in FORMS:
        for cn, cd in CONT.items():
            for nm in IDX:
                if nm != 'ix' and not (cn == 'arr' and fn in ('flat', 'mb', 'dk')): continue
                if cn != 'arr' and fn not in ('flat', 'mb', 'dj'): continue
                if abi[0] == 'F' and nm in ('carr', 'sarr', 'varr'): continue
                if tier == 'quick' and cn == 'span' and fn == 'dj': continue
                X = idx(nm)
                ps0 = [X]
                decl = IDX[nm][1]
                if '[h]' in path:
                    ps0.append(IN('int', N, 'y', free=True, lim=2)); decl += 'V::IndexType h=ldv<V::IndexType>(y); '
                if 'k]' in path: ps0.append(CTL('k', 1))
                if 'k2]' in path: ps0.append(CTL('k2', 1))
                if cn == 'span' and nm != 'ix': continue
                nme = '%s_%s_%s_%s' % (fn, cn, nm, id_)
                es = TYPES[t]
                mem = ('%s*mem' % S, {'name': 'mem', 'elem': es, 'neg': 1 << 40})
                T = ' __vc_touch(&%s,4);' % el if hw and BITS[t] < 32 else ''
                wh = '%s of %s, %s container, %s index' % (path, V, cn, nm)
                lead = td + cd(S) + decl
                mk(w, cfg, 'r_' + nme, [mem] + ps0 + [r], lead + 'V v=%s; stv(r,v);' % path, F + '{r[i]=%s;%s}' % (el, T), opts=['reads'], what='read ' + wh)
                if cn == 'arr' or fn == 'flat':
                    mk(w, cfg, 'ra_' + nme, [mem] + ps0 + [a, m, r], lead + 'V v=ldv<V>(a); where(ldm<M>(m))|v=%s; stv(r,v);' % path, F + '{r[i]=a[i]; if(m[i]) {r[i]=%s;%s}}' % (el, T), opts=['reads'], what='where | read ' + wh)
                if cn == 'arr' and fn in ('flat', 'nest'):
                    mk(w, cfg, 'rv_' + nme, [mem] + ps0 + [a, m, r], lead + 'V v=ldv<V>(a); v(ldm<M>(m))=%s; stv(r,v);' % path, F + '{r[i]=a[i]; if(m[i]) {r[i]=%s;%s}}' % (el, T), opts=['reads'], what='v(mask) = read ' + wh)
                if nm in ('carr', 'sarr', 'varr') and abi != 'Sc': pass
                mk(w, cfg, 'w_' + nme, [mem] + ps0 + [a], lead + '%s=ldv<V>(a);' % path, F + '%s=a[i];' % el, opts=['reads'], what='write ' + wh)
                if cn == 'arr' or fn == 'flat':
                    mk(w, cfg, 'wm_' + nme, [mem] + ps0 + [a, m], lead + 'where(ldm<M>(m))|%s=ldv<V>(a);' % path, F + 'if(m[i]) %s=a[i];' % el, opts=['reads'], what='where | write ' + wh)
    # const containers and expressions
    if abi[0] != 'F':
        mk(w, cfg, 'rc_' + id_, [('const S1<%s>*mem' % t, {'name': 'mem', 'elem': TYPES[t], 'neg': 1 << 40}), idx('ix'), r], td + 'typedef Vc::array<S1<%s>,1000> C; const C &c=*(const C*)mem; ' % t + IDX['ix'][1] + 'stv(r,V(c[j][&S1<%s>::b]));' % t,
           F + '{r[i]=mem[x[i]].b;%s}' % (' __vc_touch(&mem[x[i]].b,4);' if hw and BITS[t] < 32 else ''), opts=['reads'], what='read through a const container')
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w, tier)
    for cfg, abi, t in shp.shapes(tier): one(cfg, abi, t, w, tier)
    return w
