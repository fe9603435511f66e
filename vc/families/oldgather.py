"""C07 the deprecated gathers and scatters through pointers to members."""
from core import *
from families.compare import CFGS, EXTRA
HEADER = 'wit_sub.h'
CHUNK = 40
def one(cfg, abi, t, w):
    N = size(abi, t); id_ = '%s_%s' % (abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi) if abi[0] != 'F' else 'Vc::SimdArray<%s,%d>' % (t, N)
    td = 'typedef %s V; typedef V::Mask M; ' % V
    F = 'for(int i=0;i<%d;++i) ' % N
    m = IN('bool', N, 'm', free=True); a = IN(t, N, 'a', free=True); r = OUT(t, N, 'r')
    hw = cfg in ('avx2', 'clang-avx2')
    IDX = {'ix': ('int', 'V::IndexType j=ldv<V::IndexType>(x); ', 20), 'arr': ('int', 'typedef std::array<int,%d> AI; const AI &j=*(const AI*)x; ' % N, 20)}
    for fn, S, mp, el in (('m', 'S1<%s>' % t, '&S1<%s>::b' % t, 'b'), ('n', 'S2<%s>' % t, '&S2<%s>::in,&S1<%s>::b' % (t, t), 'in.b')):
        for nm, (e, decl, lim) in IDX.items():
            if nm == 'arr' and (fn == 'n' or abi[0] == 'F'): continue
            X = IN(e, N, 'x', free=True, lim=lim)
            mem = ('const %s*mem' % S, {'name': 'mem', 'elem': TYPES[t], 'neg': 1 << 40}); dst = ('%s*mem' % S, mem[1])
            T = ' __vc_touch(&mem[x[i]].%s,4);' % el if hw and BITS[t] < 32 else ''
            pl = F + '{r[i]=mem[x[i]].%s;%s}' % (el, T); mz = F + '{r[i]=0; if(m[i]) {r[i]=mem[x[i]].%s;%s}}' % (el, T); mk_ = mz.replace('r[i]=0', 'r[i]=a[i]')
            i = '%s_%s_%s' % (fn, nm, id_); wh = ' of %s through %s (%s index)' % (V, mp, nm)
            mk(w, cfg, 'og_' + i, [mem, X, a, r], td + decl + 'V v=ldv<V>(a); v.gather(mem,%s,j); stv(r,v);' % mp, pl, opts=['reads'], what='gather' + wh)
            mk(w, cfg, 'ogm_' + i, [mem, X, a, m, r], td + decl + 'V v=ldv<V>(a); v.gather(mem,%s,j,ldm<M>(m)); stv(r,v);' % mp, mk_, opts=['reads'], what='masked gather' + wh)
            mk(w, cfg, 'ogc_' + i, [mem, X, r], td + decl + 'V v(mem,%s,j); stv(r,v);' % mp, pl, opts=['reads'], what='gather construction' + wh)
            mk(w, cfg, 'ogcm_' + i, [mem, X, m, r], td + decl + 'V v(mem,%s,j,ldm<M>(m)); stv(r,v);' % mp, mz, opts=['reads'], what='masked gather construction' + wh)
            if abi[0] == 'F': continue
            mk(w, cfg, 'os_' + i, [dst, X, a], td + decl + 'ldv<V>(a).scatter(mem,%s,j);' % mp, F + 'mem[x[i]].%s=a[i];' % el, opts=['reads'], what='scatter' + wh)
            mk(w, cfg, 'osm_' + i, [dst, X, a, m], td + decl + 'ldv<V>(a).scatter(mem,%s,j,ldm<M>(m));' % mp, F + 'if(m[i]) mem[x[i]].%s=a[i];' % el, opts=['reads'], what='masked scatter' + wh)
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg) + (['F4', 'F6'] if cfg in ('sse2', 'avx2') else []):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
