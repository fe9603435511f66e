"""C07 gather and scatter (all index containers, converting forms, masked forms, alternative implementations)."""
from core import *
from families.compare import CFGS, EXTRA
CHUNK = 40
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    td = 'typedef %s V; typedef V::Mask M; ' % V
    F = 'for(int i=0;i<%d;++i) ' % N
    IDX = [('ix', 'int', 'V::IndexType j=ldv<V::IndexType>(x);'), ('arr', 'int', 'const int (&j)[%d]=*(const int(*)[%d])x;' % (N, N)),
           ('sarr', 'std::array<ushort,%d>', 'typedef std::array<ushort,%d> AI; const AI &j=*(const AI*)x;' % N),
           ('varr', 'Vc::array<short,%d>', 'typedef Vc::array<short,%d> AI; const AI &j=*(const AI*)x;' % N),
           ('us', 'uint', 'typedef Vc::fixed_size_simd<uint,%d> IV; IV j(x,Vc::Unaligned);' % N),
           ('ss', 'short', 'typedef Vc::fixed_size_simd<short,%d> IV; IV j(x,Vc::Unaligned);' % N)]
    ET = {'ix': 'int', 'arr': 'int', 'sarr': 'ushort', 'varr': 'short', 'us': 'uint', 'ss': 'short'}
    srcs = [t] + [u for u in ['float', 'double', 'int', 'short', 'uchar'] if u != t and not (t in INTS and u in FLOATS) and BITS[u] <= BITS[t]]
    if t == 'float': srcs.append('double')
    for nm, _, decl in IDX:
        for u in (srcs if nm == 'ix' else [t]):
            X = IN(ET[nm], N, 'x', free=True); mem = IN(u, None, 'mem', neg=1 << 40)
            m = IN('bool', N, 'm', free=True); a = IN(t, N, 'a', free=True); r = OUT(t, N, 'r')
            i = '%s_%s_%s' % (nm, u, id_)
            wh = '%s from %s through %s index' % (V, u, nm)
            S = '%s(mem[x[i]])' % t
            hw = cfg in ('avx2', 'clang-avx2')          # AVX2 gather instructions: 32-bit signed offsets, 4-byte accesses
            T = '__vc_touch(mem+x[i],4);' if hw and BITS[u] < 32 else ''
            wide = hw and nm == 'us'
            X31 = IN('uint', N, 'x', free=True, fix0=1 << 31) if wide else X
            def g(name, ps, code, spec, expr, what):
                mk(w, cfg, name, [X31 if p is X else p for p in ps], code, F + '{' + spec % (expr, T) + '}', opts=['reads'], what=what)
                if abi[0] != 'F' and T and name[0:3] == 'gm_' and nm == 'ix': mk(w, cfg, 'exact' + name, ps, code, F + '{' + spec % (expr, '') + '}', opts=['reads'], what=what + ' (only the indexed elements are read)')
                if abi[0] != 'F' and wide and name[0:3] == 'gm_': mk(w, cfg, 'huge' + name, [IN('uint', N, 'x', free=True, fix1=1 << 31) if p is X else p for p in ps], code, F + '{' + spec % (expr, T) + '}', opts=['reads'], what=what + ' (indexes >= 2^31)')
            g('gct_' + i, [mem, X, r], td + decl + 'stv(r,V(mem,j));', 'r[i]=%s;%s', S, 'gather constructor ' + wh)
            g('gmct_' + i, [mem, X, m, r], td + decl + 'stv(r,V(mem,j,ldm<M>(m)));', 'r[i]=0; if(m[i]) {r[i]=%s;%s}', S, 'masked gather constructor ' + wh)
            g('gm_' + i, [mem, X, m, a, r], td + decl + 'V v=ldv<V>(a); v.gather(mem,j,ldm<M>(m)); stv(r,v);', 'r[i]=a[i]; if(m[i]) {r[i]=%s;%s}', S, 'masked gather ' + wh)
            if nm == 'ix': g('g_' + i, [mem, X, a, r], td + decl + 'V v=ldv<V>(a); v.gather(mem,j); stv(r,v);', 'r[i]=%s;%s', S, 'gather ' + wh)
            if t in FLOATS and u in INTS + ('uchar',): continue
            dst = OUT(u, None, 'mem', neg=1 << 40)
            if abi[0] == 'F' and nm in ('arr', 'sarr', 'varr'): continue   # SimdArray scatters through SimdArray indexes only
            mk(w, cfg, 's_' + i, [dst, X, a], td + decl + 'ldv<V>(a).scatter(mem,j);', F + 'mem[x[i]]=%s(a[i]);' % u, opts=['reads'], what='scatter ' + wh)
            mk(w, cfg, 'sm_' + i, [dst, X, a, m], td + decl + 'ldv<V>(a).scatter(mem,j,ldm<M>(m));', F + 'if(m[i]) mem[x[i]]=%s(a[i]);' % u, opts=['reads'], what='masked scatter ' + wh)
    if abi == 'Sc' or abi[0] == 'F': return
    for impl in ('SimpleLoop', 'SetIndexZero', 'BitScanLoop', 'PopcntSwitch'):
        X = IN('int', N, 'x', free=True); mem = IN(t, None, 'mem', neg=1 << 40); dst = OUT(t, None, 'mem', neg=1 << 40)
        m = IN('bool', N, 'm', free=True); a = IN(t, N, 'a', free=True); r = OUT(t, N, 'r')
        decl = 'V::IndexType j=ldv<V::IndexType>(x);'
        i = '%s_%s' % (impl, id_)
        T = '__vc_touch(mem+x[i],4);' if cfg in ('avx2', 'clang-avx2') and BITS[t] < 32 else ''
        s = F + '{ r[i]=a[i]; if(m[i]) {r[i]=mem[x[i]];%s} }' % T
        if impl == 'SetIndexZero': s = '__vc_touch(mem,%d);' % (4 if T else BITS[t] // 8) + s   # element 0 is read for deselected lanes
        mk(w, cfg, 'gi_' + i, [mem, X, m, a, r], td + decl + 'V v=ldv<V>(a); Vc::Common::executeGather(Vc::Common::%sT(),v,mem,j,ldm<M>(m)); stv(r,v);' % impl, s, opts=['reads'], what='%s gather of %s' % (impl, V))
        if impl != 'SetIndexZero':
            mk(w, cfg, 'si_' + i, [dst, X, a, m], td + decl + 'V v=ldv<V>(a); Vc::Common::executeScatter(Vc::Common::%sT(),v,mem,j,ldm<M>(m));' % impl, F + 'if(m[i]) mem[x[i]]=a[i];', opts=['reads'] + ([] if impl == 'SimpleLoop' else ['unordered']), what='%s scatter of %s' % (impl, V))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
