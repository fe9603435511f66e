"""C16 interleaved (array-of-structs) access: gather+deinterleave, interleave+scatter, through indexes or consecutive; free functions."""
from core import *
from families.compare import CFGS, EXTRA
CHUNK = 40
BF = '%s'
def one(cfg, abi, t, w, tier, fixed=False):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    F = 'for(int i=0;i<%d;++i) ' % N
    sizes = range(2, 9)
    for K in sizes:
        structs = sorted({K, K + 1, 8, 16} | ({4, 12, 32, 48} if K == 2 else set())) if tier == 'thorough' else ([2, 3, 4, 8, 16, 32] if K == 2 else [K] if K in (4, 8) else [K, K + 1])
        structs = [s for s in structs if s >= K]
        if fixed: structs = [K]
        for S in structs:
            i = '%d_%d_%s' % (S, K, id_)
            pre = 'struct S_%s { %s m[%d]; };' % (i, t, S)
            td = 'typedef %s V; typedef S_%s St; ' % (V, i)
            vs = ['v%d' % k for k in range(K)]
            outs = [OUT(t, N, 'o%d' % k) for k in range(K)]
            ins = [IN(t, N, 'a%d' % k, free=True) for k in range(K)]
            dv = 'V %s; ' % ','.join(vs)
            lv = 'V %s; ' % ','.join('v%d=ldv<V>(a%d)' % (k, k) for k in range(K))
            st = ' '.join('stv(o%d,v%d);' % (k, k) for k in range(K))
            T = 'Vc::tie(%s)' % ','.join(vs)
            X = IN('int', N, 'x', lim=24, free=True); mem = IN(t, None, 'mem', neg=1 << 40, regions=True); dst = OUT(t, None, 'mem', neg=1 << 40, regions=True)
            ix = 'V::IndexType j=ldv<V::IndexType>(x); '
            rd = F + '{const %s*p=mem+(int)((uint)x[i]*%du); %s __vc_touch(p,%d);}' % (t, S, ' '.join('o%d[i]=p[%d];' % (k, k) for k in range(K)), S * BITS[t] // 8)
            wr = F + '{%s*p=mem+(int)((uint)x[i]*%du); %s}' % (t, S, ' '.join('p[%d]=a%d[i];' % (k, k) for k in range(K)))
            what = '%d of %d members, %s' % (K, S, V)
            def m(name, ps, code, spec, opts, wh): mk(w, cfg, name + i, ps, code, spec, opts=opts, what=wh + ' ' + what, pre=pre if m.first else ''); m.first = False
            m.first = True
            P = lambda c: td + 'auto d=Vc::make_interleave_wrapper<V>((%sSt*)mem); ' % c
            pre_ = pre
            def put(name, ps, code, spec, opts, wh):
                mk(w, cfg, name + i, ps, code, spec, opts=opts, what=wh + ' ' + what, pre='#ifndef D_%s\n#define D_%s\n%s\n#endif' % (i, i, pre))
            put('ig_', [mem, X] + outs, P('const ') + ix + dv + T + '=d[j]; ' + st, rd, ['reads'], 'deinterleaving gather of')
            put('is_', [dst, X] + ins, P('') + ix + lv + 'd[j]=' + T + ';', wr, ['reads'], 'interleaving scatter of')
            SC_ = SC('ullong', 'first')
            rd1 = F + '{const %s*p=mem+(first+i)*%d; %s __vc_touch(p,%d);}' % (t, S, ' '.join('o%d[i]=p[%d];' % (k, k) for k in range(K)), S * BITS[t] // 8)
            wr1 = F + '{%s*p=mem+(first+i)*%d; %s}' % (t, S, ' '.join('p[%d]=a%d[i];' % (k, k) for k in range(K)))
            put('cg_', [mem, SC_] + outs, P('const ') + dv + T + '=d[size_t(first)]; ' + st, rd1, ['reads'], 'consecutive deinterleaving load of')
            put('cs_', [dst, SC_] + ins, P('') + lv + 'd[size_t(first)]=' + T + ';', wr1, ['reads'], 'consecutive interleaving store of')
            if K in (2, 3, 5) and S == K and not fixed:
                tt = ','.join(['V'] * K)
                put('tg_', [mem, X] + outs, P('const ') + ix + 'std::tuple<%s> r=d.gather(j); ' % tt + ' '.join('stv(o%d,std::get<%d>(r));' % (k, k) for k in range(K)), rd, ['reads'], 'tuple conversion of the gather of')
                put('ng_', [mem, X] + outs, 'typedef S_%s St; typedef %s V; ' % (i, V) + 'Vc::InterleavedMemoryWrapper<St,V> d((St*)mem); ' + ix + dv + T + '=d[j]; ' + st, rd, ['reads'], 'deinterleaving gather (non-const wrapper) of')
def free(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    F = 'for(int i=0;i<%d;++i) ' % N
    a = IN(t, N, 'a', free=True); b = IN(t, N, 'b', free=True); r = OUT(t, N, 'r'); s = OUT(t, N, 's')
    td = 'typedef %s V; ' % V
    if abi != 'Sc':
        mk(w, cfg, 'ip_' + id_, [a, b, r, s], td + 'auto p=Vc::interleave(ldv<V>(a),ldv<V>(b)); stv(r,p.first); stv(s,p.second);',
           'for(int i=0;i<%d;++i) (i<%d?r[i]:s[i-%d])=(i&1)?b[i/2]:a[i/2];' % (2 * N, N, N), what='Vc::interleave of %s' % V)
    if abi == 'Sc': return
    combos = {'float': ['float', 'short', 'ushort'], 'double': ['double'], 'int': ['int', 'short'], 'uint': ['uint', 'ushort'], 'short': ['short'], 'ushort': ['ushort']}
    for u in combos[t]:
        for al in ('Vc::Aligned', 'Vc::Unaligned', None):
            nm = 'di_%s_%s_%s' % (u, id_, 'def' if al is None else al[4:])
            kw = {} if al == 'Vc::Unaligned' else {'align': 64}
            mem = IN(u, 2 * N, 'mem', **kw)
            mk(w, cfg, nm, [mem, r, s], td + 'V x,y; Vc::deinterleave(&x,&y,mem%s); stv(r,x); stv(s,y);' % ('' if al is None else ',' + al),
               F + '{r[i]=%s(mem[2*i]); s[i]=%s(mem[2*i+1]);}' % (t, t), opts=['reads'], what='Vc::deinterleave of %s from %s %s' % (V, u, al))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi):
                one(cfg, abi, t, w, tier); free(cfg, abi, t, w)
    for cfg in ('sse2', 'avx2'):
        for t in TYPES: one(cfg, 'F%d' % (16 // TYPES[t]), t, w, tier, True)
    return w
