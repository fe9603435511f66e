"""C36: stream output of vectors, masks, SimdArrays and Memory objects as the sequence of characters and lane values."""
from core import *
HEADER = 'wit_io.h'
CFGS = ('scalar', 'sse2', 'sse41', 'avx', 'avx2')
def vec(w, cfg, abi, t, arr=False):
    n = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); M = 'Mx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    if arr: V = 'Vc::SimdArray<%s,%d>' % (t, n); M = 'Vc::SimdMaskArray<%s,%d>' % (t, n); id_ = 'S%d_%s' % (n, t)
    a = IN(t, n, 'a'); b = IN('bool', n, 'b'); S = 'std::vc_stream o; '
    if arr: sv = "o<<'<'<<a[0]; for(int i=1;i<%d;++i) {if(i%%4==0) o<<\" |\"; o<<' '<<a[i];} o<<'>';" % n
    else: sv = "o<<'['<<a[0]; for(int i=1;i<%d;++i) o<<','<<' '<<a[i]; o<<']';" % n
    mk(w, cfg, 'vec_' + id_, [a], S + 'const %s v=ldv<%s>(a); auto &q=(o<<v); q<<\';\';' % (V, V), S + sv + "o<<';';", what='output of ' + V)
    sm = "for(int i=0;i<%d;++i) {if(i&&i%%4==0) o<<' '; if(b[i]) cb_one(); else cb_zero();} " % n
    mk(w, cfg, 'mask_' + id_, [b], S + 'const %s m=ldm<%s>(b); auto &q=(o<<m); q<<\';\';' % (M, M), S + ('o<<"\u00ab"; %s o<<"\u00bb;";' if arr else 'o<<"m["; %s o<<"];";') % sm, what='output of ' + M)
def mem(w, cfg, abi, t, N):
    n = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); P = (N + n - 1) // n * n; al = max(n * TYPES[t], TYPES[t])
    a = IN(t, P, 'a', align=al); S = 'std::vc_stream o; o.space=false; '
    out = "o<<'{'; for(int v=0;v<%d;v+=%d) {o<<'['<<a[v]; for(int i=1;i<%d;++i) o<<','<<a[v+i]; o<<']';} o<<'}'<<';';"
    mk(w, cfg, 'mem_%s_%s_%d' % (abi, t, N), [a], S + 'const auto &m=*(const Vc::Memory<%s,%d>*)a; (o<<m)<<\';\';' % (V, N), S + out % (P, n, n), what='output of Memory<%s,%d>, spaces aside' % (V, N))
    a2 = IN(t, 3 * P, 'a', align=al)
    mk(w, cfg, 'mem2_%s_%s_%d' % (abi, t, N), [a2], S + 'const auto &m=*(const Vc::Memory<%s,3,%d>*)a; (o<<m)<<\';\';' % (V, N), S + out % (3 * P, n, n), what='output of Memory<%s,3,%d>, spaces aside' % (V, N))
def witnesses(tier):
    w = []
    for cfg in CFGS + (('sse3', 'ssse3', 'sse42', 'clang-sse2', 'clang-avx2') if tier == 'thorough' else ()):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi):
                vec(w, cfg, abi, t)
                n = size(abi, t)
                for N in sorted({1, n, n + 1, 2 * n}): mem(w, cfg, abi, t, N)
        for N in (1, 2, 3, 4, 5, 7, 8, 9, 16) + ((12, 17, 24, 31) if tier == 'thorough' else ()):
            for t in TYPES: vec(w, cfg, 'F%d' % N, t); vec(w, cfg, 'F%d' % N, t, True)
    return w
