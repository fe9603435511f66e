"""C25 Random(): output and state recurrence of every type, ABI and ISA level from an arbitrary generator state."""
from core import *
from families.compare import CFGS, EXTRA
import families.simdshape as shp
PRE = 'uint*R=Vc::Common::RandomState; '
STEP = 'n0=(s0*0xdeece66du+11u)^(s1>>16); n1=s1*0xdeece66du+11u; '
def sim(abi, t, cfg, off):
    """statements computing the lanes of one native Random() into r[off..] and advancing R"""
    n = size(abi, t)
    if t == 'double':
        if abi == 'Sc':
            return 'for(int i=0;i<1;++i) {ullong s; __builtin_memcpy(&s,R+8,8); s=(s*0x5deece66dull+11)&0xfffffffffffffull; __builtin_memcpy(R+8,&s,8); ullong x=s|0x3ff0000000000000ull; double f; __builtin_memcpy(&f,&x,8); r[%d]=f-1.;} ' % off
        base = 8 if abi == 'Sse' else 0
        return 'for(int i=0;i<%d;++i) {ullong s; __builtin_memcpy(&s,R+%d+2*i,8); ullong x=s>>12|0x3ff0000000000000ull; double f; __builtin_memcpy(&f,&x,8); r[%d+i]=f-1.; s=s*0x5deece66dull+11; __builtin_memcpy(R+%d+2*i,&s,8);} ' % (n, base, off, base)
    words = 1 if abi == 'Sc' else 4 if abi == 'Sse' else 8
    s = 'for(int i=0;i<%d;++i) {uint s0=R[i],s1=R[%d+i],n0,n1; %s R[i]=n0; R[%d+i]=n1; ' % (words, words, STEP, words)
    if t == 'float':
        m = '(s0&0x7fffff)' if abi == 'Sc' else '((s0>>2)&0x7fffff)'
        s += 'uint x=%s|0x3f800000u; float f; __builtin_memcpy(&f,&x,4); r[%d+i]=f-1.f;} ' % (m, off)
    elif TYPES[t] == 4: s += 'r[%d+i]=%s(s0);} ' % (off, t)
    elif abi == 'Sc': s += 'r[%d]=%s(s0);} ' % (off, t)
    else: s += 'r[%d+2*i]=%s(s0); r[%d+2*i+1]=%s(s0>>16);} ' % (off, t, off, t)
    return s
def pieces(cfg, t, n):
    nat = {size(a, t): a for a in (['Sc'] if cfg == 'scalar' else ['Sc'] + [x for x in abis(cfg) if t in abi_types(cfg, x)])}
    if n in nat and (n > 1 or True): return [nat[n]]
    l = 1
    while l * 2 < n: l *= 2
    return pieces(cfg, t, l) + pieces(cfg, t, n - l)
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg) + ([] if cfg == 'scalar' else ['Sc']):
            for t in (abi_types(cfg, abi) if abi != 'Sc' else list(TYPES)):
                n = size(abi, t)
                mk(w, cfg, 'rnd_%s_%s' % (abi, t), [OUT(t, n, 'r')], 'typedef Vx<%s,A::%s> V; V x=V::Random(); stv(r,x);' % (t, abi), PRE + sim(abi, t, cfg, 0), what='Random() of %s %s' % (abi, t))
                mk(w, cfg, 'rnd2_%s_%s' % (abi, t), [OUT(t, 2 * n, 'r')], 'typedef Vx<%s,A::%s> V; V x=V::Random(); stv(r,x); V y=V::Random(); stv(r+%d,y);' % (t, abi, n), PRE + sim(abi, t, cfg, 0) + sim(abi, t, cfg, n), what='two calls of Random() of %s %s' % (abi, t))
        for t in TYPES:
            for n in (1, 2, 3, 4, 5, 8, 12, 16) + ((7, 24, 32) if tier == 'thorough' else ()):
                if (t == 'double' and n in (3, 5, 7)) or (cfg == 'scalar' and n > 4): continue
                s = ''; off = 0
                for a in pieces(cfg, t, n): s += sim(a, t, cfg, off); off += size(a, t)
                mk(w, cfg, 'rndsa_%s_%d' % (t, n), [OUT(t, n, 'r')], 'typedef Vc::SimdArray<%s,%d> V; V x=V::Random(); x.store(r,Vc::Unaligned);' % (t, n), PRE + s, what='Random() of SimdArray<%s,%d>' % (t, n))
    return w
