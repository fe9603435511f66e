"""C06 stores and masked stores (all flags, converting stores)."""
from core import *
from families.compare import CFGS, EXTRA
from families.loads import FLAGS, regs
def dests(abi, t):
    """other element types the store member accepts"""
    ints = ['int', 'uint', 'short', 'ushort', 'schar', 'uchar', 'llong', 'ullong']
    if abi[0] == 'F': return []   # C06 known finding: no value conversion
    if abi == 'Sc': return [u for u in ints + ['float', 'double'] if u != t and not (t in FLOATS and u not in FLOATS and u not in INTS)]
    return [] if t in FLOATS else [u for u in ints if u != t]
def one(cfg, abi, t, w):
    N = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t); td = 'typedef %s V; typedef V::Mask M; V x=ldv<V>(a); ' % V
    for u in [t] + dests(abi, t):
        for nm, fl, al in FLAGS:
            if u != t and nm != '': continue
            a = IN(t, N, 'a', free=True); m = IN('bool', N, 'm', free=True)
            if t in FLOATS and u in INTS: a[1]['floor'] = BITS[u] if u[0] == 'u' else -BITS[u]
            r = OUT(u, N, 'r', align=max(BITS[u] // 8, regs(abi, cfg, t)) if al else BITS[u] // 8)
            args = 'r' + (',' + fl if fl else '')
            wh = 'with flags %s' % (fl or '(default)')
            mk(w, cfg, 'st%s_%s_%s' % (nm, u, id_), [a, r], td + 'x.store(%s);' % args, 'for(int i=0;i<%d;++i) r[i]=%s(a[i]);' % (N, u), opts=['reads'], what='store of %s to %s %s' % (V, u, wh))
            args = 'r,ldm<M>(m)' + (',' + fl if fl else '')
            if u != t and abi == 'Avx' and u not in INTS: continue  # no such overload
            mk(w, cfg, 'stm%s_%s_%s' % (nm, u, id_), [a, m, r], td + 'x.store(%s);' % args, 'for(int i=0;i<%d;++i) if(m[i]) r[i]=%s(a[i]);' % (N, u), opts=['reads'], what='masked store of %s to %s %s' % (V, u, wh))
    if abi[0] == 'F': return
    # stores through a class with a cast operator to EntryType*, assignment through lanes
    mk(w, cfg, 'stcls_' + id_, [IN(t, N, 'a'), OUT(t, N, 'r')], td + 'P p{r}; x.store(p);', 'for(int i=0;i<%d;++i) r[i]=a[i];' % N, opts=['reads'], pre='namespace { struct P_%s { %s *p; operator %s*() const { return p; } }; }' % (id_, t, t))
    w[-1].code = w[-1].code.replace('P p{r}', 'P_%s p{r}' % id_)
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
