"""C28 transpose: every offered shape, distinct and in-place operands."""
from core import *
from families.compare import CFGS, EXTRA
def one(w, cfg, name, V, t, R, C, VO=None, inplace=True):
    # R input vectors of C lanes -> C output vectors of R lanes
    VO = VO or V
    ins = [IN(t, C, 'a%d' % k, free=True) for k in range(R)]
    outs = [OUT(t, R, 'o%d' % k) for k in range(C)]
    td = 'typedef %s V; typedef %s W; V %s; ' % (V, VO, ','.join('v%d' % k for k in range(R)))
    ld = ''.join('v%d.load(a%d,Vc::Unaligned); ' % (k, k) for k in range(R))
    st = lambda p: ''.join('%s%d.store(o%d,Vc::Unaligned); ' % (p, k, k) for k in range(C))
    spec = 'for(int i=0;i<%d;++i) {%s}' % (R, ''.join('o%d[i]=p[i][%d];' % (k, k) for k in range(C)))
    spec = 'const %s*p[]={%s}; ' % (t, ','.join('a%d' % k for k in range(R))) + spec
    tie = lambda p, n: 'Vc::tie(%s)' % ','.join('%s%d' % (p, k) for k in range(n))
    arg = ','.join('v%d' % k for k in range(R))
    mk(w, cfg, 'tr_' + name, ins + outs, td + 'W %s; ' % ','.join('w%d' % k for k in range(C)) + ld + tie('w', C) + '=Vc::transpose(%s); ' % arg + st('w'), spec, what='transpose of %d %s' % (R, V))
    if VO == V and R == C:
        mk(w, cfg, 'ti_' + name, ins + outs, td + ld + tie('v', C) + '=Vc::transpose(%s); ' % arg + st('v'), spec, what='in-place transpose of %d %s' % (R, V))
        mk(w, cfg, 'tp_' + name, ins + outs, td + 'W %s; ' % ','.join('w%d' % k for k in range(C)) + ld + 'auto p=Vc::transpose(%s); ' % arg + tie('w', C) + '=std::move(p); ' + st('w'), spec, what='transpose of %d %s through a stored proxy' % (R, V))
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        if cfg != 'scalar':
            one(w, cfg, 'sse_float', 'Vx<float,A::Sse>', 'float', 4, 4)
            one(w, cfg, 'sa_float', 'Vc::SimdArray<float,4>', 'float', 4, 4)
        one(w, cfg, 'sc_float', 'Vx<float,A::Sc>', 'float', 1, 1)
        for t in TYPES:
            S = lambda n: 'Vc::SimdArray<%s,%d,Vc::Scalar::Vector<%s>,1>' % (t, n, t)
            if cfg == 'scalar':
                one(w, cfg, 'sc4_' + t, 'Vc::SimdArray<%s,4>' % t, t, 4, 4)
                one(w, cfg, 'sc24_' + t, 'Vc::SimdArray<%s,2>' % t, t, 4, 2, VO='Vc::SimdArray<%s,4>' % t)
    return w
