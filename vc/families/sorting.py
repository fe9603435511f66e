"""C11 sorted(): every comparator network, through the threshold (0-1) images of its values."""
from core import *
from families.compare import CFGS, EXTRA
from families.casts import allabis
LIBS = ('const.cpp', 'sse_sorthelper.cpp', 'avx_sorthelper.cpp')
def one(cfg, abi, t, w):
    N = size(abi, t)
    V = 'Vx<%s,A::%s>' % (t, abi); id_ = '%s_%s' % (abi, t)
    spec = '%s v[%d]; for(int i=0;i<%d;++i) v[i]=a[i]; for(int k=0;k<%d;++k) for(int i=0;i<%d;++i) if(i+1<%d-k){ %s x=v[i],y=v[i+1]; v[i]=x<y?x:y; v[i+1]=x<y?y:x; } for(int i=0;i<%d;++i) r[i]=v[i];' % (t, N, N, N, N, N, t, N)
    mk(w, cfg, 'sorted_%s' % id_, [IN(t, N, 'a'), OUT(t, N, 'r')], 'typedef %s V; V x=ldv<V>(a); stv(r,x.sorted());' % V, spec, opts=('order',), what='%s::sorted()' % V)
def witnesses(tier):
    w = []
    for cfg in CFGS + EXTRA:
        for abi in allabis(cfg):
            for t in abi_types(cfg, abi): one(cfg, abi, t, w)
    return w
