"""C18 Memory containers (fixed, two-dimensional, dynamic): every access path addresses one linear element sequence."""
from core import *
from families.compare import CFGS, EXTRA
import families.simdshape as shp
HEADER = 'wit_mem.h'
CHUNK = 30
def sizes(S, tier):
    q = [S + 1, 5 * S - (1 if S > 1 else 0)]
    return sorted(set(q + ([1, S, 2 * S, 4 * S, 8 * S + 1] if tier == 'thorough' else [1])))
def one(cfg, V, tag, t, S, N, w):
    sz = TYPES[t]; PS = (N + S - 1) // S * S; VC = PS // S; al = S * sz if (S & (S - 1)) == 0 else 32 if cfg == 'avx2' else 16
    al = min(al, 32)
    Mt = 'Vc::Memory<V,%d>' % N
    td = 'typedef %s V; typedef %s MM; ' % (V, Mt)
    mem = lambda n='mem': ('%s*%s' % (t, n), {'name': n, 'elem': sz, 'size': PS * sz, 'align': al})
    cmem = lambda n='mem': ('const %s*%s' % (t, n), {'name': n, 'elem': sz, 'size': PS * sz, 'align': al})
    obj = td + 'MM &m=*(MM*)mem; const MM &cm=m; '
    cobj = td + 'const MM &m=*(const MM*)mem; '
    R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 24}); out = OUT(t, PS, 'r'); o1 = OUT(t, S, 'r'); a = IN(t, S, 'a')
    F = 'for(int i=0;i<%d;++i) ' % S; FP = 'for(int i=0;i<%d;++i) ' % PS
    id_ = '%s_%s_%d' % (tag, t, N); isf = t in FLOATS
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, '%s_%s' % (nm, id_), ps, i, s, what='Memory<%s,%d> %s' % (V, N, what), **k)
    b = max(1, (VC - 1).bit_length()); k = CTL('k', b); kk = '__vc_assume(k<%d); ' % VC
    bp = max(1, (PS - S).bit_length()); p = CTL('k', bp); pp = '__vc_assume(k<=%d); ' % (PS - S)
    be = max(1, (N - 1).bit_length()); e = CTL('k', be); ee = '__vc_assume(k<%d); ' % N
    W('sz', [mem(), R], obj + 'r[0]=m.entriesCount(); r[1]=m.vectorsCount(); put(r,2,m.entries()); put(r,3,cm.entries()); put(r,4,(%s*)m); put(r,5,(const %s*)cm); put(r,6,m.begin().orderBy()); put(r,7,m.end().orderBy()); put(r,8,cm.begin().orderBy()); put(r,9,cm.end().orderBy()); '
      'put(r,10,&m.firstVector()); put(r,11,&m.lastVector()); put(r,12,&cm.firstVector()); put(r,13,&cm.lastVector()); put(r,14,m.begin(Vc::Unaligned).orderBy()); put(r,15,m.end(Vc::Unaligned).orderBy()); r[16]=sizeof(MM)>=%d; r[17]=m.end()-m.begin();' % (t, t, PS * sz),
      '%s*q[]={0,0,mem,mem,mem,mem,mem,mem+%d,mem,mem+%d,mem,mem+%d,mem,mem+%d,mem,mem+%d}; for(int i=2;i<16;++i) r[i]=(llong)q[i]; r[0]=%d; r[1]=%d; r[16]=1; r[17]=%d;' % (t, PS, PS, PS - S, PS - S, PS, N, VC, VC), 'sizes and ends')
    W('ad', [mem(), ('unsigned k', {'name': 'k'}), ('int h', {'name': 'h'}), R], obj + 'put(r,0,&m[k]); put(r,1,&m.scalar(k)); put(r,2,&cm[k]); put(r,3,&m.vector(k)); put(r,4,&cm.vector(k)); put(r,5,&m.vectorAt(k)); put(r,6,&cm.vectorAt(k)); put(r,7,&m.vector(k,h)); put(r,8,&cm.vector(k,h)); put(r,9,&m.vector(k,Vc::Unaligned)); put(r,10,&m.vectorAt(k,Vc::Aligned)); put(r,11,(m.begin()+k).orderBy()); put(r,12,&m.begin()[k]);',
      '__vc_assume(k<(1u<<24)&&h>=0&&h<%d); long long j=k; %s*q[]={mem+j,mem+j,mem+j,mem+j*%d,mem+j*%d,mem+j,mem+j,mem+j*%d+h,mem+j*%d+h,mem+j*%d,mem+j,mem+j*%d,mem+j*%d}; for(int i=0;i<13;++i) r[i]=(llong)q[i];' % ((S, t) + (S,) * 7), 'element, vector, shifted and iterator addresses')
    W('rd', [cmem(), k, o1], cobj + 'V v=m.vector(k); stv(r,v);', kk + F + 'r[i]=mem[k*%d+i];' % S, 'read vector(k)')
    W('rdu', [cmem(), k, o1], cobj + 'V v; v=m.vector(k,Vc::Unaligned).value(); stv(r,v);', kk + F + 'r[i]=mem[k*%d+i];' % S, 'read vector(k,Unaligned)')
    W('ra', [cmem(), p, o1], cobj + 'V v=m.vectorAt(k); stv(r,v);', pp + F + 'r[i]=mem[k+i];', 'read vectorAt(k)')
    W('wr', [mem(), k, a], obj + 'm.vector(k)=ldv<V>(a);', kk + F + 'mem[k*%d+i]=a[i];' % S, 'write vector(k)')
    W('wa', [mem(), p, a], obj + 'm.vectorAt(k)=ldv<V>(a);', pp + F + 'mem[k+i]=a[i];', 'write vectorAt(k)')
    W('ws', [mem(), k, SC(t, 's')], obj + 'm.vector(k)=s;', kk + F + 'mem[k*%d+i]=s;' % S, 'broadcast into vector(k)')
    W('we', [mem(), e, SC(t, 's')], obj + 'm[k]=s;', ee + 'mem[k]=s;', 'write element')
    if VC > 1:
        W('wh', [mem(), CTL('k', max(1, (VC - 2).bit_length())), CTL('h', max(1, (S - 1).bit_length())), a], obj + 'm.vector(k,int(h))=ldv<V>(a);', '__vc_assume(k<%d&&h<%d); ' % (VC - 1, S) + F + 'mem[k*%d+h+i]=a[i];' % S, 'write vector(k,shift)')
        W('rh', [cmem(), CTL('k', max(1, (VC - 2).bit_length())), CTL('h', max(1, (S - 1).bit_length())), o1], cobj + 'V v=m.vector(k,int(h)); stv(r,v);', '__vc_assume(k<%d&&h<%d); ' % (VC - 1, S) + F + 'r[i]=mem[k*%d+h+i];' % S, 'read vector(k,shift)')
        W('mc', [mem(), CTL('k', b), CTL('h', b)], obj + 'm.vector(k)=m.vector(h);', '__vc_assume(k<%d&&h<%d); %s x[%d]; ' % (VC, VC, t, S) + F + 'x[i]=mem[h*%d+i]; ' % S + F + 'mem[k*%d+i]=x[i];' % S, 'assign one vector of the container to another')
        W('bin', [cmem(), CTL('k', b), CTL('h', b), o1], cobj + 'stv(r,V(m.vector(k)-m.vector(h)));', '__vc_assume(k<%d&&h<%d); ' % (VC, VC) + F + 'r[i]=mem[k*%d+i]-mem[h*%d+i];' % (S, S), 'difference of two vectors of the container')
        W('bcm', [cmem(), CTL('k', b), CTL('h', b), OUT('bool', S, 'r')], cobj + 'stm(r,m.vector(k)<m.vector(h));', '__vc_assume(k<%d&&h<%d); ' % (VC, VC) + F + 'r[i]=mem[k*%d+i]<mem[h*%d+i];' % (S, S), 'comparison of two vectors of the container')
    ops = ['+', '-', '*'] + ([] if isf else ['&', '|', '^'])
    for n, o in enumerate(ops): W('mo%d' % n, [mem(), k, a], obj + 'm.vector(k)%s=ldv<V>(a);' % o, kk + F + 'mem[k*%d+i]%s=a[i];' % (S, o), 'vector(k) %s=' % o)
    W('le', [mem(), k, CTL('h', max(1, (S - 1).bit_length())), SC(t, 's')], obj + 'm.vector(k)[h]=s;', '__vc_assume(k<%d&&h<%d); ' % (VC, S) + 'mem[k*%d+h]=s;' % S, 'element of vector(k)')
    W('it', [cmem(), out], cobj + 'int k=0; for(V v: m) {stv(r+k,v); k+=%d;}' % S, FP + 'r[i]=mem[i];', 'iteration over the vectors')
    W('iw', [mem(), out], obj + 'int k=0; for(auto &v: m) {v=ldv<V>(r+k); k+=%d;}' % S, FP + 'mem[i]=r[i];', 'writing iteration over the vectors')
    W('rg', [mem(), CTL('k', b), CTL('h', b), out], obj + 'int n=0; auto g=m.range(k,h,Vc::Aligned); for(auto i=g.begin();i!=g.end();++i) {V v=*i; stv(r+n,v); n+=%d;}' % S, '__vc_assume(h<%d&&k<=h); for(int i=0;i<int(h-k+1)*%d;++i) r[i]=mem[k*%d+i];' % (VC, S, S), 'range(first,last)')
    W('rc', [cmem(), CTL('k', b), CTL('h', b), out], cobj + 'int n=0; auto g=m.range(k,h,Vc::Aligned); for(auto i=g.begin();i!=g.end();++i) {V v=*i; stv(r+n,v); n+=%d;}' % S, '__vc_assume(h<%d&&k<=h); for(int i=0;i<int(h-k+1)*%d;++i) r[i]=mem[k*%d+i];' % (VC, S, S), 'range(first,last) of a constant container')
    # whole-container operations
    x = cmem('x'); xo = td + 'const MM &x_=*(const MM*)x; MM &m=*(MM*)mem; '
    W('z', [mem()], obj + 'm.setZero();', FP + 'mem[i]=0;', 'setZero')
    W('av', [mem(), a], obj + 'm=ldv<V>(a);', FP + 'mem[i]=a[i%%%d];' % S, 'assign a vector to all')
    W('ap', [mem(), IN(t, N, 'a')], obj + 'm=a;', 'for(int i=0;i<%d;++i) mem[i]=a[i];' % N, 'assign from an array')
    W('am', [mem(), x], xo + 'm=x_;', FP + 'mem[i]=x[i];', 'assign a container')
    W('cc', [mem(), x], xo + 'new(mem) MM(x_);', FP + 'mem[i]=x[i];', 'copy construction')
    if PS != N:
        W('cs', [mem(), x], td + 'const Vc::Memory<V,%d> &x_=*(const Vc::Memory<V,%d>*)x; new(mem) MM(x_);' % (PS, PS), FP + 'mem[i]=x[i];', 'copy construction from another size'); W('as', [mem(), x], td + 'const Vc::Memory<V,%d> &x_=*(const Vc::Memory<V,%d>*)x; *(MM*)mem=x_;' % (PS, PS), FP + 'mem[i]=x[i];', 'assignment from another size')
    W('dc', [mem()], td + 'new(mem) MM;', 'for(int i=%d;i<%d;++i) mem[i]=0;' % (PS - S, PS), 'default construction clears the last vector')
    n = max(1, N - 1)
    W('il', [mem(), IN(t, n, 'a')], td + 'new(mem) MM{%s};' % ','.join('a[%d]' % i for i in range(n)), 'for(int i=0;i<%d;++i) {if(i>=%d) mem[i]=0; if(i<%d) mem[i]=a[i];}' % (PS, PS - S, n), 'construction from an initializer list')
    W('rw', [mem(), e, R], td + 'auto &m=Vc::Memory<V,%d>::fromRawData(mem); put(r,0,&m[k]); r[1]=m.entriesCount();' % N, ee + 'r[0]=(llong)(mem+k); r[1]=%d;' % N, 'fromRawData')
    for q, o in enumerate(('+', '-', '*') + (('/',) if isf else ())):
        W('cm%d' % q, [mem(), x], xo + 'm%s=x_;' % o, FP + 'mem[i]%s=x[i];' % o, '%s= container' % o)
        W('cv%d' % q, [mem(), SC(t, 's')], obj + 'm%s=s;' % o, FP + 'mem[i]%s=s;' % o, '%s= scalar' % o)
    if PS <= 24:
        bo = OUT('bool', 6, 'r')
        W('cp', [cmem(), x, bo], td + 'const MM &m=*(const MM*)mem,&y=*(const MM*)x; r[0]=m==y; r[1]=m!=y; r[2]=m<y; r[3]=m<=y; r[4]=m>y; r[5]=m>=y;',
          'bool q[6]={1,1,1,1,1,1}; ' + FP + '{q[0]&=mem[i]==x[i]; q[1]&=mem[i]!=x[i]; q[2]&=mem[i]<x[i]; q[3]&=mem[i]<=x[i]; q[4]&=mem[i]>x[i]; q[5]&=mem[i]>=x[i];} for(int i=0;i<6;++i) r[i]=q[i];', 'comparisons hold exactly if they hold for every element', opts=['lanemajor'])
    # gather access
    hw = cfg in ('avx2', 'clang-avx2')
    X = lambda tt: IN(tt, S, 'j', free=True, lim=max(1, (PS - 1).bit_length()))
    T = ''
    for q, tt in enumerate(('uint', 'ushort', 'uchar')):
        if sz >= 4 and PS <= 20 and tag[0] != 'F': W('ga%d' % q, [cmem(), IN(tt, S, 'j', free=True), o1], cobj + 'stv(r,m.gather(j));', F + '__vc_assume(j[i]<%d); ' % N + F + 'r[i]=mem[j[i]];', 'gather(const %s*)' % tt)
def two(cfg, V, tag, t, S, R_, N, w):
    sz = TYPES[t]; PS = (N + S - 1) // S * S; VC = PS // S; al = min(S * sz, 32)
    tot = R_ * PS
    td = 'typedef %s V; typedef Vc::Memory<V,%d,%d> MM; ' % (V, R_, N)
    mem = lambda n='mem': ('%s*%s' % (t, n), {'name': n, 'elem': sz, 'size': tot * sz, 'align': al})
    cmem = lambda n='mem': ('const %s*%s' % (t, n), {'name': n, 'elem': sz, 'size': tot * sz, 'align': al})
    obj = td + 'MM &m=*(MM*)mem; const MM &cm=m; '; cobj = td + 'const MM &m=*(const MM*)mem; '
    R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 24}); o1 = OUT(t, S, 'r'); a = IN(t, S, 'a')
    id_ = '%s_%s_%dx%d' % (tag, t, R_, N)
    F = 'for(int i=0;i<%d;++i) ' % S; FP = 'for(int i=0;i<%d;++i) ' % tot
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, '%s_%s' % (nm, id_), ps, i, s, what='Memory<%s,%d,%d> %s' % (V, R_, N, what), **k)
    W('sz', [mem(), R], obj + 'r[0]=m.entriesCount(); r[1]=m.vectorsCount(); r[2]=m.rowsCount(); r[3]=m.rowCount(); r[4]=m[0].entriesCount(); r[5]=m[0].vectorsCount(); put(r,6,m.begin().orderBy()); put(r,7,m.end().orderBy()); put(r,8,m.entries()); r[9]=sizeof(MM)>=%d; put(r,10,&m.lastVector());' % (tot * sz),
      'r[0]=%d; r[1]=%d; r[2]=r[3]=%d; r[4]=%d; r[5]=%d; r[6]=(llong)mem; r[7]=(llong)(mem+%d); r[8]=(llong)mem; r[9]=1; r[10]=(llong)(mem+%d);' % (R_ * N, R_ * VC, R_, N, VC, tot, tot - S), 'sizes and ends')
    W('ad', [mem(), ('unsigned q', {'name': 'q'}), ('unsigned k', {'name': 'k'}), R], obj + 'put(r,0,&m[q][k]); put(r,1,&m.scalar(q,k)); put(r,2,m.entries(q)+k); put(r,3,cm.entries(q)+k); put(r,4,&cm[q][k]); put(r,5,&m[q].vector(k)); put(r,6,&m.vector(k)); put(r,7,&m.vectorAt(k));',
      '__vc_assume(q<%d&&k<(1u<<20)); %s*b=mem+q*%d,*z[]={b+k,b+k,b+k,b+k,b+k,b+k*%d,mem+k*%d,mem+k}; for(int i=0;i<8;++i) r[i]=(llong)z[i];' % (R_, t, PS, S, S), 'row, element and vector addresses')
    bv = max(1, (R_ * VC - 1).bit_length()); k = CTL('k', bv)
    W('rd', [cmem(), k, o1], cobj + 'V v=m.vector(k); stv(r,v);', '__vc_assume(k<%d); ' % (R_ * VC) + F + 'r[i]=mem[k*%d+i];' % S, 'read vector(k)')
    W('wr', [mem(), CTL('q', max(1, (R_ - 1).bit_length())), CTL('k', max(1, (VC - 1).bit_length())), a], obj + 'm[q].vector(k)=ldv<V>(a);', '__vc_assume(q<%d&&k<%d); ' % (R_, VC) + F + 'mem[q*%d+k*%d+i]=a[i];' % (PS, S), 'write row vector(k)')
    x = cmem('x'); xo = td + 'const MM &x_=*(const MM*)x; MM &m=*(MM*)mem; '
    W('z', [mem()], obj + 'm.setZero();', FP + 'mem[i]=0;', 'setZero'); W('av', [mem(), a], obj + 'm=ldv<V>(a);', FP + 'mem[i]=a[i%%%d];' % S, 'assign a vector to all')
    W('am', [mem(), x], xo + 'm=x_;', FP + 'mem[i]=x[i];', 'assign a container'); W('cm', [mem(), x], xo + 'm+=x_;', FP + 'mem[i]+=x[i];', '+= container'); W('cv', [mem(), SC(t, 's')], obj + 'm-=s;', FP + 'mem[i]-=s;', '-= scalar')
    W('it', [cmem(), OUT(t, tot, 'r')], cobj + 'int k=0; for(V v: m) {stv(r+k,v); k+=%d;}' % S, FP + 'r[i]=mem[i];', 'iteration over the vectors')
def dyn(cfg, V, tag, t, S, w, maxn):
    sz = TYPES[t]; al = min(S * sz, 32) if (S & (S - 1)) == 0 else 32 if cfg == 'avx2' else 16
    td = 'typedef %s V; typedef Vc::Memory<V> MM; ' % V
    id_ = '%s_%s' % (tag, t)
    bits = maxn.bit_length()
    n = CTL('n', bits, 'size_t'); nn = '__vc_assume(n<=%d); ' % maxn
    mem = ('%s*mem' % t, {'name': 'mem', 'elem': sz, 'size': (maxn + S) * sz, 'align': 64, })
    R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 24})
    P = 'size_t p=(n+%d)/%d*%d; ' % (S - 1, S, S)
    W = lambda nm, ps, i, s, what, **k: mk(w, cfg, '%s_%s' % (nm, id_), ps, i, s, what='Memory<%s> %s' % (V, what), **k)
    W('dn', [mem, n, R], td + 'setup(mem); {MM m(n); r[0]=granted(V::MemoryAlignment,m.vectorsCount()*%d); r[1]=m.entriesCount(); r[2]=m.vectorsCount(); put(r,3,m.entries()); put(r,4,m.begin().orderBy()); put(r,5,m.end().orderBy()); r[6]=env.frees; } r[7]=env.frees; put(r,8,(char*)env.freed); done();' % (S * sz),
      nn + P + 'for(int i=0;p&&i<%d;++i) mem[p-%d+i]=0; r[0]=1; r[1]=n; r[2]=p/%d; r[3]=r[4]=(llong)mem; r[5]=(llong)(mem+p); r[6]=0; r[7]=1; r[8]=(llong)mem;' % (S, S, S), 'allocation, sizes, cleared padding and release')
    x = ('const %s*x' % t, {'name': 'x', 'elem': sz, 'size': (maxn + S) * sz, 'align': 64})
    fx = (5 * S + 2)
    if tag[0] != 'S' or True:
        FN = 4 * S + 1; FP_ = 5 * S
        xx = ('const %s*x' % t, {'name': 'x', 'elem': sz, 'size': FP_ * sz, 'align': al}); mm = ('%s*mem' % t, {'name': 'mem', 'elem': sz, 'size': FP_ * sz, 'align': 64})
        W('cp', [mm, xx, R], td + 'typedef Vc::Memory<V,%d> FM; setup(mem); {MM m(*(const FM*)x); r[0]=granted(V::MemoryAlignment,m.vectorsCount()*%d); r[1]=m.entriesCount(); r[2]=m.vectorsCount(); put(r,3,m.entries());} r[4]=env.frees; put(r,5,(char*)env.freed); done();' % (FN, S * sz),
          'for(int i=0;i<%d;++i) mem[i]=x[i]; r[0]=1; r[1]=%d; r[2]=5; r[3]=(llong)mem; r[4]=1; r[5]=(llong)mem;' % (FP_, FN), 'copy of a fixed container')
        m2 = ('%s*b' % t, {'name': 'b', 'elem': sz, 'size': FP_ * sz, 'align': 64})
        W('cd', [mm, m2, xx, R], td + 'typedef Vc::Memory<V,%d> FM; setup(mem); {MM m(*(const FM*)x); setup(b); MM c(m); r[0]=granted(V::MemoryAlignment,c.vectorsCount()*%d); r[1]=c.entriesCount(); r[2]=c.vectorsCount(); put(r,3,c.entries()); m.swap(c); put(r,4,m.entries()); put(r,5,c.entries()); } r[6]=env.frees; done();' % (FN, S * sz),
          'for(int i=0;i<%d;++i) mem[i]=b[i]=x[i]; r[0]=1; r[1]=%d; r[2]=5; r[3]=(llong)b; r[4]=(llong)b; r[5]=(llong)mem; r[6]=2;' % (FP_, FN), 'copy and swap of dynamic containers')
        W('sw', [mm, m2, R], td + 'setup(mem); MM *m=(MM*)__builtin_alloca(sizeof(MM)),*c=(MM*)__builtin_alloca(sizeof(MM)); new(m) MM(%d); setup(b); new(c) MM(%d); std::swap(*m,*c); r[0]=m->entriesCount(); r[1]=c->entriesCount(); r[2]=m->vectorsCount(); r[3]=c->vectorsCount(); put(r,4,m->entries()); put(r,5,c->entries()); done();' % (FN, S),
          'for(int i=0;i<%d;++i) {mem[%d+i]=0; b[i]=0;} r[0]=%d; r[1]=%d; r[2]=1; r[3]=5; r[4]=(llong)b; r[5]=(llong)mem;' % (S, FP_ - S, S, FN), 'swap of containers of different size')
        W('dw', [mm, IN(t, FN, 'a'), CTL('k', 3), IN(t, S, 'v'), OUT(t, S, 'r')], td + 'setup(mem); {MM m(%d); m=a; m.vector(k)+=ldv<V>(v); V z=m.vector(k); stv(r,z);} done();' % FN,
          '__vc_assume(k<4); for(int i=0;i<%d;++i) mem[i]=i<%d?a[i]:%s(0); for(int i=0;i<%d;++i) {mem[k*%d+i]+=v[i]; r[i]=mem[k*%d+i];}' % (FP_, FN, t, S, S, S), 'fill, modify and read back')
        W('da', [mm, xx], td + 'typedef Vc::Memory<V,%d> FM; setup(mem); {MM m(%d); m=*(const FM*)x; m*=%s(3);} done();' % (FN, FN, t), 'for(int i=0;i<%d;++i) {mem[i]=x[i]; mem[i]*=%s(3);}' % (FP_, t), 'assignment and scaling')
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for abi in abis(cfg):
            for t in abi_types(cfg, abi):
                S = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi)
                for N in sizes(S, tier): one(cfg, V, abi, t, S, N, w)
                two(cfg, V, abi, t, S, 3, S + 1, w)
                if tier == 'thorough': two(cfg, V, abi, t, S, 2, 2 * S, w); two(cfg, V, abi, t, S, 4, 1, w)
                dyn(cfg, V, abi, t, S, w, min(2 * S + 1, 15))
    for cfg, t, S, N in (('sse2', 'float', 8, 11), ('sse2', 'float', 12, 20), ('sse2', 'int', 12, 25), ('sse2', 'short', 24, 40), ('avx2', 'float', 24, 40), ('avx2', 'double', 8, 9), ('avx2', 'int', 24, 28), ('scalar', 'float', 3, 4), ('scalar', 'int', 5, 11)):
        V = 'Vc::SimdArray<%s,%d>' % (t, S)
        one(cfg, V, 'F%d' % S, t, S, N, w); dyn(cfg, V, 'F%d' % S, t, S, w, min(2 * S + 1, 15) if S < 13 else 31)
    return w
def statics(tier):
    r = []
    for cfg in CFGS:
        for abi in abis(cfg):
            for t in abi_types(cfg, abi):
                S = size(abi, t); V = 'Vx<%s,A::%s>' % (t, abi)
                for N in (1, S, S + 1, 3 * S):
                    PS = (N + S - 1) // S * S
                    M = 'Vc::Memory<%s,%d>' % (V, N)
                    r.append(Static('a_%s_%s_%d' % (abi, t, N), 'alignof(%s)%%alignof(%s)==0&&sizeof(%s)==%d&&%s::entriesCount()==%d&&%s::vectorsCount()==%d' % (M, V, M, PS * TYPES[t], M, N, M, PS // S), cfg, 'alignment and padded size of ' + M))
                    M = 'Vc::Memory<%s,3,%d>' % (V, N)
                    r.append(Static('b_%s_%s_%d' % (abi, t, N), 'alignof(%s)%%alignof(%s)==0&&sizeof(%s)==%d&&%s::rowsCount()==3&&%s::vectorsCount()==%d' % (M, V, M, 3 * PS * TYPES[t], M, M, 3 * PS // S), cfg, 'alignment and padded size of ' + M))
    return r
