"""C19 aligned storage: Vc::malloc/free, Allocator and the std::allocator specialisations, class-level operator new/delete, aligned base classes, make_unique."""
from core import *
from families.compare import CFGS, EXTRA
HEADER = 'wit_alloc.h'
CHUNK = 40
def classes(cfg, tier):
    r = []
    for abi in abis(cfg):
        for t in abi_types(cfg, abi):
            if tier == 'quick' and t in ('uint', 'ushort'): continue
            r += [('V%s_%s' % (abi, t), 'Vx<%s,A::%s>' % (t, abi)), ('M%s_%s' % (abi, t), 'Vx<%s,A::%s>::mask_type' % (t, abi))]
    for t, n in (('float', 8), ('double', 8), ('int', 24), ('short', 3), ('float', 3), ('ushort', 12)):
        r += [('F_%s%d' % (t, n), 'Vc::SimdArray<%s,%d>' % (t, n)), ('K_%s%d' % (t, n), 'Vc::SimdMaskArray<%s,%d>' % (t, n))]
    return r
SCAL = [('char', 'char'), ('S3', 'S3'), ('short', 'short'), ('float', 'float'), ('double', 'double'), ('S24', 'S24'), ('C64', 'C64'), ('C128', 'C128')]
R = ('llong*r', {'name': 'r', 'elem': 8, 'size': 8 * 16})
n64 = ('size_t n', {'name': 'n'})
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        cl = classes(cfg, tier)
        for id_, T in SCAL + cl:
            W = lambda nm, ps, i, s, what, **k: mk(w, cfg, nm + '_' + id_, ps, 'typedef %s T; ' % T + i, 'typedef %s T; ' % T + s, what=what + ' of ' + T, **k)
            hs = [0, 1, 2, 3] if id_ not in ('C128',) and id_[0] not in 'FK' else [0, 1, 2, 3, 5, 7]
            if tier == 'quick' and id_[0] in 'VM': hs = [0, 1]
            for h in hs:
                mem = ('char*mem', {'name': 'mem', 'elem': 1, 'size': 1 << 16, 'neg': -16 * h, 'align': 4096, 'scratch': True})
                for nm, A in ((('al', 'Vc::Allocator<T>'),) + ((('sa', 'std::allocator<T>'),) if id_[0] in 'VMFK' else ())):
                    W('%s%d' % (nm, h), [mem, n64, R], 'typedef %s AA; AA a; setup(mem+%d); T*p=std::allocator_traits<AA>::allocate(a,n); r[0]=inside(p,n*sizeof(T),alignof(T)); r[1]=env.calls; std::allocator_traits<AA>::deallocate(a,p,n); r[2]=env.frees; put(r,3,(char*)env.freed); done();' % (A, 16 * h),
                      '__vc_assume(n<=(~size_t(0)-4096)/sizeof(T)); r[0]=r[1]=r[2]=1; r[3]=(llong)(mem+%d);' % (16 * h), '%s: block holds n objects, aligned, and is released as obtained (base address %d mod 128)' % (A, 16 * h))
                    if h == 0:
                        W('%sx' % nm, [mem, n64, R], 'typedef %s AA; AA a; setup(mem); T*p=a.allocate(n); r[0]=n<=~size_t(0)/sizeof(T)&&inside(p,n*sizeof(T),alignof(T)); done();' % A,
                          '__vc_assume(n>(~size_t(0)-4096)/sizeof(T)); r[0]=1;', A + ': close to the largest size the block holds n objects or allocate throws', opts=('throwok',))
                        if T != 'char' and id_[:3] != 'MSc': W('%st' % nm, [mem, n64, R], 'typedef %s AA; AA a; setup(mem); T*p=a.allocate(n); r[0]=1; done();' % A, '__vc_assume(n>~size_t(0)/sizeof(T)); throw 1;', A + ': sizes that cannot be represented throw', opts=('notouch',))
        # Vc::malloc and Vc::free
        for id_, T in SCAL + ([c for c in cl if c[0][0] == 'V'][:4]):
            mem = ('char*mem', {'name': 'mem', 'elem': 1, 'size': 64, 'align': 4096})
            for A, al in (('AlignOnVector', 'Vc::VectorAlignment'), ('AlignOnCacheline', '64'), ('AlignOnPage', '4096')):
                W = lambda nm, ps, i, s, what, **k: mk(w, cfg, nm + '_%s_%s' % (id_, A), ps, 'typedef %s T; ' % T + i, 'typedef %s T; ' % T + s, what='Vc::malloc<%s,%s>: ' % (T, A) + what, **k)
                W('ma', [mem, n64, R], 'setup(mem); T*p=Vc::malloc<T,Vc::%s>(n); r[0]=!p||((char*)p==mem&&n<=~size_t(0)/sizeof(T)&&granted(%s,n*sizeof(T))&&env.size%%%s==0); done();' % (A, al, al), 'r[0]=1;', 'null or an aligned, padded block of n objects, for every n')
                W('mn', [mem, n64, R], 'setup(mem); T*p=Vc::malloc<T,Vc::%s>(n); put(r,0,(char*)p); Vc::free(p); r[1]=env.frees; put(r,2,(char*)env.freed); done();' % A, '__vc_assume(n<(1ull<<48)); r[0]=r[2]=(llong)mem; r[1]=1;', 'reports success if the system does; free releases it')
                W('mf', [mem, n64, R], 'setup(mem,true); T*p=Vc::malloc<T,Vc::%s>(n); put(r,0,(char*)p); done();' % A, 'r[0]=0;', 'null if the system has no memory')
        mem = ('char*mem', {'name': 'mem', 'elem': 1, 'size': 64, 'align': 4096})
        # class level allocation functions
        bases = [('AB16', 'Vc::AlignedBase<16>'), ('AB64', 'Vc::AlignedBase<64>'), ('AB256', 'Vc::AlignedBase<256>'), ('VAB', 'Vc::VectorAlignedBase'), ('MAB', 'Vc::MemoryAlignedBase'), ('VABT', 'Vc::VectorAlignedBaseT<Vc::float_v>'), ('MABT', 'Vc::MemoryAlignedBaseT<Vc::float_v>'), ('MABS', 'Vc::MemoryAlignedBaseT<Vc::short_v>')]
        for id_, T in cl + bases:
            W = lambda nm, ps, i, s, what, **k: mk(w, cfg, nm + '_' + id_, ps, 'typedef %s T; ' % T + i, 'typedef %s T; ' % T + s, what=what + ' of ' + T, **k)
            for nm, o in (('on', 'new'), ('ov', 'new[]')) if id_[1:3] != 'Sc' else ():
                W(nm, [mem, n64, R], 'setup(mem); void*p=T::operator %s(n); r[0]=!p||((char*)p==mem&&granted(alignof(T),n)); done();' % o, 'r[0]=1;', 'operator %s: null or an aligned block of n bytes' % o)
                W(nm + 'n', [mem, n64, R], 'setup(mem); put(r,0,(char*)T::operator %s(n)); done();' % o, '__vc_assume(n<(1ull<<48)); r[0]=(llong)mem;', 'operator %s succeeds if the system does' % o)
            if id_[1:3] != 'Sc': W('od', [mem, n64, R], 'setup(nullptr); T::operator delete(mem,n); r[0]=env.frees; put(r,1,(char*)env.freed); T::operator delete[](mem,n); r[2]=env.frees; put(r,3,(char*)env.freed); T::operator delete(mem,(void*)mem); T::operator delete[](mem,(void*)mem); r[4]=env.frees; put(r,5,(char*)T::operator new(n,(void*)mem)); put(r,6,(char*)T::operator new[](n,(void*)mem)); r[7]=env.calls; done();',
              'r[0]=1; r[2]=r[4]=2; r[1]=r[3]=r[5]=r[6]=(llong)mem; r[7]=0;', 'operator delete releases, the placement forms neither allocate nor release')
            smem = ('char*mem', {'name': 'mem', 'elem': 1, 'size': 1 << 12, 'align': 4096, 'scratch': True})
            W('ne', [smem, R], 'setup(mem); T*p=new T; r[0]=granted(alignof(T),sizeof(T)); put(r,1,(char*)p); delete p; r[2]=env.frees; put(r,3,(char*)env.freed); done();', 'r[0]=r[2]=1; r[1]=r[3]=(llong)mem;', 'new and delete expression')
            W('na', [smem, R], 'setup(mem); T*p=new T[5]; r[0]=env.calls==1&&inside(p,5*sizeof(T),alignof(T)); delete[] p; r[2]=env.frees; put(r,3,(char*)env.freed); done();', 'r[0]=r[2]=1; r[3]=(llong)mem;', 'array new and delete expression')
        # make_unique
        smem = ('char*mem', {'name': 'mem', 'elem': 1, 'size': 1 << 12, 'align': 4096, 'scratch': True})
        for A, al in (('AlignOnVector', 'Vc::VectorAlignment'), ('AlignOnCacheline', '64'), ('AlignOnPage', '4096')):
            mk(w, cfg, 'mu_' + A, [smem, SC('llong', 'a'), SC('llong', 'b'), R], 'setup(mem); dtors=0; {auto u=Vc::Common::make_unique<Obj,Vc::%s>(a,b); r[0]=granted(%s,sizeof(Obj)); r[1]=u->v; put(r,2,(char*)u.get()); r[3]=env.frees+dtors;} r[4]=env.frees; r[5]=dtors; r[6]=dtor_frees; put(r,7,(char*)env.freed); dtors=dtor_frees=0; done();' % (A, al),
               'r[0]=1; r[1]=a-b; r[2]=r[7]=(llong)mem; r[3]=0; r[4]=r[5]=1; r[6]=0; dtors=dtor_frees=0;', what='make_unique<Obj,%s>: aligned, constructed, destroyed before the release, released once' % A)
            mk(w, cfg, 'mr_' + A, [smem, SC('llong', 'a'), SC('llong', 'b'), R], 'setup(mem); dtors=0; {auto u=Vc::Common::make_unique<Obj,Vc::%s>(a,b); auto v=std::move(u); r[0]=!u; v.reset(); r[1]=dtors; r[2]=env.frees;} r[3]=dtors; r[4]=env.frees; dtors=dtor_frees=0; done();' % A,
               'r[0]=r[1]=r[2]=r[3]=r[4]=1; dtors=dtor_frees=0;', what='make_unique<Obj,%s>: moved and reset' % A)
        mk(w, cfg, 'mv', [smem, SC('int', 'b'), R], 'typedef VObj<Vc::float_v> T; setup(mem); dtors=0; {auto u=Vc::Common::make_unique<T>(b); r[0]=granted(alignof(T),sizeof(T)); r[1]=u->q;} r[2]=env.frees; r[3]=dtors; r[4]=dtor_frees; dtors=dtor_frees=0; done();', 'r[0]=r[2]=r[3]=1; r[1]=b; r[4]=0; dtors=dtor_frees=0;', what='make_unique of a class with a vector member')
    return w
def statics(tier):
    r = []
    for cfg in CFGS:
        for id_, T in classes(cfg, tier):
            r.append(Static('ab_' + id_, 'std::is_base_of<Vc::Allocator<%s>,std::allocator<%s>>::value&&std::is_same<typename std::allocator_traits<std::allocator<int>>::rebind_alloc<%s>,std::allocator<%s>>::value' % (T, T, T, T), cfg, 'std::allocator of %s is the aligning allocator' % T))
            r.append(Static('an_' + id_, 'alignof(%s)<=alignof(Vc::AlignedBase<alignof(%s)>)&&(alignof(%s)&(alignof(%s)-1))==0&&sizeof(%s)%%alignof(%s)==0' % ((T,) * 6), cfg, 'alignment of ' + T))
            if id_[0] == 'V': r.append(Static('am_' + id_, 'alignof(%s)>=%s::MemoryAlignment' % (T, T), cfg, 'register alignment covers memory alignment of ' + T))
        for t in ('float', 'double', 'int', 'uint', 'short', 'ushort'):
            V = 'Vc::Vector<%s>' % t
            r.append(Static('va_' + t, 'alignof(Vc::VectorAlignedBase)>=alignof(%s)&&alignof(Vc::MemoryAlignedBase)>=%s::MemoryAlignment&&Vc::VectorAlignment>=%s::MemoryAlignment&&alignof(Vc::VectorAlignedBaseT<%s>)==alignof(%s)&&alignof(Vc::MemoryAlignedBaseT<%s>)>=%s::MemoryAlignment' % ((V,) * 7), cfg, 'aligned base classes suit ' + V))
        r.append(Static('aeq', 'std::is_same<Vc::Allocator<float>::rebind<int>::other,Vc::Allocator<int>>::value&&std::is_same<Vc::Allocator<float>::value_type,float>::value', cfg, 'Allocator rebinding'))
    return r
