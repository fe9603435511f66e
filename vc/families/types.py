"""C21 sizes, alignments, member types, ABI selection and type traits; numeric limits."""
from core import *
from families.compare import CFGS, EXTRA
HEADER = 'wit_types.h'
isf = lambda t: t in FLOATS
uns = lambda t: t[0] == 'u'
REGT = {('Sse', 'double'): '__m128d', ('Sse', 'float'): '__m128', ('Avx', 'double'): '__m256d', ('Avx', 'float'): '__m256'}
CPP = {'double': 'DOUBLE', 'float': 'FLOAT', 'int': 'INT', 'uint': 'UINT', 'short': 'SHORT', 'ushort': 'USHORT'}
def default_abi(cfg, t):
    c = cfg.replace('clang-', '').split('-')[0]
    if c == 'scalar': return 'Sc'
    if c == 'avx': return 'Avx' if isf(t) else 'Sse'
    return 'Avx' if c in ('avx2', 'avx2p') else 'Sse'
def p2(x):
    r = 1
    while r < x: r *= 2
    return r
def traits(S, X, t, n, cv=True):
    """X: vector type with entry type t and n lanes"""
    q = ('%s', 'const %s', '%s&', 'const %s&', '%s&&', 'volatile %s', 'const volatile %s&') if cv else ('%s', 'const %s&')
    for f in q:
        x = f % X
        S('Vc::Traits::is_simd_vector<%s>::value&&!Vc::Traits::is_simd_mask<%s>::value&&!Vc::Traits::is_load_store_flag<%s>::value' % (x, x, x), x + ' is a vector')
        S('Vc::is_integral<%s>::value==%s&&Vc::is_floating_point<%s>::value==%s&&Vc::is_arithmetic<%s>::value' % (x, str(not isf(t)).lower(), x, str(isf(t)).lower(), x), 'arithmetic category of ' + x)
        S('Vc::is_signed<%s>::value==%s&&Vc::is_unsigned<%s>::value==%s' % (x, str(not uns(t)).lower(), x, str(uns(t)).lower()), 'signedness of ' + x)
        S('Vc::Traits::simd_vector_size<%s>::value==%d' % (x, n), 'simd_vector_size of ' + x)
        S('same<Vc::Traits::entry_type_of<%s>,%s>()&&same<Vc::Traits::scalar_type<%s>,%s>()' % (x, t, x, t), 'entry type of ' + x)
    for x in ('%s*' % X, 'const %s*' % X, '%s[2]' % X):
        S('!Vc::Traits::is_simd_vector<%s>::value&&!Vc::Traits::is_simd_mask<%s>::value&&Vc::Traits::simd_vector_size<%s>::value==0&&!Vc::is_arithmetic<%s>::value' % (x, x, x, x), x + ' is no vector')
def mtraits(S, X, n):
    for f in ('%s', 'const %s', '%s&', 'const %s&', '%s&&', 'volatile %s'):
        x = f % X
        S('Vc::Traits::is_simd_mask<%s>::value&&!Vc::Traits::is_simd_vector<%s>::value&&!Vc::Traits::is_load_store_flag<%s>::value&&Vc::Traits::simd_vector_size<%s>::value==%d' % (x, x, x, x, n), x + ' is a mask of %d entries' % n)
        S('!Vc::is_integral<%s>::value&&!Vc::is_floating_point<%s>::value&&!Vc::is_arithmetic<%s>::value' % (x, x, x), x + ' is not arithmetic')
def native(cfg, r, tier):
    k = [0]
    def S(e, what, **kw): k[0] += 1; r.append(Static('v_%d' % k[0], e, cfg, what, **kw))
    for abi in abis(cfg) + (['Sc'] if 'Sc' not in abis(cfg) else []):
        for t in abi_types(cfg, abi):
            V = 'Vx<%s,A::%s>' % (t, abi); M = 'Mx<%s,A::%s>' % (t, abi); n = size(abi, t); w = n * TYPES[t]
            S('sizeof(%s)==%d&&alignof(%s)==%d' % (V, w, V, w), 'size and alignment of ' + V)
            S('%s::Size==%d&&%s::size()==%d&&%s::MemoryAlignment==%d' % (V, n, V, n, V, w), 'Size, size() and MemoryAlignment of ' + V)
            S('same<decltype(%s::size()),std::size_t>()&&same<const std::size_t,decltype(%s::Size)>()' % (V, V), 'type of size() of ' + V)
            S('same<%s::EntryType,%s>()&&same<%s::value_type,%s>()&&same<%s::VectorEntryType,%s>()' % (V, t, V, t, V, t), 'entry type of ' + V)
            S('same<%s::abi,A::%s>()&&same<%s::abi,A::%s>()' % (V, abi, M, abi), 'abi of ' + V)
            S('same<%s::Mask,%s>()&&same<%s::MaskType,%s>()&&same<%s::mask_type,%s>()' % (V, M, V, M, V, M), 'mask type of ' + V)
            S('same<%s::Vector,%s>()' % (M, V), 'vector type of ' + M)
            S('same<%s::IndexType,Vc::fixed_size_simd<int,%d>>()&&same<%s::index_type,Vc::fixed_size_simd<int,%d>>()' % (V, n, V, n), 'index type of ' + V)
            S('same<%s::VectorType,%s>()&&same<%s::vector_type,%s>()' % (V, t if abi == 'Sc' else REGT.get((abi, t), '__m128i' if abi == 'Sse' else '__m256i'), V, t if abi == 'Sc' else REGT.get((abi, t), '__m128i' if abi == 'Sse' else '__m256i')), 'register type of ' + V)
            S('%s::Size==%d&&%s::size()==%d' % (M, n, M, n), 'Size and size() of ' + M)
            S('sizeof(%s)==%d&&alignof(%s)==%d' % (M, 1 if abi == 'Sc' else w, M, 1 if abi == 'Sc' else w), 'size and alignment of ' + M)
            S('%s::MemoryAlignment==%d' % (M, n), 'MemoryAlignment of ' + M)   # alignment of a bool array for aligned loads
            S('same<%s::EntryType,bool>()&&same<%s::value_type,bool>()' % (M, M), 'entry type of ' + M)
            S('same<decltype(std::declval<const %s&>()[0]),bool>()&&std::is_convertible<decltype(std::declval<%s&>()[0]),bool>::value' % (M, M), 'element access of ' + M)
            for X in (V, M):
                S('std::is_trivially_copyable<%s>::value&&std::is_trivially_destructible<%s>::value&&std::is_standard_layout<%s>::value' % (X, X, X), X + ' is trivially copyable')
                S('std::is_nothrow_move_constructible<%s>::value&&std::is_copy_assignable<%s>::value&&std::is_default_constructible<%s>::value&&!std::is_empty<%s>::value' % (X, X, X, X), X + ' is a regular type')
                S('!Vc::Traits::isSimdArray<%s>::value&&!Vc::Traits::isSimdMaskArray<%s>::value' % (X, X), X + ' is no SimdArray')
            S('same<%s::EntryReference,decltype(std::declval<%s&>()[0])>()' % (M, M), 'reference type of ' + M)
            S('same<%s::reference,decltype(std::declval<%s&>()[0])>()' % (V, V), 'reference type of ' + V)
            traits(S, V, t, n); mtraits(S, M, n)
            S('sizeof(%s[3])==%d&&alignof(Vc::VectorAlignedBaseT<%s>)==%d&&alignof(Vc::MemoryAlignedBaseT<%s>)==%d' % (V, 3 * w, V, w, V, w), 'aligned bases of ' + V)
    for t in TYPES:
        d = default_abi(cfg, t); V = 'Vx<%s,A::%s>' % (t, d); n = size(d, t)
        S('same<Vc::Vector<%s>,%s>()&&same<Vc::Mask<%s>,Mx<%s,A::%s>>()' % (t, V, t, t, d), 'default ABI of Vector<%s>' % t)
        S('same<Vc::%s_v,%s>()&&same<Vc::%s_m,Mx<%s,A::%s>>()' % (t, V, t, t, d), 'Vc::%s_v' % t)
        S('Vc_%s_V_SIZE==%d' % (CPP[t], n), 'Vc_%s_V_SIZE' % CPP[t])
        S('same<Vc::VectorAbi::Best<%s>,A::%s>()&&same<Vc::native_simd<%s>,%s>()&&same<Vc::native_simd_mask<%s>,Mx<%s,A::%s>>()' % (t, d, t, V, t, t, d), 'native_simd<%s>' % t)
        S('Vc::VectorAlignment>=alignof(Vc::%s_v)&&Vc::MemoryAlignment>=Vc::%s_v::MemoryAlignment&&Vc::VectorAlignment%%alignof(Vc::%s_v)==0&&Vc::MemoryAlignment%%Vc::%s_v::MemoryAlignment==0' % (t, t, t, t), 'VectorAlignment and MemoryAlignment serve %s_v' % t)
        S('alignof(Vc::VectorAlignedBase)==Vc::VectorAlignment&&alignof(Vc::MemoryAlignedBase)==Vc::MemoryAlignment', 'aligned base classes')
        S('Vc::memory_alignment<Vc::%s_v>::value==Vc::%s_v::MemoryAlignment' % (t, t), 'memory_alignment of %s_v' % t)
    for ns, ab in [('SSE', 'Sse')] * (cfg != 'scalar') + [('AVX', 'Avx'), ('AVX2', 'Avx')] * (default_abi(cfg, 'float') == 'Avx') + [('Scalar', 'Sc')]:
        for t in TYPES:
            a2 = 'Sse' if ns == 'AVX' and not isf(t) and cfg == 'avx' else ab
            if ns != 'AVX': S('same<Vc::%s::%s_v,Vx<%s,A::%s>>()&&same<Vc::%s::%s_m,Mx<%s,A::%s>>()' % ((ns, t, t, a2) * 2), 'Vc::%s::%s_v' % (ns, t))
    for b in (8, 16, 32, 64):
        for u in ('', 'u'):
            if b not in (16, 32): continue
            for f in ('', '_least'):
                S('same<Vc::%sint%s%d_v,Vc::Vector<std::%sint%s%d_t>>()&&same<Vc::%sint%s%d_m,Vc::Mask<std::%sint%s%d_t>>()&&sizeof(Vc::%sint%s%d_v::EntryType)==%d&&std::is_signed<Vc::%sint%s%d_v::EntryType>::value==%s' % ((u, f, b) * 5 + (b // 8,) + (u, f, b) + ('false' if u else 'true',)), '%sint%s%d_v' % (u, f, b))
    # the implementation selected by the compiler flags
    impl = {'scalar': 'ScalarImpl', 'sse2': 'SSE2Impl', 'sse3': 'SSE3Impl', 'ssse3': 'SSSE3Impl', 'sse41': 'SSE41Impl', 'sse42': 'SSE42Impl', 'avx': 'AVXImpl', 'avx2': 'AVX2Impl', 'avx2p': 'AVX2Impl'}[cfg.replace('clang-', '').split('-')[0]]
    order = ['ScalarImpl', 'SSE2Impl', 'SSE3Impl', 'SSSE3Impl', 'SSE41Impl', 'SSE42Impl', 'AVXImpl', 'AVX2Impl']
    S('Vc::CurrentImplementation::current()==Vc::%s' % impl, 'current implementation is ' + impl)
    for o in order: S('Vc::CurrentImplementation::is(Vc::%s)==%s' % (o, str(o == impl).lower()), 'is(%s)' % o)
    for i, a in enumerate(order):
        for j, b in enumerate(order):
            if i <= j: S('Vc::CurrentImplementation::is_between(Vc::%s,Vc::%s)==%s' % (a, b, str(i <= order.index(impl) <= j).lower()), 'is_between(%s,%s)' % (a, b))
    feat = {'SSE3': ('-msse3',), 'SSSE3': ('-mssse3',), 'SSE41': ('-msse4.1',), 'SSE42': ('-msse4.2',), 'AVX': ('-mavx',), 'AVX2': ('-mavx2',), 'FMA': ('-mfma',), 'BMI2': ('-mbmi2',), 'POPCNT': ('-mpopcnt',)}
    # scalars, flags and unrelated types
    for t in list(TYPES) + ['char', 'long', 'bool', 'schar', 'ullong']:
        for x in (t, 'const %s&' % t):
            S('!Vc::Traits::is_simd_vector<%s>::value&&!Vc::Traits::is_simd_mask<%s>::value&&!Vc::Traits::isSimdArray<%s>::value&&Vc::Traits::simd_vector_size<%s>::value==0' % (x, x, x, x), x + ' is a scalar')
            S('Vc::is_integral<%s>::value==std::is_integral<%s>::value&&Vc::is_floating_point<%s>::value==std::is_floating_point<%s>::value&&Vc::is_signed<%s>::value==std::is_signed<%s>::value&&Vc::is_unsigned<%s>::value==std::is_unsigned<%s>::value&&Vc::is_arithmetic<%s>::value' % ((x, t) * 4 + (x,)), 'traits of ' + x)
            S('same<Vc::Traits::entry_type_of<%s>,%s>()&&same<Vc::Traits::scalar_type<%s>,%s>()' % (x, t, x, t), 'entry type of ' + x)
    for x in ('NotArith', 'void*', 'std::vector<float>', 'Vc::array<float,4>'): S('!Vc::Traits::is_simd_vector<%s>::value&&!Vc::Traits::is_simd_mask<%s>::value&&!Vc::is_arithmetic<%s>::value&&Vc::Traits::simd_vector_size<NotArith>::value==0' % (x, x, x), x + ' is no SIMD type')
    F = 'decltype(%s)'
    flags = {'Vc::Aligned': (1, 0, 0), 'Vc::Unaligned': (0, 0, 0), 'Vc::Streaming': (1, 1, 0), 'Vc::PrefetchDefault': (1, 0, 1), 'Vc::Aligned|Vc::Streaming': (1, 1, 0), 'Vc::Streaming|Vc::Unaligned': (0, 1, 0), 'Vc::Unaligned|Vc::Streaming': (0, 1, 0), 'Vc::Unaligned|Vc::PrefetchDefault': (0, 0, 1), 'Vc::PrefetchDefault|Vc::Streaming': (1, 1, 1), 'Vc::Unaligned|Vc::Streaming|Vc::PrefetchDefault': (0, 1, 1), 'Vc::Aligned|Vc::Aligned': (1, 0, 0)}
    for f, (a, s, p) in flags.items():
        T = 'std::decay_t<decltype(%s)>' % f
        S('%s::IsAligned==%d&&%s::IsUnaligned==%d&&%s::IsStreaming==%d&&%s::IsPrefetch==%d' % (T, a, T, 1 - a, T, s, T, p), 'properties of ' + f)
        S('Vc::Traits::is_load_store_flag<%s>::value&&Vc::Traits::is_load_store_flag<const %s&>::value' % (T, T), f + ' is a flag')
    for e, x, sh in (('void', 0, 0), ('Vc::Exclusive', 1, 0), ('Vc::Shared', 0, 1)):
        for T in ('Vc::Prefetch<320,640,%s>' % e, 'std::decay_t<decltype(Vc::Prefetch<320,640,%s>()|Vc::Unaligned)>' % e):
            S('%s::L1Stride==320&&%s::L2Stride==640&&%s::IsExclusivePrefetch==%d&&%s::IsSharedPrefetch==%d&&%s::IsPrefetch&&Vc::Traits::is_load_store_flag<%s>::value' % (T, T, T, x, T, sh, T, T), 'prefetch parameters of ' + T)
    for T in list(TYPES) + ['void*', 'NotArith']: S('!Vc::Traits::is_load_store_flag<%s>::value' % T, T + ' is no flag')
    # container traits used by gathers and simdize
    for T, v in (('std::vector<float>', 1), ('Vc::vector<float>', 1), ('std::array<float,3>', 1), ('Vc::array<float,3>', 1), ('float*', 1), ('const float*', 1), ('float[4]', 1), ('std::initializer_list<int>', 1), ('std::unique_ptr<float[]>', 1), ('std::list<float>', 0), ('std::map<int,int>', 0), ('int', 0), ('NotArith', 0)):
        S('Vc::Traits::has_contiguous_storage<%s>::value==%d&&Vc::Traits::has_contiguous_storage<const %s&>::value==%d' % (T, v, T if '[4]' not in T else 'float(', v) if '[4]' not in T else 'Vc::Traits::has_contiguous_storage<%s>::value==%d' % (T, v), 'contiguous storage of ' + T)
    for T, v in (('std::vector<float>', 0), ('std::array<float,3>', 1), ('Vc::array<float,3>', 1), ('float[4]', 1), ('float*', 0), ('Vc::vector<float>', 0), ('SimdArray<float,4>', 1)):
        S('Vc::Traits::has_no_allocated_data<%s>::value==%d&&Vc::Traits::has_no_allocated_data<std::add_lvalue_reference<const %s>::type>::value==%d' % (T, v, T, v) if '[' not in T else 'Vc::Traits::has_no_allocated_data<%s>::value==%d' % (T, v), 'in-place storage of ' + T)
    for T, v in (('int*', 1), ('const int*', 0), ('std::vector<float>::iterator', 1), ('std::vector<float>::const_iterator', 0), ('std::back_insert_iterator<std::vector<float>>', 1), ('std::list<int>::iterator', 1), ('std::list<int>::const_iterator', 0)):
        S('Vc::Traits::is_output_iterator<%s>::value==%d' % (T, v), 'output iterator ' + T)
    S('Vc::Traits::is_functor_argument_immutable<FnVal,float_x>::value&&Vc::Traits::is_functor_argument_immutable<FnCref,float_x>::value&&!Vc::Traits::is_functor_argument_immutable<FnRef,float_x>::value', 'functor argument mutability')
    S('Vc::Traits::has_subscript_operator<std::vector<int>>::value&&Vc::Traits::has_subscript_operator<int*>::value&&!Vc::Traits::has_subscript_operator<int>::value&&Vc::Traits::has_addition_operator<int>::value&&!Vc::Traits::has_addition_operator<NotArith>::value&&Vc::Traits::has_multiply_operator<float>::value&&!Vc::Traits::has_multiply_operator<NotArith>::value&&Vc::Traits::has_equality_operator<int>::value&&!Vc::Traits::has_equality_operator<NotArith>::value', 'operator detection traits')
    for t in TYPES:
        for u in TYPES:
            v = t == u or (not isf(t) and not isf(u) and TYPES[t] == TYPES[u])
            S('Vc::Traits::is_implicit_cast_allowed<%s,%s>::value==%s&&Vc::Traits::is_implicit_cast_allowed_mask<%s,%s>::value==%s' % (t, u, str(v).lower(), t, u, str(v).lower()), 'implicit cast %s to %s' % (t, u))
    S('nextp2_ok()', 'NextPowerOfTwo, left_size and right_size for 1..1100')
def arrays(cfg, r, tier):
    k = [0]
    def S(e, what): k[0] += 1; r.append(Static('s_%d' % k[0], e, cfg, what))
    full = tier != 'quick'
    Ns = range(1, 41) if full else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 24, 32, 33)
    dflt = {t: default_abi(cfg, t) for t in TYPES}
    for t in TYPES:
        # register ABIs available for arrays, widest first
        A = [x for x in (['Avx', 'Sse', 'Sc'] if cfg not in ('scalar',) else ['Sc']) if x == 'Sc' or (x in abis(cfg) and t in abi_types(cfg, x))]
        for N in Ns:
            X = 'SimdArray<%s,%d>' % (t, N); F = 'Vc::fixed_size_simd<%s,%d>' % (t, N); M = 'SimdMaskArray<%s,%d>' % (t, N); FM = 'Vc::fixed_size_simd_mask<%s,%d>' % (t, N)
            best = next((x for x in A if N % size(x, t) == 0 and size(x, t) <= N), A[-1])
            # the widest register that fits into the array
            fit = next(x for x in A if size(x, t) <= N)
            nat = size(fit, t)
            S('%s::Size==%d&&%s::size()==%d&&%s::Size==%d&&%s::size()==%d' % (X, N, X, N, F, N, F, N), 'size of ' + X)
            S('%s::Size==%d&&%s::size()==%d&&%s::Size==%d&&%s::size()==%d' % (M, N, M, N, FM, N, FM, N), 'size of ' + M)
            for x in (X, F):
                S('same<%s::value_type,%s>()&&same<%s::EntryType,%s>()&&same<%s::VectorEntryType,%s>()' % (x, t, x, t, x, t), 'entry type of ' + x)
                S('same<%s::mask_type,%s>()&&same<%s::MaskType,%s>()&&same<%s::Mask,%s>()' % (x, FM, x, FM, x, FM), 'mask type of ' + x)
                S('same<%s::index_type,Vc::fixed_size_simd<int,%d>>()&&same<%s::IndexType,Vc::fixed_size_simd<int,%d>>()' % (x, N, x, N), 'index type of ' + x)
                S('sizeof(%s)>=%d&&sizeof(%s)%%alignof(%s)==0&&alignof(%s)%%%s::MemoryAlignment==0&&sizeof(%s)<=%d' % (x, N * TYPES[t], x, x, x, x, x, max(16, p2(N) * TYPES[t])), 'size and alignment of ' + x)
                S('(%s::MemoryAlignment&(%s::MemoryAlignment-1))==0&&%s::MemoryAlignment>=%d&&%s::MemoryAlignment<=%d' % (x, x, x, TYPES[t], x, max(16, p2(N) * TYPES[t])), 'MemoryAlignment of ' + x)
                S('Vc::Traits::isSimdArray<%s>::value&&!Vc::Traits::isSimdMaskArray<%s>::value' % (x, x), x + ' is a SimdArray')
                S('std::is_trivially_destructible<%s>::value&&std::is_default_constructible<%s>::value&&std::is_copy_constructible<%s>::value&&std::is_copy_assignable<%s>::value' % (x, x, x, x), x + ' is a regular type')
                traits(S, x, t, N, N in (1, 4, 7, 16))
            if N == nat: S('std::is_trivially_copyable<%s>::value&&std::is_trivially_copyable<%s>::value' % (X, M), 'arrays are trivially copyable')
            S('sizeof(%s)==sizeof(%s)&&alignof(%s)==alignof(%s)&&sizeof(%s)==sizeof(%s)&&alignof(%s)==alignof(%s)' % (X, F, X, F, M, FM, M, FM), 'fixed_size_simd and SimdArray have the same layout')
            S('std::is_base_of<%s,%s>::value&&std::is_base_of<%s,%s>::value' % (X, F, M, FM), 'fixed_size_simd derives from SimdArray')
            S('same<%s::abi,Vc::simd_abi::fixed_size<%d>>()&&same<%s::abi,Vc::simd_abi::fixed_size<%d>>()' % (F, N, FM, N), 'abi of ' + F)
            for x in (M, FM):
                S('same<%s::value_type,bool>()&&same<%s::EntryType,bool>()' % (x, x), 'entry type of ' + x)
                S('Vc::Traits::isSimdMaskArray<%s>::value&&!Vc::Traits::isSimdArray<%s>::value' % (x, x), x + ' is a SimdMaskArray')
                S('same<%s::Vector,%s>()' % (x, F) , 'vector type of ' + x)
                if N in (1, 4, 7, 16): mtraits(S, x, N)
            S('Vc::Traits::isAtomicSimdArray<%s>::value==%s&&Vc::Traits::isAtomicSimdMaskArray<%s>::value==%s' % (X, str(N == nat).lower(), M, str(N == nat).lower()), '%s is one register' % X)
            S('same<typename %s::vector_type,Vx<%s,A::%s>>()' % (X, t, fit), 'widest register of ' + X)
            S('sizeof(%s)%%sizeof(Vx<%s,A::%s>)==0&&alignof(%s)>=alignof(Vx<%s,A::%s>)' % (X, t, fit, X, t, fit), 'registers of ' + X)
def statics(tier):
    r = []
    for cfg in CFGS + EXTRA + ['avx2p']:
        native(cfg, r, tier)
        if cfg in ('scalar', 'sse2', 'avx', 'avx2') or tier != 'quick': arrays(cfg, r, tier)
    return r
def witnesses(tier):
    w = []
    for cfg in CFGS + EXTRA + ['avx2p']:
        for t in TYPES:
            d = default_abi(cfg, t); n = size(d, t); V = 'Vx<%s,A::%s>' % (t, d)
            for f in ('max', 'min', 'lowest', 'epsilon', 'round_error', 'infinity', 'quiet_NaN', 'denorm_min'):
                mk(w, cfg, 'lim_%s_%s' % (f, t), [OUT(t, n, 'o')], 'stv(o,std::numeric_limits<%s>::%s());' % (V, f), 'for(int i=0;i<%d;++i)o[i]=std::numeric_limits<%s>::%s();' % (n, t, f), what='numeric_limits<%s>::%s()' % (V, f))
    return w
