"""Source of /verif/properties.jsonl (see manifest.py)."""
NOTE = ('Sound for all inputs of every enumerated instantiation (type x ABI x ISA configuration x operation), relative to clang 18\'s IR of the '
        'current headers (seen with the GCC-13 predefines of the baseline build), the engine in engine/ and its operation lemmas. Undecided obligations are listed in the evidence, never counted as discharged.')
def P(id, title, statement, over, text, why, files, mech, na=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if na: d['na'] = na
    return d
IC = ['inputs', 'configurations']
PROPS = [
P('C01', 'Element-wise operators compute the scalar operator in every lane',
  'For every arithmetic vector type and every supported ISA, the result of each arithmetic, bitwise, shift, unary, increment and compound-assignment operator has in every lane exactly the value the same C++ scalar operator gives for that lane\'s operands (integers modulo 2^n, floating point IEEE single operation). No lane influences another lane. Broadcast constructors and the zero/one/index constants put the stated value in every lane.',
  IC, 'all lane values of both operands (except scalar UB: division by zero, MIN/-1, shift counts outside [0,width)), all types x ABIs x ISA levels',
  'The runnable tests only link and compare type layout; unit tests sample a handful of values on one ISA, whereas overflow, sign and rounding corner cases live in the full input space of each ISA-specific instruction sequence.',
  ['Vc/common/operators.h', 'Vc/scalar/vector.h', 'Vc/sse/vector.h', 'Vc/sse/vector.tcc', 'Vc/sse/vectorhelper.h', 'Vc/sse/detail.h', 'Vc/avx/vector.h', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/avx/intrinsics.h', 'src/const.cpp'],
  [('generic binary operators', 'Vc/common/operators.h'), ('per-ISA plus/minus/multiplies/div', 'Vc/sse/detail.h, Vc/avx/detail.h'), ('integer division via floating point', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc')]),
P('C02', 'Comparisons decide every lane exactly like the scalar comparison',
  'Each of the six comparison operators yields a mask whose lane i is true exactly when the scalar comparison of lane i is true: unordered rules for NaN, signed/unsigned order per element type, signed zeros equal. The floating-point classification tests (NaN, infinite, finite, negative) likewise agree with their scalar definition in every lane.',
  IC, 'all bit patterns of both operands in all lanes, all types x ABIs x ISA levels',
  'Unsigned comparison is emulated by sign flips and NaN handling depends on the predicate encodings; errors show only for particular bit patterns that a sampled test does not reach.',
  ['Vc/common/operators.h', 'Vc/sse/vector.h', 'Vc/sse/vectorhelper.h', 'Vc/sse/math.h', 'Vc/avx/vector.h', 'Vc/avx/math.h', 'Vc/scalar/math.h', 'Vc/avx/intrinsics.h'],
  [('comparison operators', 'Vc/sse/vector.h, Vc/avx/vector.h, Vc/scalar/operators.h'), ('isnan/isfinite/isinf/isnegative', 'Vc/*/math.h')]),
P('C03', 'Masks are exact boolean vectors',
  'A mask behaves as an array of N booleans: the logical and bitwise operators act per lane, construction from and storing to bool arrays, lane access, conversions between equally sized mask types and generators preserve each lane, and the reductions (all, any, none, some, count, first set index, bit pattern, equality) equal their definition over the lanes. Padding bits of the hardware representation are never observable.',
  IC, 'all 2^N lane patterns of every mask type x ABI x ISA level',
  'The result of each query depends on all N lanes through ISA-specific movemask/pack tricks; tests sample patterns.',
  ['Vc/sse/mask.h', 'Vc/sse/mask.tcc', 'Vc/avx/mask.h', 'Vc/avx/mask.tcc', 'Vc/scalar/mask.h', 'Vc/common/mask.h', 'Vc/sse/casts.h'],
  [('mask_cast/mask_to_int/mask_store/mask_load', 'Vc/sse/mask.tcc, Vc/avx/detail.h'), ('count/first/bit helpers', 'Vc/sse/mask.tcc, Vc/avx/mask.h')]),
P('C04', 'Masked assignment changes exactly the selected lanes',
  'Every form of write-masked update (masked expressions with =, compound operators, increment/decrement; where(); iif(); zeroing under a mask) changes exactly the lanes selected by the mask to the value of the unmasked operation and leaves every other lane bit-for-bit unchanged.',
  IC, 'all masks x all old and new lane values, all types x ABIs x ISA levels',
  'Needs all mask patterns times all values; blend operand order and mask-width mistakes only show for mixed masks.',
  ['Vc/common/writemaskedvector.h', 'Vc/common/where.h', 'Vc/common/iif.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc'],
  [('WriteMaskedVector', 'Vc/common/writemaskedvector.h'), ('where()', 'Vc/common/where.h'), ('iif()', 'Vc/common/iif.h'), ('assign/setZero', 'Vc/*/vector.tcc')]),
P('C05', 'Vector loads read exactly the addressed elements and convert each one',
  'Loading a vector from memory (constructor or member, aligned, unaligned, streaming or prefetching flags, same or other element type) puts element i, converted as by static_cast, into lane i. It reads only the N addressed elements and assumes no more alignment than the flag and type promise.',
  IC, 'all memory contents, all supported source types x flags x vector types x ABIs x ISA levels',
  'Over-reads and over-assumed alignment are invisible unless the buffer ends at a page boundary; conversions have per-ISA code for each type pair.',
  ['Vc/common/loadinterface.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/avx/vector.tcc', 'Vc/sse/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/avx/vectorhelper.h', 'Vc/common/loadstoreflags.h'],
  [('load overload set', 'Vc/sse/detail.h, Vc/avx/detail.h'), ('flag dispatch', 'Vc/common/loadstoreflags.h')]),
P('C06', 'Vector stores write exactly the selected elements',
  'Storing a vector writes lane i (converted to the destination type as by static_cast) to element i and modifies no other byte; a masked store modifies exactly the elements whose mask lane is set. It assumes no more alignment than the flag and type promise.',
  IC, 'all lane values, all masks, all destination types x flags x ABIs x ISA levels',
  'Neighbouring memory is rarely checked, and masked stores have separate code per ISA.',
  ['Vc/common/storeinterface.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/avx/detail.h', 'Vc/scalar/vector.tcc'],
  [('store', 'Vc/*/vector.tcc'), ('masked store helpers', 'Vc/sse/vectorhelper.h, Vc/avx/detail.h')]),
P('C07', 'Gather and scatter access exactly the indexed elements',
  'A gather puts mem[index[i]] (converted) into lane i and a scatter writes lane i to mem[index[i]], with the highest lane winning on equal indexes; the masked forms do so only for selected lanes, leave the others unchanged and do not access memory for unselected lanes. This holds for every index type, for struct-member and nested-array addressing.',
  IC, 'all indexes, all memory contents, all masks, all types x ABIs x ISA levels',
  'Four alternative implementations (simple loop, set, bit-scan loop, popcount switch) plus AVX2 instructions are selected by mask population; tests sample few masks and never observe stray accesses.',
  ['Vc/common/gatherimplementation.h', 'Vc/common/scatterimplementation.h', 'Vc/common/gatherinterface.h', 'Vc/common/scatterinterface.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/common/subscript.h'],
  [('executeGather/executeScatter', 'Vc/common/gatherimplementation.h, Vc/common/scatterimplementation.h'), ('masked AVX2 gather', 'Vc/avx/vector.tcc')]),
P('C08', 'Vector and mask casts convert every lane by value',
  'simd_cast, converting constructors and mask casts between any two vector (or mask) types, across ABIs and including several-to-one and one-to-several forms, deliver in each destination lane the static_cast of the corresponding source lane, in order; surplus destination lanes are zero and missing source lanes are never read. reinterpret_components_cast preserves bits.',
  IC, 'all source lane values (representable in the destination), all type pairs x ABIs x ISA levels',
  'There are several hundred hand-written cast overloads; sampled values cannot exclude saturation, sign or lane-order errors.',
  ['Vc/sse/simd_cast.h', 'Vc/avx/simd_cast.h', 'Vc/avx/simd_cast_caller.tcc', 'Vc/sse/simd_cast_caller.tcc', 'Vc/scalar/simd_cast.h', 'Vc/scalar/simd_cast_caller.tcc', 'Vc/common/simd_cast.h', 'Vc/sse/casts.h', 'Vc/avx/casts.h', 'Vc/cpuid.h'],
  [('simd_cast overloads', 'Vc/sse/simd_cast.h, Vc/avx/simd_cast.h'), ('ConvertTag conversions', 'Vc/sse/casts.h, Vc/avx/casts.h')]),
P('C09', 'Lane permutations move every lane to its documented position',
  'shifted, rotated, reversed, interleaving of two vectors, shift-in from a second vector and permutation by index put each input lane at its documented position for every amount, shifting in zeros where documented, and alter no lane value.',
  IC, 'all lane values and all shift/rotation amounts in the documented range, all types x ABIs x ISA levels',
  'Each amount is a separate switch case or template instance; a wrong case is visible only for that amount and type.',
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/sse/detail.h', 'Vc/scalar/vector.tcc', 'Vc/sse/shuffle.h', 'Vc/avx/shuffle.h', 'Vc/common/permutation.h'],
  [('rotated/shifted/reversed/interleave', 'Vc/*/vector.tcc, Vc/avx/detail.h')]),
P('C10', 'Reductions combine every lane exactly once',
  'sum, product, minimum and maximum over a vector combine every lane exactly once with the stated operation; the masked reductions combine exactly the selected lanes; partialSum gives in lane i the sum of lanes 0..i. Floating-point results may differ only by association of the operation.',
  IC, 'all lane values and masks, all types x ABIs x ISA levels',
  'A lane counted twice or dropped only shows for inputs where that lane matters; masked forms need neutral elements that are right for every type.',
  ['Vc/sse/vectorhelper.h', 'Vc/sse/vector.tcc', 'Vc/avx/vectorhelper.h', 'Vc/avx/vector.tcc', 'Vc/avx/detail.h', 'Vc/scalar/vector.h', 'Vc/common/indexsequence.h'],
  [('horizontal add/mul/min/max', 'Vc/sse/vectorhelper.h, Vc/avx/detail.h'), ('partialSum', 'Vc/*/vector.tcc')]),
P('C11', 'sorted() returns the ascending permutation of the lanes',
  'For every vector the result of sorted() contains exactly the input lanes in ascending order (floating-point inputs without NaN).',
  IC, 'all lane values, all types x ABIs x ISA levels',
  'A sorting network is correct only if it sorts all 0-1 inputs; random samples can miss a wrong comparator, and each type and ISA has its own network.',
  ['src/sse_sorthelper.cpp', 'src/avx_sorthelper.cpp', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc'],
  [('SortHelper<T>::sort', 'src/sse_sorthelper.cpp, src/avx_sorthelper.cpp')]),
P('C12', 'Exactly defined math functions equal their scalar definition in every lane',
  'min, max, abs, sqrt, floor, ceil, trunc, round (to nearest even), copysign, fma, exponent, frexp and ldexp deliver in every lane exactly the value defined for that lane\'s argument, for all magnitudes including those beyond the integer range and for signed zeros where defined.',
  IC, 'all argument bit patterns in all lanes, all floating-point (and integer for min/max/abs) types x ABIs x ISA levels',
  'Emulations for older ISAs go through integer conversion or exponent manipulation and break only for particular magnitudes.',
  ['Vc/sse/math.h', 'Vc/avx/math.h', 'Vc/scalar/math.h', 'Vc/common/math.h', 'Vc/sse/vectorhelper.h'],
  [('rounding', 'Vc/sse/math.h, Vc/avx/math.h, Vc/scalar/math.h'), ('frexp/ldexp/exponent', 'Vc/sse/math.h, Vc/avx/math.h')]),
P('C13', 'Transcendental functions treat every lane alike and independently',
  'For asin, atan, atan2, exp, log, log2, log10, rsqrt, reciprocal and sqrt lane i of the result depends only on lane i of the arguments, and the same per-lane function is applied in every lane position. sin, cos and sincos choose one range reduction for the whole vector, good enough for its largest argument: vectors whose lanes need the same reduction are treated lane by lane, and so is the lane of the largest argument in any vector. Where sin and sincos use the same reduction sincos agrees with sin and cos. Results defined exactly are exact in every lane: log, log2, log10 (0 gives -inf, negative gives NaN, inf gives inf), exp (0 and inf outside the representable range), asin outside [-1,1] and every function of NaN give NaN, asin and atan are odd. A SimdArray gives what its registers give.',
  IC, 'all lane values in all lanes, float and double x ABIs x ISA levels',
  'Branches on "any lane needs the slow path" couple lanes; a missing blend shows only for particular combinations of lanes.',
  ['src/trigonometric.cpp', 'Vc/common/trigonometric.h', 'Vc/common/logarithm.h', 'Vc/common/exponential.h', 'Vc/sse/math.h', 'Vc/avx/math.h', 'Vc/common/math.h'],
  [('masked slow paths', 'src/trigonometric.cpp'), ('log/exp special cases', 'Vc/common/logarithm.h, Vc/common/exponential.h')]),
P('C14', 'SimdArray<T, N> behaves as N independent lanes for every N',
  'For every element type and every N, SimdArray gives the same lane-wise results for arithmetic, comparison, masked assignment, load, store, gather, scatter, reductions, permutations, sorting and conversions as the one-lane definition applied to each of its N lanes; padding lanes of the underlying registers are never observable, and no memory outside the N elements is touched.',
  IC, 'all lane values, masks and shift amounts for N including non-powers of two and mixtures of register sizes, all types x ISA levels',
  'The recursive split into registers depends on N and ISA; unit tests instantiate few N and cannot see padding or out-of-range accesses.',
  ['Vc/common/simdarray.h', 'Vc/common/simdarrayhelper.h', 'Vc/common/simdarrayfwd.h', 'Vc/common/simd_cast.h', 'Vc/common/subscript.h', 'Vc/common/operators.h'],
  [('recursive SimdArray', 'Vc/common/simdarray.h'), ('Split/lo/hi dispatch', 'Vc/common/simdarrayhelper.h')]),
P('C15', 'SimdMaskArray behaves as N independent booleans for every N',
  'For every element type and every N the mask type of SimdArray behaves exactly like an array of N booleans in logic operations, queries (all, any, none, count, first, bit pattern), loads, stores, lane access and conversions, independent of how it is split into registers.',
  IC, 'all 2^N patterns for N including non-powers of two, all types x ISA levels',
  'Splitting offsets (first set lane or bit pattern in the upper half) only matter for particular patterns and N.',
  ['Vc/common/simdmaskarray.h', 'Vc/common/simdarrayhelper.h', 'Vc/common/maskbool.h'],
  [('recursive SimdMaskArray', 'Vc/common/simdmaskarray.h')]),
P('C16', 'Interleaved memory access maps struct members to vectors and back',
  'Deinterleaving through an InterleavedMemoryWrapper puts member k of element index[i] into lane i of the k-th vector, and interleaving writes lane i of the k-th vector to member k of element index[i]; nothing outside those members is written and nothing outside the selected elements\' storage is read. The same holds for consecutive indexes and for deinterleave() of arrays.',
  IC, 'all memory contents and indexes, 2..8 members, all types x ABIs x ISA levels',
  'Each member count and vector size has its own shuffle network and its own over-access hazards.',
  ['Vc/common/interleavedmemory.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/scalar/detail.h', 'Vc/common/deinterleave.h', 'Vc/sse/deinterleave.tcc', 'Vc/avx/deinterleave.tcc', 'Vc/common/interleave.h'],
  [('InterleaveImpl', 'Vc/sse/detail.h, Vc/avx/detail.h, Vc/scalar/detail.h'), ('deinterleave', 'Vc/sse/deinterleave.tcc, Vc/avx/deinterleave.tcc')]),
P('C17', 'simdize maps structures to vectors lane by lane',
  'A simdized structure holds in each vectorised member the lanes of that member: assigning or extracting scalar structure i touches exactly lane i of every member, in declaration order, and shifting or swapping operates on all members alike; non-arithmetic members are handled as documented.',
  IC + ['programs'], 'all member values, all lane indexes, all structure shapes up to the instantiated ones, all ISA levels',
  'Template recursion over members means an error for one position or type combination is invisible elsewhere.',
  ['Vc/common/simdize.h'],
  [('Adapter/assign/extract/swap', 'Vc/common/simdize.h')]),
P('C18', 'Memory containers expose one linear element sequence',
  'For every Memory container (fixed, 2D, dynamic) and every access path (scalar index, aligned vector i, unaligned vector at any offset, vector iteration, gather-like access) element i is the same storage location; vector access i covers elements i*Size..i*Size+Size-1 in order; padding is allocated so that every vector access stays inside the object; whole-container operations act on every element.',
  IC, 'all sizes (multiples and non-multiples of the vector size), all indexes, all types x ISA levels',
  'Index scaling and padding mistakes only touch neighbouring elements or the tail for particular sizes.',
  ['Vc/common/memory.h', 'Vc/common/memorybase.h', 'Vc/common/memoryfwd.h', 'Vc/common/iterators.h'],
  [('MemoryBase accessors', 'Vc/common/memorybase.h'), ('Memory sizes and padding', 'Vc/common/memory.h')]),
P('C19', 'Aligned allocation returns aligned, sufficiently large, correctly freed memory',
  'Vc::malloc and the Allocator return memory aligned as requested (vector, cache line, page) that is at least as large as requested including the documented padding; freeing releases exactly the block that was allocated, including the header offset the allocator adds. Vector types keep their natural alignment when allocated through new.',
  ['inputs', 'configurations', 'histories'], 'all sizes and alignment kinds, all element types, all allocate/deallocate pairs',
  'Size rounding fails only for sizes near a multiple; off-by-one padding is invisible without a page boundary.',
  ['Vc/common/malloc.h', 'Vc/Allocator', 'Vc/common/memory.h', 'Vc/common/macros.h'],
  [('malloc/free', 'Vc/common/malloc.h'), ('Allocator::allocate/deallocate', 'Vc/Allocator')]),
P('C20', 'Operator result types and implicit conversions follow the documented type rules',
  'Mixing vector and scalar operands is accepted exactly when the scalar conversion rules documented by the library allow it (no implicit narrowing, integral promotion to the vector type, signed/unsigned arithmetic conversion), and the resulting vector type is the documented one; masks, vectors of different sizes and ABIs do not mix silently.',
  ['programs', 'configurations'], 'all pairs of operand types x operators x ISA levels',
  'The rules are about programs that must or must not compile; a test that compiles can only show acceptance of what it contains.',
  ['Vc/common/operators.h', 'Vc/common/types.h', 'Vc/common/simdarray.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/type_traits', 'Vc/traits'],
  [('DetermineReturnType/is_convertible rules', 'Vc/common/operators.h, Vc/common/simdarray.h')]),
P('C21', 'Type identities, sizes and alignments match the selected ABI',
  'For every ISA configuration each vector and mask type has the register size, element count, alignment, entry type, mask and index type that its ABI tag promises; the native and SimdArray types and the type traits (is vector, mask, integral, signed, size) agree with them; vector types are trivially copyable.',
  ['programs', 'configurations'], 'all vector, mask and SimdArray types x ISA levels',
  'These are compile-time facts over a matrix of configurations; the build exercises one configuration.',
  ['Vc/vector.h', 'Vc/common/types.h', 'Vc/sse/types.h', 'Vc/avx/types.h', 'Vc/scalar/types.h', 'Vc/common/simdarrayfwd.h', 'Vc/type_traits', 'Vc/global.h'],
  [('VectorTraits / ABI aliases', 'Vc/*/types.h'), ('best ABI selection', 'Vc/vector.h, Vc/common/simdarrayfwd.h')]),
P('C22', 'Iteration helpers visit every element exactly once',
  'apply, call, fill and generate on vectors, iteration over the lanes of a vector or over the set lanes of a mask, and simd_for_each over a range visit each element (or exactly the set lanes) exactly once and in ascending order, deliver each function result to the lane it was computed from, and touch nothing outside the range, for every range length and alignment.',
  IC + ['histories'], 'all lane values, masks, range lengths (including those not a multiple of the vector size) and alignments, all types x ISA levels',
  'Prologue/epilogue handling depends on length and alignment modulo the vector size.',
  ['Vc/common/algorithms.h', 'Vc/common/iterators.h', 'Vc/common/where.h', 'Vc/common/bitscanintrinsics.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/algorithm'],
  [('BitmaskIterator', 'Vc/common/iterators.h'), ('simd_for_each', 'Vc/common/algorithms.h'), ('apply/call/fill', 'Vc/*/vector.h')]),
P('C23', 'CPU feature queries report the architectural feature bits',
  'Each CPU capability query is true exactly when the architecturally defined CPUID bit of that feature is set in the identified processor\'s leaf, and an implementation is reported as supported only if every instruction-set level it needs (including operating-system support for wide registers) is present; a better implementation is never chosen over what the CPU supports.',
  ['configurations', 'inputs'], 'all CPUID register contents and all implementation identifiers',
  'Tests see the one CPU they run on.',
  ['src/cpuid.cpp', 'Vc/cpuid.h', 'src/support_x86.cpp', 'Vc/support.h'],
  [('CpuId::init and queries', 'src/cpuid.cpp, Vc/cpuid.h'), ('isImplementationSupported', 'src/support_x86.cpp')],
  state=[('s_processorFeatures*', 'raw CPUID words', 'Vc/cpuid.h')]),
P('C24', 'A library/header version mismatch is always diagnosed',
  'The startup ABI check accepts a program exactly when the headers it was compiled with are ABI compatible with the linked library version and otherwise terminates with a message; version numbers, version string and version-check macros are mutually consistent.',
  ['inputs', 'configurations'], 'all pairs of header and library versions',
  'Only the matching pair is ever linked in the tests.',
  ['src/const.cpp', 'Vc/version.h'],
  [('checkLibraryAbi', 'src/const.cpp'), ('runLibraryAbiCheck', 'Vc/version.h')]),
P('C25', 'Random() returns values in [0,1) or full-range integers and advances the state',
  'Every call of the vector random function returns for floating point a value v with 0 <= v < 1 in every lane and for integers the raw generator output, and advances the generator state of every lane by the linear congruential recurrence of its type, whatever the ISA.',
  ['inputs', 'histories', 'configurations'], 'all generator states, all types x ISA levels',
  'The upper bound would be violated only by rare mantissa patterns; the recurrences are written separately for each ISA and type.',
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/common/const.h', 'src/const.cpp'],
  [('Vector::Random', 'Vc/*/vector.tcc')], state=[('RandomState', 'generator state', 'src/const.cpp')]),
P('C26', 'Index-vector subscripts address exactly the indexed elements',
  'Subscripting an array, vector container, span or nested member path with an index vector yields a proxy whose reads gather and whose writes scatter exactly the elements named by the indexes (scaled by the real element stride), with the same mask semantics as explicit gather and scatter.',
  IC, 'all indexes, masks and memory contents, flat and nested subscripts, all types x ISA levels',
  'Stride and index scaling errors show only for particular element sizes and nesting.',
  ['Vc/common/subscript.h', 'Vc/common/gatherinterface.h', 'Vc/common/scatterinterface.h', 'Vc/array', 'Vc/vector', 'Vc/span'],
  [('SubscriptOperation', 'Vc/common/subscript.h')]),
P('C27', 'Vc::array, span and makeContainer expose exactly their elements',
  'Vc::array and Vc::span give access to exactly the elements they were built from: size, bounds, iteration, front/back/data and sub-spans agree with the extent, compile-time extents are enforced, and construction neither copies elements of a span nor drops any. makeContainer fills the minimum number of vectors with the values of its list in order, for lists of every length (including none), and zeros behind them.',
  ['inputs', 'programs'], 'all extents and contents, static and dynamic',
  'Sub-span arithmetic errors show only for particular offset/count pairs.',
  ['Vc/array', 'Vc/span', 'Vc/common/makeContainer.h'],
  [('span constructors and subviews', 'Vc/span'), ('array', 'Vc/array')]),
P('C28', 'transpose() maps row i, column j to row j, column i',
  'Transposing n vectors of n lanes puts lane j of vector i into lane i of vector j for all i, j and changes no value.',
  IC, 'all lane values, all supported shapes x ABIs x ISA levels',
  'A wrong shuffle immediate affects a few positions of one shape on one ISA.',
  ['Vc/common/transpose.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/sse/shuffle.h', 'Vc/avx/shuffle.h'],
  [('transpose_impl', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc')]),
P('C29', 'All ISA levels compute the same result',
  'For the same program inputs the operations with an exactly defined result give bit-identical lanes on every ISA level and every ABI, so that moving a program between the scalar, SSE and AVX implementations cannot change its integer and exactly rounded results.',
  IC, 'all inputs of every exactly defined operation, all pairs of ISA levels',
  'The tests run on one ISA; equality across ISAs is never tested.',
  ['Vc/scalar', 'Vc/sse', 'Vc/avx', 'Vc/common'],
  [('parallel ISA implementations', 'Vc/scalar, Vc/sse, Vc/avx')],
  na='follows from C01-C12, C14-C18, C28, which prove each ISA equal to one ISA-independent reference meaning; a separate check would repeat the same obligations'),
P('C30', 'Transcendental functions meet their documented accuracy',
  'The error of every transcendental function stays within the documented number of units in the last place over its documented argument range.',
  ['inputs'], 'all arguments in the documented range', 'Only sampled reference values are compared.',
  ['src/trigonometric.cpp', 'Vc/common/logarithm.h', 'Vc/common/exponential.h', 'Vc/sse/math.h'],
  [('polynomial approximations', 'src/trigonometric.cpp, Vc/common/logarithm.h, Vc/common/exponential.h')],
  na='a numerical error bound of polynomial and range-reduction arithmetic: no shape-of-the-code argument in reach bounds floating-point rounding error over the whole argument range; the structural clause (lane independence, uniformity) is C13'),
P('C31', 'Concurrent use of the random generator is safe',
  'Concurrent calls of the vector random function from several threads never corrupt the generator or return invalid values.',
  ['schedules'], 'all interleavings of concurrent callers', 'The tests are single threaded.',
  ['src/const.cpp', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc'],
  [('global RandomState', 'src/const.cpp')],
  na='the library keeps one unsynchronised global state and documents no thread-safety for it; there is no locking discipline a static rule could check (that nothing else has such state is C33)'),
P('C32', 'Vector accesses are coherent with scalar accesses of the same memory',
  'A vector or mask load sees every preceding scalar write to the elements it reads, a vector, mask or scatter store is seen by every following scalar read, and the lanes and members of Vc objects can be accessed as scalars and vectors alternately, whatever optimisation the compiler applies: no access of the library goes through a type that the language does not let alias the element type.',
  ['inputs', 'histories'], 'all access sequences of a translation unit, all optimisation levels', 'Whether the compiler reorders depends on the code around the access; tests see one arrangement, mostly through opaque calls.',
  ['Vc/sse/mask.tcc', 'Vc/avx/detail.h', 'Vc/common/storage.h', 'Vc/common/types.h', 'Vc/common/interleavedmemory.h', 'Vc/common/memorybase.h'],
  [('aliasing_cast / MayAlias', 'Vc/common/types.h'), ('mask_load, mask_store', 'Vc/sse/mask.tcc, Vc/avx/detail.h'), ('lane access of Storage and SimdArray', 'Vc/common/storage.h, Vc/common/simdarray.h')]),
P('C33', 'Operations on distinct objects are independent: no hidden shared state',
  'Except for Random(), no operation of the library writes anything but its non-const operands, its results, its own temporaries and memory it allocated: const operands and read-only arguments are never written, not even with the value they hold, and there is no hidden global state. So operations on distinct objects, and const operations on one object, can run concurrently.',
  ['schedules', 'inputs'], 'all interleavings of operations on distinct objects', 'The tests are single threaded; a hidden cache or scratch buffer gives correct results there.',
  ['Vc/common', 'Vc/sse', 'Vc/avx', 'Vc/scalar', 'src'],
  [('all operations', 'Vc/sse, Vc/avx, Vc/common'), ('compiled library functions', 'src/trigonometric.cpp, src/sse_sorthelper.cpp, src/avx_sorthelper.cpp, src/support_x86.cpp')]),
P('C34', 'A program executes only instructions of the instruction sets it is compiled for',
  'Code compiled for an instruction set runs on every processor that has it: neither the headers (including their inline assembly) nor the library functions they call use an instruction set beyond the one the calling translation unit was compiled for, and for every instruction set the library provides everything the headers refer to.',
  ['programs', 'inputs'], 'all operations x all ISA configurations x all library objects', 'The tests run on a machine that has every instruction set, where a stray SSE4.1 or AVX instruction in SSE2 code executes without notice.',
  ['CMakeLists.txt', 'src', 'Vc/common/trigonometric.h', 'Vc/sse/vectorhelper.h', 'Vc/common/set.h', 'Vc/common/gatherimplementation.h'],
  [('Detail::Trig and MapImpl', 'Vc/common/trigonometric.h'), ('inline assembly', 'Vc/common/set.h, Vc/common/gatherimplementation.h, Vc/avx/mask.tcc'), ('library objects', 'src/trigonometric.cpp, src/sse_sorthelper.cpp, src/avx_sorthelper.cpp')]),
P('C35', 'Every public header is usable alone, in any order, and in any number of translation units',
  'Each public header compiles on its own and before any of the others, for every instruction set and language standard; including it in several translation units of a program gives no duplicate definition; and it leaves the macros of the program alone apart from those with the prefix of the library.',
  ['programs'], 'all public headers x inclusion orders x ISA configurations x standards', 'The tests include <Vc/Vc> first; what a header silently relies on shows only in programs that include it alone.',
  ['Vc'],
  [('public headers', 'Vc/Vc, Vc/SimdArray, Vc/Utils, Vc/iterators, Vc/Memory, Vc/IO, Vc/simdize, Vc/span, Vc/array')]),
P('C36', 'Stream output shows every lane once, in order',
  'Inserting a vector, mask, SimdArray or Memory into a stream writes each lane value once, in lane order, formatted like the scalar it holds, inside the documented punctuation, and nothing else, and yields the stream for further insertions.',
  ['inputs'], 'all contents of all types x ABIs x N x ISA levels', 'Output is checked by eye in the tests; the last lanes of wide or odd-sized types are not looked at.',
  ['Vc/IO'], [('operator<<', 'Vc/IO')]),
]
