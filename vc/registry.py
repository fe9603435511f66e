"""Which families of obligations decide which property."""
VG = 'value-graph (lane value-numbering) dataflow over the LLVM IR of witness functions: library result == reference meaning'
REG = {
 'C01': {'families': ['arith'], 'min': 2000, 'level': 'proof', 'technique': VG,
   'rule': 'For every vector type of every ABI in every ISA configuration and every arithmetic, bitwise, shift, unary and compound operator, the normal form of every result lane (all input bits symbolic) equals the normal form of the scalar operator on that lane; division by zero, MIN/-1 and shift counts outside [0,width) are outside the domain.'},
 'C02': {'families': ['compare'], 'min': 1400, 'level': 'proof', 'technique': VG,
   'rule': 'Every comparison operator (vector/vector, vector/scalar, scalar/vector) gives per lane the IEEE or integer relation of that lane, all_of/any_of of it fold exactly those lanes, and isnan/isfinite/isinf/isnegative classify every bit pattern (NaN, infinities, signed zeros, denormals included).'},
 'C03': {'families': ['mask'], 'min': 1800, 'level': 'proof', 'technique': VG,
   'rule': 'For all 2^N truth patterns every mask operator, query, load, store, lane access, shift, generator and conversion equals the same operation on an array of N booleans.'},
 'C04': {'families': ['masked'], 'min': 1800, 'level': 'proof', 'technique': VG,
   'rule': 'For all masks and lane values every masked assignment form changes exactly the selected lanes to the result of the operator and leaves the bits of every other lane unchanged.'},
}
REG.update({
 'C05': {'families': ['loads'], 'min': 2800, 'level': 'proof', 'technique': VG,
   'rule': 'For every load form (constructor and member; default, unaligned, aligned, streaming, prefetching flags) and every source element type the vector holds static_cast<T>(mem[i]) in lane i, bytes outside the N addressed elements are never read, and no access instruction assumes more alignment than the flag and register size promise.'},
 'C06': {'families': ['stores'], 'min': 1200, 'level': 'proof', 'technique': VG,
   'rule': 'For every store form (plain and masked; all flags) the destination holds lane i (selected lanes for masked stores), no other byte is written or read, and no access instruction assumes more alignment than the flag and register size promise.'},
})
REG['C07'] = {'families': ['gather', 'oldgather'], 'min': 3300, 'level': 'proof', 'technique': VG,
   'rule': 'For every gather and scatter form (constructors, members, masked; index vectors, SimdArray indexes, std::array, Vc::array, C arrays; converting element types; the four alternative masked implementations) lane i is exchanged with mem[index[i]] for all indexes, masks and contents; no byte of another element is read or written, nothing is accessed for deselected lanes, and writes happen in lane order (order not required of the opt-in bit-scan and popcount variants).'}
REG['C08'] = {'families': ['casts'], 'min': 8500, 'level': 'proof', 'technique': VG,
   'rule': 'For every ordered pair of vector (and mask) types of every ABI of a configuration, every supported n-to-1 and 1-to-n (offset) simd_cast, every converting constructor and reinterpret_components_cast: lane i of the result is static_cast of source lane i (or its bits), surplus lanes are zero; floating-point to integer over all values whose truncation is representable.'}
REG['C09'] = {'families': ['perm'], 'min': 2600, 'level': 'proof', 'technique': VG,
   'rule': 'For every amount, index and lane value: shifted, rotated, reversed, interleaveLow/High, broadcast, swizzles, permutation by index vector and the Mem/Reg permute, shuffle and blend helpers put exactly the documented source lane into every destination lane.'}
REG['C10'] = {'families': ['reduce'], 'min': 740, 'level': 'proof', 'technique': VG,
   'rule': 'min, max, sum, product (plain and masked) and partialSum combine exactly the (selected) lanes: sums and products as multisets of lanes (any association), minima and maxima as lattice expressions; masked minima and maxima for non-empty masks; NaN outside the domain of min/max.'}
REG['C11'] = {'families': ['sorting'], 'min': 124, 'level': 'proof', 'technique': VG + '; comparator networks decided by their threshold (0-1) images',
   'rule': 'For every vector type of every ABI and ISA configuration lane k of sorted() is the k-th smallest lane, for all lane values (NaN outside the domain).'}
REG['C12'] = {'families': ['mathfn'], 'min': 850, 'level': 'proof', 'technique': VG + '; bit-exact floating-point rounding and conversion',
   'rule': 'min, max, abs, fma, sqrt, copysign, trunc, floor, ceil, round (to nearest even), exponent, frexp and ldexp of every vector type equal the reference definition in every lane for all bit patterns of the stated domains (no NaN for min/max and the rounding functions; normal results for ldexp; the non-FMA double fma is outside).'}
REG['C14'] = {'families': ['simdarray', 'simdown'], 'min': 9000, 'level': 'proof', 'technique': VG,
   'rule': 'SimdArray<T,N> for N that are not the native width (scalar tails, mixed register widths, several registers): every arithmetic, comparison, masked, load, store, gather, permutation, reduction, sorting and math operation, every constructor, element access, iif, apply, conversion and simd_cast (n-to-1, with offset, to and from native vectors) equals the same operation on an array of N independent lanes.'}
REG['C15'] = {'families': ['simdmask'], 'min': 4000, 'level': 'proof', 'technique': VG,
   'rule': 'SimdMaskArray<T,N> for all 2^N truth patterns: operators, queries (isFull, isEmpty, count, firstOne, toInt ...), bool-array transfer, lane access, shifts, generators and every conversion or simd_cast from and to masks of other widths equal the same operation on an array of N booleans.'}
REG['C16'] = {'families': ['interleave'], 'min': 2900, 'level': 'proof', 'technique': VG,
   'rule': 'For every vector type, 2 to 8 members and struct size, for all index vectors (unique for stores) and start indexes: lane i of member k is exchanged with struct index[i] (or first+i), member k; other members and structs keep their bytes, nothing outside the addressed structs is read; Vc::interleave and Vc::deinterleave for every type combination and alignment flag.'}
REG['C28'] = {'families': ['transpose'], 'min': 80, 'level': 'proof', 'technique': VG,
   'rule': 'For every supported shape (4 float vectors of 4 lanes, SimdArray 4x4, 4 arrays of 2 to 2 of 4, 1x1) lane j of input i becomes lane i of output j for all lane values, also in place and through a proxy that outlives the call.'}
REG['C23'] = {'families': ['cpuid'], 'min': 390, 'level': 'proof', 'technique': VG + '; CPUID and XGETBV modelled as arbitrary functions of leaf and subleaf',
   'rule': 'For all CPUID and XCR0 contents: every CpuId query after init() equals its architectural bit or field, isImplementationSupported is true exactly when the level (levels include their predecessors) and, for AVX and later, OSXSAVE and XMM/YMM state are enabled, bestImplementationSupported is the highest such level, extraInstructionsSupported and currentImplementationSupported combine the required bits. Code of init() behind the feature words: AMD leaves, up to two leaf-4 caches, one leaf-2 descriptor.'}
REG['C24'] = {'families': ['version'], 'min': 60, 'level': 'proof', 'technique': VG + '; static-constructor call analysis of the IR of every public header; constant expressions',
   'rule': 'checkLibraryAbi stops with a message exactly for another ABI number or a newer header version, for all 2^64 pairs; every translation unit including a library header unconditionally calls it at start-up with the header version; version number, string and check macros agree for all versions.'}
REG['C25'] = {'families': ['random'], 'min': 420, 'level': 'proof', 'technique': VG,
   'rule': 'From every generator state Random() of every vector type and SimdArray returns, per lane, the raw generator word (integers) or 1.m - 1 with mantissa m taken from the state (floating point, hence in [0,1)), and advances every state word by the documented linear congruential recurrence; a second call continues from the advanced state.'}
REG['C26'] = {'families': ['subscript'], 'min': 7000, 'level': 'proof', 'technique': VG,
   'rule': 'Reading and writing container[index vector] (Vc::array, Vc::vector and span-like containers; flat, &Struct::member, nested members, subscripted array members by one index or by a second index vector; index vectors as V::IndexType, C array, std::array, Vc::array and SimdArray), plain and under where() or v(mask): lane i exchanges exactly the element that the scalar path mem[x[i]]... names, and nothing else is read or written.'}
REG['C18'] = {'families': ['memory'], 'min': 7500, 'level': 'proof', 'technique': VG + '; the system allocator replaced by a recording stand-in',
   'rule': 'Memory<V,N>, Memory<V,R,C> and Memory<V>: for all contents, indexes and shifts every element, vector, shifted, iterator, range, row and whole-container access addresses the one linear (row-padded) element sequence; sizes and ends are consistent, the storage is aligned and holds whole vectors, construction, copy, assignment, swap and destruction keep contents, sizes and ownership.'}
REG['C19'] = {'families': ['alloc'], 'min': 3500, 'level': 'proof', 'technique': VG + '; the system allocator replaced by a recording stand-in',
   'rule': 'Vc::malloc/free, Vc::Allocator and the std::allocator specialisations, class-level operator new/delete, aligned base classes and make_unique: for every requested size the block obtained is aligned as promised, holds the request, and is released exactly once as obtained; sizes that cannot be represented give an exception or null.'}
REG['C22'] = {'families': ['iterate'], 'min': 1500, 'level': 'proof', 'technique': VG + '; client callbacks modelled as observable events with unknown results',
   'rule': 'call, apply, fill, generate, callWithValuesSorted, iterators over vector and mask lanes, where(mask) iteration and simd_for_each(_n): for all lane values, masks and range lengths the client function is called exactly once per (selected) element in ascending order, each result is delivered to the lane it belongs to, and nothing outside the range is read or written.'}
REG['C27'] = {'families': ['container'], 'min': 3000, 'level': 'proof', 'technique': VG + '; constant expressions and overload resolution for the static part',
   'rule': 'Vc::array and Vc::span: for all contents and indexes every element access, iterator, comparison, fill, swap, tuple access, conversion and sub-span addresses exactly the documented element range and compares like the element sequences; at() throws exactly outside the range; deduction, constructibility and constant evaluation hold as static facts. makeContainer of K values, for every K around the vector size, gives ceil(K/Size) vectors with the values in order and zeros behind them.'}

REG['C17'] = {'families': ['simdize'], 'min': 2000, 'level': 'proof', 'technique': VG,
   'rule': 'For simdized structures (nested, with array, SimdArray, mixed-size and reordered members, decorated with Vc_SIMDIZE_INTERFACE): assign, extract, subscript, broadcast, where, shifted, interleaved load/store, scalar and vectorizing iterators over ranges of every length exchange exactly member k of scalar object i with lane i of member k, and touch nothing else.'}
REG['C20'] = {'families': ['typerules'], 'min': 15000, 'level': 'proof', 'technique': 'type-level witnesses: constant expressions over decltype and overload resolution, decided by the compiler front end on the current headers for every operand-type matrix',
   'rule': 'For every pair of operand types (vectors of every ABI and entry type, SimdArray, masks, all arithmetic scalars, enumerations, pointers, foreign classes) and every operator the result type is the one the conversion rules name, and every combination the rules exclude is rejected; implicit conversions exist exactly between same-size signed and unsigned types.'}
REG['C21'] = {'families': ['types'], 'min': 25000, 'level': 'proof', 'technique': 'type-level witnesses (constant expressions decided by the compiler front end) for every configuration; ' + VG + ' for numeric_limits',
   'rule': 'For every configuration, ABI, entry type and N: size, alignment, MemoryAlignment, lane count, register, entry, mask, index and abi member types, default and best ABI, V_SIZE macros, aligned bases, load/store flag properties, and all type traits (for every cv/ref form) have the promised value; numeric_limits of the native vectors equal the scalar limits in every lane.'}
REG['C13'] = {'families': ['trans'], 'min': 2100, 'level': 'proof', 'technique': VG,
   'rule': 'asin, atan, atan2, exp, log, log2, log10, rsqrt, reciprocal and sqrt: lane i of f(v) has the same value graph as lane 0 of f(broadcast of lane i), every bit pattern. sin and cos pick one range reduction for the whole vector: decided per range class (all lanes in the class; the lane with the largest argument among smaller ones; any mixture is rotation equivariant for double); sincos has the graphs of sin and cos; SimdArray is its registers; exactly defined results (NaN, zeros, infinities, outside the domain) and symmetries.'}
REG['C32'] = {'families': ['alias'], 'min': 12000, 'level': 'proof', 'technique': 'dataflow over the front-end IR: flattened call tree, attribution of every access to its memory object, agreement of the type-based aliasing tags',
   'rule': 'In the unoptimised IR of every operation (whole call tree flattened, no pass has used the aliasing tags): any two accesses of overlapping bytes of one memory object, at least one of them a store, carry aliasing types of which one contains the other, and every access to caller memory carries the element type the caller declared, or may alias anything. Hence no optimiser may reorder a vector access with a scalar access of the same element.'}
REG['C33'] = {'families': ['effects'], 'min': 12000, 'level': 'proof', 'technique': 'interprocedural effect analysis over the front-end IR: every write attributed to its memory object',
   'rule': 'In the flattened call tree of every operation, and of every function of the compiled library, every store, memory intrinsic, masked store and atomic goes to a non-const operand, a result, a local variable, or memory allocated by the operation (or to the CPU feature table, in its own initialisation); no other global or const operand is written, and only functions with a known effect are called.'}
REG['C34'] = {'families': ['isa'], 'min': 900, 'level': 'proof', 'technique': 'effect analysis over the front-end IR: the instruction sets of every function reachable from a program (headers, inline assembly, library objects in archive order) against those the program is compiled for',
   'rule': 'For every configuration (and twelve -m/-march combinations) every function the headers give a program, every mnemonic of their inline assembly, and every compiled library function or table a program refers to, resolved in the order of the archive, needs only instruction sets the program is compiled for; every reference is defined by a library object; each library object itself stays inside the flags it is built with.',
   'assumptions': ['every processor with AVX2 has FMA, BMI1/2, LZCNT, F16C and MOVBE (as cmake/VcMacros.cmake assumes)', 'weak inline functions of translation units compiled with different flags are not merged']}
REG['C35'] = {'families': ['headers'], 'min': 200, 'level': 'proof', 'technique': 'front-end obligations (compile witnesses) on the headers alone, linkage of every definition in their IR, and the macro table they leave',
   'rule': 'Every public header compiles alone, before all the others in either order, in C++11, 14, 17 and 20, with g++ and clang++, per instruction set; no definition in them has strong external linkage; they define or remove no macro outside the Vc_/VC_ prefix (include guards and VECTOR_NAMESPACE apart).'}
REG['C36'] = {'families': ['stream'], 'min': 1400, 'level': 'proof', 'technique': VG + '; sequence of stream insertions as events',
   'rule': 'For every vector, mask, SimdArray, SimdMaskArray and Memory type of every configuration, with arbitrary contents, operator<< hands the stream exactly the documented characters and every lane value once, converted like the scalar, in lane order (Memory: vector order, white space aside), and returns the stream.'}
