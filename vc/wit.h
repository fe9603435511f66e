// Helpers for witness functions.
#pragma once
#include <Vc/Vc>
extern "C" void __vc_assume(bool);
extern "C" void __vc_touch(const void *, int); // these bytes may be read
typedef unsigned int uint; typedef unsigned short ushort; typedef signed char schar; typedef unsigned char uchar;
typedef long long llong; typedef unsigned long long ullong;
// raw object <-> memory transfer of the lanes, independent of the library's own load/store
template <class V> static inline V ldv(const void *p) { V x; __builtin_memcpy((void *)&x, p, V::Size * sizeof(typename V::EntryType)); return x; }
template <class V> static inline void stv(void *p, const V &x) { __builtin_memcpy(p, (const void *)&x, V::Size * sizeof(typename V::EntryType)); }
// build / observe masks through the documented bool-array interface
template <class M> static inline M ldm(const bool *p) { return M(p); }
template <class M> static inline void stm(bool *p, const M &m) { for (size_t i = 0; i < M::Size; ++i) p[i] = m[i]; }
template <class T, class A> using Vx = Vc::Vector<T, A>;
template <class T, class A> using Mx = Vc::Mask<T, A>;
namespace A { using Sc = Vc::VectorAbi::Scalar; using Sse = Vc::VectorAbi::Sse; using Avx = Vc::VectorAbi::Avx;
using F1 = Vc::simd_abi::fixed_size<1>; using F2 = Vc::simd_abi::fixed_size<2>; using F3 = Vc::simd_abi::fixed_size<3>; using F4 = Vc::simd_abi::fixed_size<4>; using F5 = Vc::simd_abi::fixed_size<5>; using F6 = Vc::simd_abi::fixed_size<6>;
using F7 = Vc::simd_abi::fixed_size<7>; using F8 = Vc::simd_abi::fixed_size<8>; using F9 = Vc::simd_abi::fixed_size<9>; using F10 = Vc::simd_abi::fixed_size<10>; using F11 = Vc::simd_abi::fixed_size<11>; using F12 = Vc::simd_abi::fixed_size<12>;
using F13 = Vc::simd_abi::fixed_size<13>; using F14 = Vc::simd_abi::fixed_size<14>; using F15 = Vc::simd_abi::fixed_size<15>; using F16 = Vc::simd_abi::fixed_size<16>; using F17 = Vc::simd_abi::fixed_size<17>; using F18 = Vc::simd_abi::fixed_size<18>;
using F19 = Vc::simd_abi::fixed_size<19>; using F20 = Vc::simd_abi::fixed_size<20>; using F21 = Vc::simd_abi::fixed_size<21>; using F22 = Vc::simd_abi::fixed_size<22>; using F23 = Vc::simd_abi::fixed_size<23>; using F24 = Vc::simd_abi::fixed_size<24>;
using F25 = Vc::simd_abi::fixed_size<25>; using F26 = Vc::simd_abi::fixed_size<26>; using F27 = Vc::simd_abi::fixed_size<27>; using F28 = Vc::simd_abi::fixed_size<28>; using F29 = Vc::simd_abi::fixed_size<29>; using F30 = Vc::simd_abi::fixed_size<30>;
using F31 = Vc::simd_abi::fixed_size<31>; using F32 = Vc::simd_abi::fixed_size<32>; using F33 = Vc::simd_abi::fixed_size<33>; using F34 = Vc::simd_abi::fixed_size<34>; using F35 = Vc::simd_abi::fixed_size<35>; using F36 = Vc::simd_abi::fixed_size<36>;
using F48 = Vc::simd_abi::fixed_size<48>;
using F64 = Vc::simd_abi::fixed_size<64>; }
