#pragma once
#include "wit.h"
static inline unsigned bitsof(float x) { unsigned r; __builtin_memcpy(&r, &x, 4); return r; }
static inline unsigned long long bitsof(double x) { unsigned long long r; __builtin_memcpy(&r, &x, 8); return r; }
static inline float fromb(unsigned x) { float r; __builtin_memcpy(&r, &x, 4); return r; }
static inline double fromb(unsigned long long x) { double r; __builtin_memcpy(&r, &x, 8); return r; }
template <class T> struct FP; template <> struct FP<float> { enum { mb = 23, eb = 8 }; }; template <> struct FP<double> { enum { mb = 52, eb = 11 }; };
template <class T> static inline int expf_(T x) { return int(bitsof(x) >> FP<T>::mb) & ((1 << FP<T>::eb) - 1); }
template <class T> static inline bool mant0(T x) { return (bitsof(x) << (1 + FP<T>::eb)) == 0; }
template <class T> static inline bool is_nan(T x) { return expf_(x) == (1 << FP<T>::eb) - 1 && !mant0(x); }
template <class T> static inline bool is_inf(T x) { return expf_(x) == (1 << FP<T>::eb) - 1 && mant0(x); }
template <class T> static inline bool is_zero(T x) { return expf_(x) == 0 && mant0(x); }
template <class T> static inline bool is_denormal(T x) { return expf_(x) == 0 && !mant0(x); }
template <class T> static inline bool is_pos_normal(T x) { int e = expf_(x); return e != 0 && e != (1 << FP<T>::eb) - 1 && !(bitsof(x) >> (FP<T>::mb + FP<T>::eb)); }
// the definition of frexp; denormals are scaled first
template <class T> static inline T frexp_def(T x, int *e)
{
    typedef decltype(bitsof(x)) U;
    const int bias = (1 << (FP<T>::eb - 1)) - 1;
    if (is_nan(x) || is_inf(x) || is_zero(x)) { *e = 0; return x; }
    U b = bitsof(x), s = b >> (FP<T>::mb + FP<T>::eb) << (FP<T>::mb + FP<T>::eb), m = b & ((U(1) << FP<T>::mb) - 1);
    int k = expf_(x);
    if (k == 0) { k = 1; for (int i = 0; i < FP<T>::mb; ++i) if (!(m >> FP<T>::mb)) { m <<= 1; --k; } m &= (U(1) << FP<T>::mb) - 1; }
    *e = k - (bias - 1);
    return fromb(U(s | U(bias - 1) << FP<T>::mb | m));
}
template <class T> static inline T frexp_nrm(T x, int *e)
{
    typedef decltype(bitsof(x)) U;
    const int bias = (1 << (FP<T>::eb - 1)) - 1;
    if (is_nan(x) || is_inf(x) || is_zero(x)) { *e = 0; return x; }
    *e = expf_(x) - (bias - 1);
    return fromb(U((bitsof(x) & ~(U((1 << FP<T>::eb) - 1) << FP<T>::mb)) | U(bias - 1) << FP<T>::mb));
}
template <class T> static inline bool ldexp_dom(T x, int e)
{
    int k = expf_(x);
    return k != 0 && k != (1 << FP<T>::eb) - 1 && k + e >= 1 && k + e < (1 << FP<T>::eb) - 1;
}
template <class T> static inline T ldexp_def(T x, int e)
{
    typedef decltype(bitsof(x)) U;
    return fromb(U((bitsof(x) & ~(U((1 << FP<T>::eb) - 1) << FP<T>::mb)) | U(expf_(x) + e) << FP<T>::mb));
}
// zero (denormals), infinity or NaN made from the other bits of x
template <class T> static inline T special(T x)
{
    typedef decltype(bitsof(x)) U;
    U E = U((1 << FP<T>::eb) - 1) << FP<T>::mb, b = bitsof(x), S = U(1) << (FP<T>::mb + FP<T>::eb);
    U k = (b >> FP<T>::mb) & 3;
    return fromb(U(k == 0 ? b & S : k == 1 ? (b & S) | E : b | E));
}
// the value where the condition holds, +0 elsewhere (bit arithmetic, so that no NaN is quieted)
template <class T> static inline T only(bool c, T x) { typedef decltype(bitsof(x)) U; return fromb(U(bitsof(x) & (U(0) - U(c)))); }

/* rint spelled with the operations of SSE2 (the same number for every argument) */
static __attribute__((always_inline,unused)) inline double round_sse2(double q) {
    double m = __builtin_fabs(q), r = (m + 0x1p52) - 0x1p52; unsigned long long a, b;
    if (!(m < 0x1p52)) r = m;
    __builtin_memcpy(&a, &q, 8); __builtin_memcpy(&b, &r, 8);
    b |= a & 0x8000000000000000ull; __builtin_memcpy(&r, &b, 8);
    return r;
}
