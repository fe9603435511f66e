#pragma once
#include "wit.h"
#include <Vc/simdize>
#include <tuple>
#include <array>
#include <vector>
#include <string>
struct S0 { int a; };
template <class T> struct P2 { T x, y; Vc_SIMDIZE_INTERFACE((x, y)); };
template <class T> struct P3 { T x, y, z; Vc_SIMDIZE_INTERFACE((x, y, z)); P3() = default; P3(T a, T b, T c) : x(a), y(b), z(c) {} };
template <class T, class U> struct Q2 { T x; U y; Vc_SIMDIZE_INTERFACE((x, y)); };
template <class T, class U> struct R2 { U y; T x; Vc_SIMDIZE_INTERFACE((x, y)); R2() = default; R2(T a, U b) : y(b), x(a) {} }; // members listed in another order than declared
template <class T> struct H2 { T x; T hidden; T y; Vc_SIMDIZE_INTERFACE((x, y)); H2() = default; H2(T a, T b) : x(a), y(b) {} }; // a member which is not listed
template <class T, class U, class W> struct Q3 { T x; U y; W z; Vc_SIMDIZE_INTERFACE((x, y, z)); };
// an iterator over every second element (no contiguous storage), for each iterator category
template <class T, class Cat> struct Skip { typedef Cat iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
    T *p; Skip() = default; Skip(T *q) : p(q) {} T &operator*() const { return *p; } T *operator->() const { return p; }
    Skip &operator++() { p += 2; return *this; } Skip operator++(int) { Skip t = *this; p += 2; return t; }
    Skip &operator--() { p -= 2; return *this; } Skip operator--(int) { Skip t = *this; p -= 2; return t; }
    bool operator==(const Skip &o) const { return p == o.p; } bool operator!=(const Skip &o) const { return p != o.p; } };
template <class V> static inline typename std::enable_if<Vc::Traits::is_simd_vector<V>::value>::type getm(V &x, const void *p) { __builtin_memcpy((void *)&x, p, V::Size * sizeof(typename V::EntryType)); }
template <class V> static inline typename std::enable_if<Vc::Traits::is_simd_vector<V>::value>::type putm(void *p, const V &x) { __builtin_memcpy(p, (const void *)&x, V::Size * sizeof(typename V::EntryType)); }
template <class V> static inline typename std::enable_if<Vc::Traits::is_simd_mask<V>::value>::type getm(V &x, const bool *p) { x = V(p); }
template <class V> static inline typename std::enable_if<Vc::Traits::is_simd_mask<V>::value>::type putm(bool *p, const V &x) { for (size_t i = 0; i < V::Size; ++i) p[i] = x[i]; }
