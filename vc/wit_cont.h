#pragma once
#include "wit.h"
#include <Vc/array>
#include <Vc/vector>
#include <Vc/span>
struct Tri { int a; short b; float c; };
static inline bool operator==(const Tri &x, const Tri &y) { return x.a == y.a && x.b == y.b; }
static inline bool operator<(const Tri &x, const Tri &y) { return x.a < y.a || (x.a == y.a && x.b < y.b); }
typedef std::ptrdiff_t pd;
template <class E> static inline void put(llong *r, int k, const E *p) { r[k] = (llong)p; }
// the C library's memory comparison as its definition
extern "C" inline __attribute__((used)) int memcmp(const void *a, const void *b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (((const uchar *)a)[i] != ((const uchar *)b)[i]) return ((const uchar *)a)[i] < ((const uchar *)b)[i] ? -1 : 1; return 0; }
extern "C" inline __attribute__((used)) int bcmp(const void *a, const void *b, size_t n) noexcept { return memcmp(a, b, n); }

// a container with a size constructor and an allocator parameter, like std::vector
template <class T, class A = int> struct Bag {
    T d[8] = {}; size_t n;
    explicit Bag(size_t k) : n(k) {}
    T *begin() { return d; } T *end() { return d + n; } size_t size() const { return n; }
};
template <class T, size_t N> struct Row { T d[N]; T *begin() { return d; } T *end() { return d + N; } };
