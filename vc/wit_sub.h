#pragma once
#include "wit.h"
#include <Vc/array>
#include <Vc/vector>
#include <Vc/span>
template <class T> struct S1 { T a; T pad; T b; };                              // 3 elements
template <class T> struct S2 { T x; S1<T> in; T data[3]; };                     // 7 elements
template <class T> struct S3 { T d[2][3]; Vc::array<T, 2> v; };                 // 8 elements
// a container object around externally provided elements
template <class C> struct Around { void *p[3]; Around(const void *m, size_t bytes) { p[0] = (void *)m; p[1] = p[2] = (char *)m + bytes; } C &get() { return *(C *)p; } };
