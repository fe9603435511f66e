#pragma once
#include "wit_mem.h"
#include <Vc/Allocator>
#include <Vc/common/make_unique.h>
struct S3 { char c[3]; };
struct S24 { double d[3]; };
struct alignas(64) C64 { char c[64]; };
struct alignas(128) C128 { char c[128]; };
// 'need' bytes from p on lie inside the block that was obtained, and p is aligned
static inline bool inside(const void *p, size_t need, size_t al) { size_t d = (const char *)p - env.mem; return d <= env.size && env.size - d >= need && (size_t)p % al == 0; }
static llong dtors; static llong dtor_frees;
struct Obj { llong v; Obj(llong a, llong b) : v(a - b) {} ~Obj() { ++dtors; dtor_frees = env.frees; } };
template <class V> struct VObj { V v; llong q; VObj(llong b) : v(b), q(b) {} ~VObj() { ++dtors; dtor_frees = env.frees; } };
