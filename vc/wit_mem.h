#pragma once
#include "wit.h"
#include <Vc/Memory>
#include <Vc/Allocator>
#include <Vc/Utils>
// Stand-ins for the system allocator: hand out the given storage and record the request.
struct Env { char *mem; size_t size, align; llong calls, frees; const void *freed; bool fail; };
static Env env;
static inline void setup(void *m, bool fail = false) { env.mem = (char *)m; env.size = 0; env.align = 0; env.calls = 0; env.frees = 0; env.freed = nullptr; env.fail = fail; }
static inline void done() { setup(nullptr); }
extern "C" int posix_memalign(void **p, size_t al, size_t n) noexcept { ++env.calls; env.size = n; env.align = al; if (env.fail) return 12; *p = env.mem; return 0; }
extern "C" void *aligned_alloc(size_t al, size_t n) noexcept { ++env.calls; env.size = n; env.align = al; return env.fail ? nullptr : env.mem; }
extern "C" void *malloc(size_t n) noexcept { ++env.calls; env.size = n; env.align = 16; return env.fail ? nullptr : env.mem; }
extern "C" void free(void *p) noexcept { ++env.frees; env.freed = p; }
void *operator new(size_t n) { ++env.calls; env.size = n; env.align = 16; return env.mem; }
void *operator new[](size_t n) { ++env.calls; env.size = n; env.align = 16; return env.mem; }
void operator delete(void *p) noexcept { ++env.frees; env.freed = p; }
void operator delete(void *p, size_t) noexcept { ++env.frees; env.freed = p; }
void operator delete[](void *p) noexcept { ++env.frees; env.freed = p; }
void operator delete[](void *p, size_t) noexcept { ++env.frees; env.freed = p; }
static inline bool pow2(size_t x) { return x && !(x & (x - 1)); }
// the block the library obtained is aligned for 'al' and holds 'need' bytes
static inline bool granted(size_t al, size_t need) { return env.calls == 1 && env.align >= al && pow2(env.align) && env.align >= sizeof(void *) && env.size >= need; }
template <class E> static inline void put(llong *r, int k, const E *p) { r[k] = (llong)p; }
