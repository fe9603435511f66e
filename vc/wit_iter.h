#pragma once
#include "wit.h"
#include <Vc/algorithm>
#include <vector>
// client callbacks: every call is observable, the result is an unknown function of the arguments
#define D_(T) extern "C" void cb_c_##T(T); extern "C" T cb_f_##T(T); extern "C" T cb_g_##T(int); \
    static inline void CB(T x) { cb_c_##T(x); } static inline T CF(T x) { return cb_f_##T(x); } static inline T cg_##T(int i) { return cb_g_##T(i); } \
    static inline void CG(int i, T &x) { x = cb_g_##T(i); }
D_(float) D_(double) D_(int) D_(uint) D_(short) D_(ushort)
#undef D_
extern "C" void cb_c_bool(bool); extern "C" bool cb_g_bool(int);
extern "C" void cb_idx(size_t);
static int cnt;
template <class T> static T nxt() { T r; CG(cnt++, r); return r; }
// functors for simd_for_each: see every lane in order
struct Seen { template <class V> void operator()(V v) const { for (int k = 0; k < int(V::Size); ++k) CB((typename V::value_type)v[k]); } };
struct Seen1 { template <class V> void operator()(const V &v) const { for (int k = 0; k < int(V::Size); ++k) CB((typename V::value_type)v[k]); } };
struct Chg { template <class V> void operator()(V &v) const { for (int k = 0; k < int(V::Size); ++k) v[k] = CF((typename V::value_type)v[k]); } };
struct Count { llong n; template <class V> void operator()(V v) { n += V::Size; for (int k = 0; k < int(V::Size); ++k) CB((typename V::value_type)v[k]); } };
template <class T> struct PT { T x, y; Vc_SIMDIZE_INTERFACE((x, y)); };
template <class T, class U> struct PT2 { T x; U y; Vc_SIMDIZE_INTERFACE((x, y)); };
struct Chg2 { template <class V> void operator()(V &v) const { for (int k = 0; k < int(V::Size); ++k) { typename V::scalar_type u; u.x = v.x[k]; u.y = v.y[k]; v.x[k] = CF(u.y); v.y[k] = u.x; } } };
struct See2 { template <class V> void operator()(V v) const { for (int k = 0; k < int(V::Size); ++k) { CB(v.x[k]); CB(v.y[k]); } } };
// for ranges that are too long to be walked: the functor gives up after M elements
template <int M> struct Stop { int *c; template <class V> void operator()(const V &v) const { for (int k = 0; k < int(V::Size); ++k) { CB((typename V::value_type)v[k]); if (++*c == M) throw 1; } } };
template <int M> struct StopW { int *c; template <class V> void operator()(V &v) const { for (int k = 0; k < int(V::Size); ++k) { v[k] = CF((typename V::value_type)v[k]); if (++*c == M) throw 1; } } };
