#pragma once
#include "wit.h"
#include <Vc/simdize>
#include <Vc/limits>
#include <Vc/type_traits>
#include <Vc/vector>
#include <list>
#include <map>
#include <vector>
#include <array>
#include <memory>
#include <iterator>
#include <cstdint>
#include <Vc/Memory>
using Vc::Vector; using Vc::Mask; using Vc::SimdArray; using Vc::SimdMaskArray; using Vc::uint; using Vc::ushort; using Vc::schar; using Vc::uchar; using Vc::llong; using Vc::ullong; using Vc::ulong;
template <class A, class B> constexpr bool same() { return std::is_same<A, B>::value; }
template <class T> struct Type { typedef T type; };
// type of an expression, void if it is not valid
#define OP2(name_, op_) template <class L, class R> auto t_##name_(int) -> Type<decltype(std::declval<L>() op_ std::declval<R>())>; template <class L, class R> Type<void> t_##name_(...); template <class L, class R> using r_##name_ = typename decltype(t_##name_<L, R>(0))::type;
OP2(add, +) OP2(sub, -) OP2(mul, *) OP2(div, /) OP2(rem, %) OP2(and, &) OP2(or, |) OP2(xor, ^) OP2(land, &&) OP2(lor, ||)
OP2(eq, ==) OP2(ne, !=) OP2(lt, <) OP2(gt, >) OP2(le, <=) OP2(ge, >=)
OP2(aadd, +=) OP2(asub, -=) OP2(amul, *=) OP2(adiv, /=) OP2(arem, %=) OP2(aand, &=) OP2(aor, |=) OP2(axor, ^=)
OP2(shl, <<) OP2(shr, >>) OP2(ashl, <<=) OP2(ashr, >>=) OP2(asg, =)
template <class L, class R, class E> constexpr bool arith() { return same<r_add<L, R>, E>() && same<r_sub<L, R>, E>() && same<r_mul<L, R>, E>() && same<r_div<L, R>, E>(); }
template <class L, class R, class E> constexpr bool bits() { return same<r_rem<L, R>, E>() && same<r_and<L, R>, E>() && same<r_or<L, R>, E>() && same<r_xor<L, R>, E>(); }
template <class L, class R, class E> constexpr bool bitonly() { return same<r_and<L, R>, E>() && same<r_or<L, R>, E>() && same<r_xor<L, R>, E>(); }
template <class L, class R, class E> constexpr bool cmp() { return same<r_eq<L, R>, E>() && same<r_ne<L, R>, E>() && same<r_lt<L, R>, E>() && same<r_gt<L, R>, E>() && same<r_le<L, R>, E>() && same<r_ge<L, R>, E>(); }
template <class L, class R, class E> constexpr bool ordr() { return same<r_lt<L, R>, E>() && same<r_gt<L, R>, E>() && same<r_le<L, R>, E>() && same<r_ge<L, R>, E>(); }
template <class L, class R, class E> constexpr bool logic() { return same<r_land<L, R>, E>() && same<r_lor<L, R>, E>(); }
template <class L, class R, class E> constexpr bool cassign() { return same<r_aadd<L &, R>, E>() && same<r_asub<L &, R>, E>() && same<r_amul<L &, R>, E>() && same<r_adiv<L &, R>, E>(); }
template <class L, class R, class E> constexpr bool cbits() { return same<r_arem<L &, R>, E>() && same<r_aand<L &, R>, E>() && same<r_aor<L &, R>, E>() && same<r_axor<L &, R>, E>(); }
template <class L, class R> constexpr bool all_rejected() { return arith<L, R, void>() && bits<L, R, void>() && cmp<L, R, void>(); }
template <class A, class B> constexpr bool conv() { return std::is_convertible<A, B>::value; }
enum En { en0 };
struct NotArith { };
template <class V> struct ToV { operator V() const; };   // user-defined type that converts to a vector

// functors for is_functor_argument_immutable
typedef Vc::Vector<float> float_x;
struct FnVal { void operator()(float_x) const; }; struct FnRef { void operator()(float_x &) const; }; struct FnCref { void operator()(const float_x &) const; };
// powers of two computed independently
constexpr std::size_t np2(std::size_t x, std::size_t r = 1) { return r >= x ? r : np2(x, r * 2); }
template <std::size_t N> struct NpOk { static constexpr bool value = Vc::Common::NextPowerOfTwo<N>::value == np2(N) && (N < 2 || (Vc::Common::left_size<N>() == np2((N + 1) / 2) && Vc::Common::left_size<N>() + Vc::Common::right_size<N>() == N)); };
template <std::size_t... I> constexpr bool np_all(std::index_sequence<I...>) { bool r = true; bool a[] = {NpOk<I + 1>::value...}; for (bool b : a) r = r && b; return r; }
constexpr bool nextp2_ok() { return np_all(std::make_index_sequence<1100>()); }
