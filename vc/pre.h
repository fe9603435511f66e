// Pre-included by every witness translation unit.  The standard headers and the compiler's own
// intrinsics headers are parsed as clang; afterwards the library sees the GCC of the baseline build,
// so that the code analysed is the code the build compiles (Vc_GCC paths).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <vector>
#include <array>
#include <tuple>
#include <memory>
#include <limits>
#include <type_traits>
#include <functional>
#include <initializer_list>
#include <random>
#include <cassert>
#include <cfenv>
#include <string>
#include <ratio>
#include <utility>
#include <new>
#include <iterator>
#include <complex>
#include <list>
#include <deque>
#include <cstddef>
#include <cstdint>
#include <climits>
#include <x86intrin.h>
#ifndef VC_WITNESS_AS_CLANG
#undef __clang__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
#define __builtin_sincos ::sincos
#define __builtin_sincosf ::sincosf
#define __builtin_sincosl ::sincosl
#endif
