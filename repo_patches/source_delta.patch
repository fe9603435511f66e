From c1b3e9d81284e3b962e207cc86a1cae6e5ccdeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 01/59] fix: align AVX _IndexesFromZero16 to 32 bytes

AVX2 short_v/ushort_v(IndexesFromZero) reads the 32-byte table with an aligned
256-bit load (vmovdqa), but the table was only declared with 16-byte alignment,
so the load faults whenever the linker places it at an odd multiple of 16.
---
 Vc/avx/const_data.h | 2 +-
 src/const.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/avx/const_data.h b/Vc/avx/const_data.h
index 9d0a0c1..2c74e78 100644
--- a/Vc/avx/const_data.h
+++ b/Vc/avx/const_data.h
@@ -37,7 +37,7 @@ namespace AVX
 {
 
 alignas(64) extern const unsigned int   _IndexesFromZero32[ 8];
-alignas(16) extern const unsigned short _IndexesFromZero16[16];
+alignas(32) extern const unsigned short _IndexesFromZero16[16];
 alignas(16) extern const unsigned char  _IndexesFromZero8 [32];
 
 struct alignas(64) c_general
diff --git a/src/const.cpp b/src/const.cpp
index 94dd65a..b39949f 100644
--- a/src/const.cpp
+++ b/src/const.cpp
@@ -45,7 +45,7 @@ namespace AVX
 
     // cacheline 1
     alignas(64) extern const unsigned int   _IndexesFromZero32[ 8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
-    alignas(16) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
+    alignas(32) extern const unsigned short _IndexesFromZero16[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
     alignas(16) extern const unsigned char  _IndexesFromZero8 [32] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 };
 
     template <>
-- 
2.43.0


From 73ded0b7f087419b00f52f1c1fdd201ff7143ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 02/59] fix: SSE floating-point operator>= is false for
 unordered operands

_mm_cmpnlt is true when an operand is NaN; >= must be false (as on AVX and
Scalar).
---
 Vc/sse/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From 639f323f700d4605ae0e4b211b7dcfd20890e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 03/59] fix: AVX cmpge/cmpgt are false for unordered operands
 without GCC vector builtins

The non-GCC variants used NLT/NLE, which are true for NaN, unlike the GCC
variants.
---
 Vc/avx/intrinsics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/intrinsics.h b/Vc/avx/intrinsics.h
index 492e6b0..2122929 100644
--- a/Vc/avx/intrinsics.h
+++ b/Vc/avx/intrinsics.h
@@ -180,16 +180,16 @@ namespace AvxIntrinsics
     Vc_INTRINSIC __m256d cmpeq_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256d cmpneq_pd  (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256d cmplt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256d cmple_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GT_OS); }
 
     Vc_INTRINSIC __m256  cmpeq_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256  cmpneq_ps  (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256  cmplt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256  cmple_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GT_OS); }
 #endif
     Vc_INTRINSIC __m256d cmpnlt_pd  (__m256d a, __m256d b) { return cmpge_pd(a, b); }
     Vc_INTRINSIC __m256d cmpnle_pd  (__m256d a, __m256d b) { return cmpgt_pd(a, b); }
-- 
2.43.0


From 1bddf1cdf621bed46eba051dceab4068c0a69a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 04/59] fix: remove undefined AVX mask <-> std::array<bool>
 conversions

The two members were only declared; overload resolution preferred them for an
assignment between equally sized AVX masks of different entry type, which then
failed to link.
---
 Vc/avx/mask.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Vc/avx/mask.h b/Vc/avx/mask.h
index 512d36b..cdf8db8 100644
--- a/Vc/avx/mask.h
+++ b/Vc/avx/mask.h
@@ -139,8 +139,6 @@ public:
         template<typename Flags = DefaultLoadTag> Vc_INTRINSIC void store(bool *mem, Flags = Flags()) const;
 
         Vc_INTRINSIC Mask &operator=(const Mask &) = default;
-        Vc_INTRINSIC_L Mask &operator=(const std::array<bool, Size> &values) Vc_INTRINSIC_R;
-        Vc_INTRINSIC_L operator std::array<bool, Size>() const Vc_INTRINSIC_R;
 
         // specializations in mask.tcc
         Vc_INTRINSIC Vc_PURE bool operator==(const Mask &rhs) const
-- 
2.43.0


From 7f14629a644e7b74f5443196d453079279f680e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 05/59] fix: masked increment/decrement must not modify
 unselected lanes

Adding a zeroed lane turned -0.0 into +0.0 (and quieted signalling NaNs) in
lanes the mask does not select.
---
 Vc/common/writemaskedvector.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..0289dd7 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -56,15 +56,13 @@ public:
     // prefix
     Vc_INTRINSIC V &operator++()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec += one;
+        operator=(static_cast<V>(vec + V::One()));
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec -= one;
+        operator=(static_cast<V>(vec - V::One()));
+        return vec;
     }
 
     // postfix
-- 
2.43.0


From 5b1e70fe62bd8606512bc79aff2846345c9eb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 06/59] fix: zeroExtend to 256 bits really zeroes the upper
 half with GCC

---
 Vc/avx/casts.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/Vc/avx/casts.h b/Vc/avx/casts.h
index 2dcf609..8638101 100644
--- a/Vc/avx/casts.h
+++ b/Vc/avx/casts.h
@@ -76,15 +76,9 @@ namespace Casts
     template<> Vc_INTRINSIC __m256d avx_cast(__m128i v) { return _mm256_castpd128_pd256(_mm_castsi128_pd(v)); }
     template<> Vc_INTRINSIC __m256d avx_cast(__m128d v) { return _mm256_castpd128_pd256(v); }
 
-#if defined Vc_MSVC || defined Vc_CLANG || defined Vc_APPLECLANG
     static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_permute2f128_ps   (_mm256_castps128_ps256(v), _mm256_castps128_ps256(v), 0x80); }
     static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_permute2f128_si256(_mm256_castsi128_si256(v), _mm256_castsi128_si256(v), 0x80); }
     static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_permute2f128_pd   (_mm256_castpd128_pd256(v), _mm256_castpd128_pd256(v), 0x80); }
-#else
-    static Vc_INTRINSIC Vc_CONST __m256  zeroExtend(__m128  v) { return _mm256_castps128_ps256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256i zeroExtend(__m128i v) { return _mm256_castsi128_si256(v); }
-    static Vc_INTRINSIC Vc_CONST __m256d zeroExtend(__m128d v) { return _mm256_castpd128_pd256(v); }
-#endif
 
     // 256 -> 128
     template<> Vc_INTRINSIC __m128  avx_cast(__m256  v) { return _mm256_castps256_ps128(v); }
-- 
2.43.0


From e189c66b74bdb558ab52c26f3c5ec4e6ee0a2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 07/59] fix: SSE double_v loads from 8-bit integers compile and
 convert

---
 Vc/sse/detail.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..a6d77c5 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -291,14 +291,14 @@ Vc_INTRINSIC __m128d load(const short *mem, Flags, LoadTag<__m128d, double>)
 template <typename Flags>
 Vc_INTRINSIC __m128d load(const uchar *mem, Flags, LoadTag<__m128d, double>)
 {
-    return SSE::convert<uchar, double>(
-        _mm_set1_epi16(*aliasing_cast<short>(mem)));
+    return SSE::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_set1_epi16(*aliasing_cast<short>(mem))));
 }
 template <typename Flags>
 Vc_INTRINSIC __m128d load(const schar *mem, Flags, LoadTag<__m128d, double>)
 {
-    return SSE::convert<char, double>(
-        _mm_set1_epi16(*aliasing_cast<short>(mem)));
+    return SSE::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_set1_epi16(*aliasing_cast<short>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From 84646c3341d062f00cb6e7c63c88bdabeb867973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 08/59] fix: AVX double_v loads from 8- and 16-bit integers
 convert the addressed elements only

---
 Vc/avx/detail.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..95d9560 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -373,24 +373,26 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
     return AVX::convert<int, double>(load16(mem, f));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const ushort *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<ushort, double>(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const short *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<short, double>(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const uchar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const schar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From c5a76f9459422b191cf5c775c2c3ff50d4d66a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 09/59] fix: AVX float_v load from uint rounds once

---
 Vc/avx/detail.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 95d9560..a31c78d 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -405,12 +405,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From d880aec80687e236cddcf34ca2e626b7fc571ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 10/59] fix: aligned SSE float_v load from double only requires
 16-byte alignment with AVX

---
 Vc/sse/detail.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index a6d77c5..ea02641 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -305,18 +305,8 @@ Vc_INTRINSIC __m128d load(const schar *mem, Flags, LoadTag<__m128d, double>)
 template <typename Flags>
 Vc_INTRINSIC __m128 load(const double *mem, Flags, LoadTag<__m128, float>)
 {
-#ifdef Vc_IMPL_AVX
-    if (Flags::IsUnaligned) {
-        return _mm256_cvtpd_ps(_mm256_loadu_pd(mem));
-    } else if (Flags::IsStreaming) {
-        return _mm256_cvtpd_ps(AvxIntrinsics::stream_load<__m256d>(mem));
-    } else {  // Flags::IsAligned
-        return _mm256_cvtpd_ps(_mm256_load_pd(mem));
-    }
-#else
     return _mm_movelh_ps(_mm_cvtpd_ps(SSE::VectorHelper<__m128d>::load<Flags>(&mem[0])),
                          _mm_cvtpd_ps(SSE::VectorHelper<__m128d>::load<Flags>(&mem[2])));
-#endif
 }
 template <typename Flags>
 Vc_INTRINSIC __m128 load(const uint *mem, Flags f, LoadTag<__m128, float>)
-- 
2.43.0


From 0a68be57982a4c6c785d0566fa7fd6e6bd2eae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 11/59] fix: SSE short_v converting constructor from int/uint
 truncates instead of saturating

---
 Vc/sse/casts.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..e74f5a8 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -127,8 +127,8 @@ Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<uint  , double>) { return _mm
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<short , double>) { return convert(convert(v, ConvertTag<short, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128d convert(__m128i v, ConvertTag<ushort, double>) { return convert(convert(v, ConvertTag<ushort, int>()), ConvertTag<int, double>()); }
 Vc_INTRINSIC __m128i convert(__m128  v, ConvertTag<float , short >) { return _mm_packs_epi32(_mm_cvttps_epi32(v), _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
-Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return _mm_packs_epi32(v, _mm_setzero_si128()); }
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , short >) { return _mm_packs_epi32(_mm_srai_epi32(_mm_slli_epi32(v, 16), 16), _mm_setzero_si128()); }
+Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<uint  , short >) { return _mm_packs_epi32(_mm_srai_epi32(_mm_slli_epi32(v, 16), 16), _mm_setzero_si128()); }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<short , short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<ushort, short >) { return v; }
 Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, short >) { return convert(convert(v, ConvertTag<double, int>()), ConvertTag<int, short>()); }
-- 
2.43.0


From c247c1425e55cf7be58bf931d4f506f0a3b67170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 12/59] fix: SSE2 double_v to uint_v selects each 32-bit lane
 with its own compare result

---
 Vc/sse/casts.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index e74f5a8..c9a8001 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -98,7 +98,9 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       _mm_shuffle_epi32(
+                           _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))),
+                           _MM_SHUFFLE(3, 1, 2, 0)));
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From da5322b90de25caadd36264509f28574cd170699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 13/59] fix: Mem::permute of __m128d encodes the second
 selector in bit 1

---
 Vc/sse/shuffle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/sse/shuffle.h b/Vc/sse/shuffle.h
index 6652766..6318a97 100644
--- a/Vc/sse/shuffle.h
+++ b/Vc/sse/shuffle.h
@@ -106,7 +106,7 @@ namespace Mem
         template<VecPos Dst0, VecPos Dst1> static Vc_ALWAYS_INLINE Vc_CONST __m128d permute(__m128d x) {
             static_assert(Dst0 >= X0 && Dst1 >= X0, "Incorrect_Range");
             static_assert(Dst0 <= X1 && Dst1 <= X1, "Incorrect_Range");
-            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 4);
+            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 2);
         }
 
         template<VecPos Dst0, VecPos Dst1, VecPos Dst2, VecPos Dst3> static Vc_ALWAYS_INLINE __m128i Vc_CONST permute(__m128i x) {
-- 
2.43.0


From 5255f0fafb1765b1748479bd0f3a04e13fa1906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 14/59] fix: AVX double_v::broadcast<Index>() compiles

---
 Vc/avx/vector.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..86ae40a 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -930,8 +930,9 @@ template <> template <int Index> Vc_INTRINSIC AVX2::float_v AVX2::float_v::broad
 template <> template <int Index> Vc_INTRINSIC AVX2::double_v AVX2::double_v::broadcast() const
 {
     constexpr VecPos Inner = static_cast<VecPos>(Index & 0x1);
+    constexpr VecPos InnerHi = static_cast<VecPos>(Inner + X2);
     constexpr VecPos Outer = static_cast<VecPos>((Index & 0x2) / 2);
-    return Mem::permute<Inner, Inner>(Mem::permute128<Outer, Outer>(d.v()));
+    return Mem::permute<Inner, Inner, InnerHi, InnerHi>(Mem::permute128<Outer, Outer>(d.v()));
 }
 // }}}1
 }  // namespace Vc
-- 
2.43.0


From 87383b210b18fe8c70d1292c990f231a7802826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 15/59] fix: SSE float_v permutation by index vector without
 AVX permutes

---
 Vc/sse/vector.tcc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..ba376b9 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -729,11 +729,7 @@ template <> Vc_INTRINSIC Vc_PURE SSE::ushort_v SSE::ushort_v::reversed() const
 // }}}1
 // permutation via operator[] {{{1
 template <>
-Vc_INTRINSIC SSE::float_v SSE::float_v::operator[](const SSE::int_v &
-#ifdef Vc_IMPL_AVX
-                                             perm
-#endif
-                                         ) const
+Vc_INTRINSIC SSE::float_v SSE::float_v::operator[](const SSE::int_v &perm) const
 {
     /*
     const int_m cross128 = concat(_mm_cmpgt_epi32(lo128(perm.data()), _mm_set1_epi32(3)),
@@ -747,7 +743,7 @@ Vc_INTRINSIC SSE::float_v SSE::float_v::operator[](const SSE::int_v &
 #ifdef Vc_IMPL_AVX
     return _mm_permutevar_ps(d.v(), perm.data());
 #else
-    return *this;//TODO
+    return generate([&](int i) { return d.m(perm[i] & 3); });
 #endif
 }
 // broadcast from constexpr index {{{1
-- 
2.43.0


From 84a3e4d072bcc32acd167e6637c7d54c38d6cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 16/59] fix: SSE/AVX masked min()/max() use a neutral start
 value for float and double

---
 Vc/avx/vector.tcc | 8 ++++++--
 Vc/sse/vector.tcc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 86ae40a..17fd4c8 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -600,13 +600,17 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity
+                                       ? std::numeric_limits<T>::infinity()
+                                       : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity
+                                       ? T(-std::numeric_limits<T>::infinity())
+                                       : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index ba376b9..1278f58 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -425,13 +425,17 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity
+                                       ? std::numeric_limits<T>::infinity()
+                                       : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity
+                                       ? T(-std::numeric_limits<T>::infinity())
+                                       : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From 63dca19cd5f16d444476b92ae0d9db1ea48be67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 17/59] fix: Scalar round() is exact below 0.5 and for values
 without fractional bits

---
 Vc/scalar/math.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..a9afb40 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,14 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
-- 
2.43.0


From 5f830cc4448b548679881f8f08e08ba3f95caf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 18/59] fix: SSE2/SSSE3 round() of values outside the int range
 and of negative values that round to zero

---
 Vc/sse/vectorhelper.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..096ae6c 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -210,8 +210,15 @@ namespace SSE
 #ifdef Vc_IMPL_SSE4_1
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
-                //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // adding and subtracting 2^52 rounds the magnitude to an integer; values of at
+                // least 2^52 (and NaN) have no fractional bits
+                const VectorType magnitude = abs(a);
+                const VectorType magic = _mm_set1_pd(4503599627370496.);
+                const VectorType has_fraction = _mm_cmplt_pd(magnitude, magic);
+                const VectorType rounded = _mm_sub_pd(_mm_add_pd(magnitude, magic), magic);
+                return _mm_or_pd(_mm_and_pd(a, _mm_setsignmask_pd()),
+                                 _mm_or_pd(_mm_and_pd(has_fraction, rounded),
+                                           _mm_andnot_pd(has_fraction, magnitude)));
 #endif
             }
         };
@@ -292,8 +299,12 @@ namespace SSE
 #ifdef Vc_IMPL_SSE4_1
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
-                //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // values of at least 2^23 (and NaN) have no fractional bits
+                const VectorType has_fraction = _mm_cmplt_ps(abs(a), _mm_set1_ps(8388608.f));
+                const VectorType rounded = _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                return _mm_or_ps(_mm_and_ps(a, _mm_setsignmask_ps()),
+                                 _mm_or_ps(_mm_and_ps(has_fraction, rounded),
+                                           _mm_andnot_ps(has_fraction, a)));
 #endif
             }
         };
-- 
2.43.0


From 4886146c0d9acf8c7b02cf446f8cd3df8bcbc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 19/59] fix: SSE2/SSSE3 trunc(), floor(), ceil() of odd double
 values above 2^52 and of negative values truncated to zero

---
 Vc/sse/math.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..96acbf6 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -123,8 +123,10 @@ inline SSE::Vector<float> trunc(SSE::Vector<float> x)
         _mm_and_si128(_mm_castps_si128(x.data()), _mm_set1_epi32(0x7f800000u)),
         _mm_set1_epi32(0x4b000000)));  // the exponent is so large that no mantissa bits
                                        // signify fractional values (0x3f8 + 23*8 = 0x4b0)
-    return _mm_or_ps(_mm_andnot_ps(no_fractional_values, x.data()),
-                     _mm_and_ps(no_fractional_values, truncated));
+    // the sign bit is preserved in any case (e.g. trunc(-0.5f) is -0.f)
+    return _mm_or_ps(_mm_and_ps(SSE::_mm_setsignmask_ps(), x.data()),
+                     _mm_or_ps(_mm_andnot_ps(no_fractional_values, x.data()),
+                               _mm_and_ps(no_fractional_values, truncated)));
 }
 
 inline SSE::Vector<double> trunc(SSE::Vector<double> x)
@@ -138,6 +140,10 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     // abs(x)` holds, so subtract 1 to truncated if `abs(x) < truncated`
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
+    // larger values (and NaN) don't have fractional bits
+    const auto has_fraction = _mm_cmplt_pd(abs_x, min_no_fractional_bits);
+    truncated = _mm_or_pd(_mm_and_pd(has_fraction, truncated),
+                          _mm_andnot_pd(has_fraction, abs_x));
     // finally, fix the sign bit:
     return _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
-- 
2.43.0


From 1a7e96df4bc04f6806547e0ac62b57e6baa4fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 20/59] fix: SSE/AVX ldexp() of infinities and NaN returns them
 unchanged

---
 Vc/avx/math.h | 5 +++--
 Vc/sse/math.h | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..cfc2681 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -248,7 +248,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero() || !isfinite(v)));
     const __m256i exponentBits =
         AVX::concat(_mm_slli_epi64(_mm_unpacklo_epi32(e.data(), e.data()), 52),
                     _mm_slli_epi64(_mm_unpackhi_epi32(e.data(), e.data()), 52));
@@ -257,7 +257,8 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
-    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
+    e.setZero(
+        simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero() || !isfinite(v)));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
     return {AVX::avx_cast<__m256>(
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index 96acbf6..79a44e6 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -93,7 +93,7 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
-    e.setZero((v == SSE::double_v::Zero()).dataI());
+    e.setZero((v == SSE::double_v::Zero() || !isfinite(v)).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
     return _mm_castsi128_pd(_mm_add_epi64(_mm_castpd_si128(v.data()), exponentBits));
 }
@@ -101,7 +101,7 @@ inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero() || !isfinite(v)));
     return reinterpret_components_cast<SSE::float_v>(
         reinterpret_components_cast<SSE::int_v>(v) + (e << 23));
 }
-- 
2.43.0


From 9cd02cfe135b447b71f8468ffe19ac4a3107b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 21/59] fix: SimdArray::shifted() by a negative amount takes
 the values for the upper part from the end of the lower part

For register mixtures (e.g. SimdArray<int, 12>) data1.shifted(amount, data0)
shifted in the first instead of the last values of data0.
---
 Vc/common/simdarray.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..47e27ab 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1134,7 +1134,14 @@ public:
         }
         if (amount < 0) {
             if (amount > -SSize0) {
-                return {data0.shifted(amount), data1.shifted(amount, data0)};
+                // the values shifted into data1 come from the end of data0
+                if (amount <= -SSize1) {
+                    return {data0.shifted(amount),
+                            simd_cast<storage_type1>(data0.shifted(amount + SSize0))};
+                }
+                return {data0.shifted(amount),
+                        data1.shifted(amount, simd_cast<storage_type1>(
+                                                  data0.shifted(SSize0 - SSize1)))};
             }
             if (amount == -SSize0) {
                 return {storage_type0(0), simd_cast<storage_type1>(data0)};
-- 
2.43.0


From 5ff2e474b203e23875aa55940b5dd7548e46ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 22/59] fix: SimdArray::shifted() does not read beyond the end
 of a shorter shift-in SimdArray

---
 Vc/common/simdarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 47e27ab..26f838f 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1179,7 +1179,7 @@ public:
                 i += amount;
                 if (i >= 0) {
                     return operator[](i);
-                } else if (i >= -SSize) {
+                } else if (i >= -SSize && i + SSize < int(NN)) {
                     return shiftIn[i + SSize];
                 }
                 return 0;
@@ -1189,7 +1189,7 @@ public:
             i += amount;
             if (i < SSize) {
                 return operator[](i);
-            } else if (i < 2 * SSize) {
+            } else if (i < 2 * SSize && i - SSize < int(NN)) {
                 return shiftIn[i - SSize];
             }
             return 0;
-- 
2.43.0


From 2420dbd799d6469cb27efa46330e3c9c8f65e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 23/59] fix: SimdMaskArray::Zero() and One() compile for mask
 arrays with more than one register

---
 Vc/common/simdmaskarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index c2b6899..26461aa 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -91,8 +91,8 @@ public:
     Vc_INTRINSIC explicit SimdMaskArray(VectorSpecialInitializerOne one) : data(one) {}
     Vc_INTRINSIC explicit SimdMaskArray(VectorSpecialInitializerZero zero) : data(zero) {}
     Vc_INTRINSIC explicit SimdMaskArray(bool b) : data(b) {}
-    Vc_INTRINSIC static SimdMaskArray Zero() { return {private_init, storage_type::Zero()}; }
-    Vc_INTRINSIC static SimdMaskArray One() { return {private_init, storage_type::One()}; }
+    Vc_INTRINSIC static fixed_size_simd_mask<T, N> Zero() { return {private_init, storage_type::Zero()}; }
+    Vc_INTRINSIC static fixed_size_simd_mask<T, N> One() { return {private_init, storage_type::One()}; }
 
     // conversion (casts); implemented in simd_cast_caller.tcc
     template <class U, class V, class = enable_if<N == V::Size>>
-- 
2.43.0


From 4968e488c44276aeafffbaab2946c64bc1295549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 24/59] fix: AVX2 deinterleave of uint_v from unsigned short
 sign-extended the values

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From cfb5bb6c529401d5f494b680486b763fa69da20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 25/59] fix: interleaved memory access through SimdArray was an
 ambiguous template instantiation

---
 Vc/common/interleavedmemory.h |  3 ++-
 Vc/common/simdarray.h         | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/Vc/common/interleavedmemory.h b/Vc/common/interleavedmemory.h
index f2f6ec4..76fd2b8 100644
--- a/Vc/common/interleavedmemory.h
+++ b/Vc/common/interleavedmemory.h
@@ -62,7 +62,8 @@ template<typename V, typename I, bool Readonly> struct InterleavedMemoryAccessBa
     }
 
 protected:
-    using Impl = Vc::Detail::InterleaveImpl<V, V::Size, sizeof(V)>;
+    using Impl = Vc::Detail::InterleaveImpl<V, V::Size,
+                                            Traits::isAtomicSimdArray<V>::value ? 0 : sizeof(V)>;
 
     template <typename T, std::size_t... Indexes>
     Vc_INTRINSIC void callInterleave(T &&a, index_sequence<Indexes...>)
diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 26f838f..4f2c178 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -2691,19 +2691,25 @@ namespace Detail
 {
 // InterleaveImpl for SimdArrays {{{
 // atomic {{{1
-template <class T, size_t N,  class V, size_t VSizeof>
-struct InterleaveImpl<SimdArray<T, N, V, N>, N, VSizeof> {
+// (the size argument 0 keeps this unambiguous with the InterleaveImpl<V, N, sizeof(V)>
+// specializations of the native vector types)
+template <class T, size_t N, class V>
+struct InterleaveImpl<SimdArray<T, N, V, N>, N, 0> {
     template <class I, class... VV>
     static Vc_INTRINSIC void interleave(T *const data, const I &i, const VV &... vv)
     {
-        InterleaveImpl<V, N, VSizeof>::interleave(data, i, internal_data(vv)...);
+        InterleaveImpl<V, N, sizeof(V)>::interleave(data, i, internal_data(vv)...);
     }
     template <class I, class... VV>
     static Vc_INTRINSIC void deinterleave(T const *const data, const I &i, VV &... vv)
     {
-        InterleaveImpl<V, N, VSizeof>::deinterleave(data, i, internal_data(vv)...);
+        InterleaveImpl<V, N, sizeof(V)>::deinterleave(data, i, internal_data(vv)...);
     }
 };
+template <class T, int N, size_t Size>
+struct InterleaveImpl<fixed_size_simd<T, N>, Size, 0>
+    : InterleaveImpl<SimdArray<T, N>, Size, 0> {
+};
 
 // generic (TODO) {{{1
 /*
-- 
2.43.0


From 019ca551395eb2d5d3196a05f5169650bb0433da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 26/59] fix: deinterleaving gathers of 3, 5, 6 or 7 members
 read past the end of the struct

---
 Vc/avx/detail.h | 136 ++++++++++++++++++++++++------------------------
 Vc/sse/detail.h | 113 +++++++++++++++++++++++++++-------------
 2 files changed, 145 insertions(+), 104 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index a31c78d..1933c23 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1475,18 +1475,18 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const __m256i tmp0 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[0]]), *aliasing_cast<double>(&data[i[1]]),
-            *aliasing_cast<double>(&data[i[8]]), *aliasing_cast<double>(&data[i[9]])));
-        const __m256i tmp1 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[2]]), *aliasing_cast<double>(&data[i[3]]),
-            *aliasing_cast<double>(&data[i[10]]), *aliasing_cast<double>(&data[i[11]])));
-        const __m256i tmp2 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[4]]), *aliasing_cast<double>(&data[i[5]]),
-            *aliasing_cast<double>(&data[i[12]]), *aliasing_cast<double>(&data[i[13]])));
-        const __m256i tmp3 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[6]]), *aliasing_cast<double>(&data[i[7]]),
-            *aliasing_cast<double>(&data[i[14]]), *aliasing_cast<double>(&data[i[15]])));
+        const __m256i tmp0 = concat(
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[0]]), LoadEntries<3>::load(&data[i[1]])),
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[8]]), LoadEntries<3>::load(&data[i[9]])));
+        const __m256i tmp1 = concat(
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[2]]), LoadEntries<3>::load(&data[i[3]])),
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[10]]), LoadEntries<3>::load(&data[i[11]])));
+        const __m256i tmp2 = concat(
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[4]]), LoadEntries<3>::load(&data[i[5]])),
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[12]]), LoadEntries<3>::load(&data[i[13]])));
+        const __m256i tmp3 = concat(
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[6]]), LoadEntries<3>::load(&data[i[7]])),
+            _mm_unpacklo_epi64(LoadEntries<3>::load(&data[i[14]]), LoadEntries<3>::load(&data[i[15]])));
         const __m256i tmp4 = AVX::unpacklo_epi16(tmp0, tmp2); // a0 a4 b0 b4 c0 c4 XX XX | a8 a12 b8 ...
         const __m256i tmp5 = AVX::unpackhi_epi16(tmp0, tmp2); // a1 a5 ...
         const __m256i tmp6 = AVX::unpacklo_epi16(tmp1, tmp3); // a2 a6 ...
@@ -1536,22 +1536,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(LoadEntries<5>::load(&data[i[0]]),
+                                 LoadEntries<5>::load(&data[i[8]]));
+        const __m256i b = concat(LoadEntries<5>::load(&data[i[1]]),
+                                 LoadEntries<5>::load(&data[i[9]]));
+        const __m256i c = concat(LoadEntries<5>::load(&data[i[2]]),
+                                 LoadEntries<5>::load(&data[i[10]]));
+        const __m256i d = concat(LoadEntries<5>::load(&data[i[3]]),
+                                 LoadEntries<5>::load(&data[i[11]]));
+        const __m256i e = concat(LoadEntries<5>::load(&data[i[4]]),
+                                 LoadEntries<5>::load(&data[i[12]]));
+        const __m256i f = concat(LoadEntries<5>::load(&data[i[5]]),
+                                 LoadEntries<5>::load(&data[i[13]]));
+        const __m256i g = concat(LoadEntries<5>::load(&data[i[6]]),
+                                 LoadEntries<5>::load(&data[i[14]]));
+        const __m256i h = concat(LoadEntries<5>::load(&data[i[7]]),
+                                 LoadEntries<5>::load(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1579,22 +1579,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(LoadEntries<6>::load(&data[i[0]]),
+                                 LoadEntries<6>::load(&data[i[8]]));
+        const __m256i b = concat(LoadEntries<6>::load(&data[i[1]]),
+                                 LoadEntries<6>::load(&data[i[9]]));
+        const __m256i c = concat(LoadEntries<6>::load(&data[i[2]]),
+                                 LoadEntries<6>::load(&data[i[10]]));
+        const __m256i d = concat(LoadEntries<6>::load(&data[i[3]]),
+                                 LoadEntries<6>::load(&data[i[11]]));
+        const __m256i e = concat(LoadEntries<6>::load(&data[i[4]]),
+                                 LoadEntries<6>::load(&data[i[12]]));
+        const __m256i f = concat(LoadEntries<6>::load(&data[i[5]]),
+                                 LoadEntries<6>::load(&data[i[13]]));
+        const __m256i g = concat(LoadEntries<6>::load(&data[i[6]]),
+                                 LoadEntries<6>::load(&data[i[14]]));
+        const __m256i h = concat(LoadEntries<6>::load(&data[i[7]]),
+                                 LoadEntries<6>::load(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1623,22 +1623,22 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(LoadEntries<7>::load(&data[i[0]]),
+                                 LoadEntries<7>::load(&data[i[8]]));
+        const __m256i b = concat(LoadEntries<7>::load(&data[i[1]]),
+                                 LoadEntries<7>::load(&data[i[9]]));
+        const __m256i c = concat(LoadEntries<7>::load(&data[i[2]]),
+                                 LoadEntries<7>::load(&data[i[10]]));
+        const __m256i d = concat(LoadEntries<7>::load(&data[i[3]]),
+                                 LoadEntries<7>::load(&data[i[11]]));
+        const __m256i e = concat(LoadEntries<7>::load(&data[i[4]]),
+                                 LoadEntries<7>::load(&data[i[12]]));
+        const __m256i f = concat(LoadEntries<7>::load(&data[i[5]]),
+                                 LoadEntries<7>::load(&data[i[13]]));
+        const __m256i g = concat(LoadEntries<7>::load(&data[i[6]]),
+                                 LoadEntries<7>::load(&data[i[14]]));
+        const __m256i h = concat(LoadEntries<7>::load(&data[i[7]]),
+                                 LoadEntries<7>::load(&data[i[15]]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1959,14 +1959,14 @@ template<typename V> struct InterleaveImpl<V, 8, 32> {
                                     V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const m128  il0 = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]])); // a0 b0 c0 d0
-        const m128  il1 = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]])); // a1 b1 c1 d1
-        const m128  il2 = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]])); // a2 b2 c2 d2
-        const m128  il3 = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]])); // a3 b3 c3 d3
-        const m128  il4 = _mm_loadu_ps(aliasing_cast<float>(&data[i[4]])); // a4 b4 c4 d4
-        const m128  il5 = _mm_loadu_ps(aliasing_cast<float>(&data[i[5]])); // a5 b5 c5 d5
-        const m128  il6 = _mm_loadu_ps(aliasing_cast<float>(&data[i[6]])); // a6 b6 c6 d6
-        const m128  il7 = _mm_loadu_ps(aliasing_cast<float>(&data[i[7]])); // a7 b7 c7 d7
+        const m128  il0 = LoadEntries<3>::load(&data[i[0]]); // a0 b0 c0 d0
+        const m128  il1 = LoadEntries<3>::load(&data[i[1]]); // a1 b1 c1 d1
+        const m128  il2 = LoadEntries<3>::load(&data[i[2]]); // a2 b2 c2 d2
+        const m128  il3 = LoadEntries<3>::load(&data[i[3]]); // a3 b3 c3 d3
+        const m128  il4 = LoadEntries<3>::load(&data[i[4]]); // a4 b4 c4 d4
+        const m128  il5 = LoadEntries<3>::load(&data[i[5]]); // a5 b5 c5 d5
+        const m128  il6 = LoadEntries<3>::load(&data[i[6]]); // a6 b6 c6 d6
+        const m128  il7 = LoadEntries<3>::load(&data[i[7]]); // a7 b7 c7 d7
 
         const m256 il04 = concat(il0, il4);
         const m256 il15 = concat(il1, il5);
diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index ea02641..eeabae9 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -807,6 +807,47 @@ static Vc_INTRINSIC Vc_CONST enable_if<(sizeof(V) == 16), V> rotated(V v, int am
     return sse_cast<V>(_mm_setzero_si128());
 }
 
+// loadEntries{{{1
+/**
+ * \internal
+ * Load exactly \p N 16-bit (3, 5, 6, 7) or 32-bit (3) entries without touching the memory that
+ * follows them (it might lie behind the end of the array). The remaining entries are zero.
+ */
+template <size_t N> struct LoadEntries;
+template <> struct LoadEntries<3> {
+    template <typename T>
+    static Vc_INTRINSIC enable_if<sizeof(T) == 2, __m128i> load(const T *m)
+    {
+        return _mm_insert_epi16(_mm_cvtsi32_si128(*aliasing_cast<int>(m)), m[2], 2);
+    }
+    template <typename T>
+    static Vc_INTRINSIC enable_if<sizeof(T) == 4, __m128> load(const T *m)
+    {
+        return _mm_movelh_ps(_mm_castpd_ps(_mm_load_sd(aliasing_cast<double>(m))),
+                             _mm_load_ss(aliasing_cast<float>(m + 2)));
+    }
+};
+template <> struct LoadEntries<5> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *m)
+    {
+        return _mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(m)), m[4],
+                                4);
+    }
+};
+template <> struct LoadEntries<6> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *m)
+    {
+        return _mm_unpacklo_epi64(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(m)),
+                                  _mm_cvtsi32_si128(*aliasing_cast<int>(m + 4)));
+    }
+};
+template <> struct LoadEntries<7> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *m)
+    {
+        return _mm_insert_epi16(LoadEntries<6>::load(m), m[6], 6);
+    }
+};
+
 //InterleaveImpl{{{1
 template<typename V, size_t Size, size_t VSize> struct InterleaveImpl;
 template<typename V> struct InterleaveImpl<V, 8, 16> {
@@ -994,14 +1035,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128i a = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = LoadEntries<3>::load(&data[i[0]]);
+        const __m128i b = LoadEntries<3>::load(&data[i[1]]);
+        const __m128i c = LoadEntries<3>::load(&data[i[2]]);
+        const __m128i d = LoadEntries<3>::load(&data[i[3]]);
+        const __m128i e = LoadEntries<3>::load(&data[i[4]]);
+        const __m128i f = LoadEntries<3>::load(&data[i[5]]);
+        const __m128i g = LoadEntries<3>::load(&data[i[6]]);
+        const __m128i h = LoadEntries<3>::load(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1047,14 +1088,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = LoadEntries<5>::load(&data[i[0]]);
+        const __m128i b = LoadEntries<5>::load(&data[i[1]]);
+        const __m128i c = LoadEntries<5>::load(&data[i[2]]);
+        const __m128i d = LoadEntries<5>::load(&data[i[3]]);
+        const __m128i e = LoadEntries<5>::load(&data[i[4]]);
+        const __m128i f = LoadEntries<5>::load(&data[i[5]]);
+        const __m128i g = LoadEntries<5>::load(&data[i[6]]);
+        const __m128i h = LoadEntries<5>::load(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1081,14 +1122,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = LoadEntries<6>::load(&data[i[0]]);
+        const __m128i b = LoadEntries<6>::load(&data[i[1]]);
+        const __m128i c = LoadEntries<6>::load(&data[i[2]]);
+        const __m128i d = LoadEntries<6>::load(&data[i[3]]);
+        const __m128i e = LoadEntries<6>::load(&data[i[4]]);
+        const __m128i f = LoadEntries<6>::load(&data[i[5]]);
+        const __m128i g = LoadEntries<6>::load(&data[i[6]]);
+        const __m128i h = LoadEntries<6>::load(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1116,14 +1157,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = LoadEntries<7>::load(&data[i[0]]);
+        const __m128i b = LoadEntries<7>::load(&data[i[1]]);
+        const __m128i c = LoadEntries<7>::load(&data[i[2]]);
+        const __m128i d = LoadEntries<7>::load(&data[i[3]]);
+        const __m128i e = LoadEntries<7>::load(&data[i[4]]);
+        const __m128i f = LoadEntries<7>::load(&data[i[5]]);
+        const __m128i g = LoadEntries<7>::load(&data[i[6]]);
+        const __m128i h = LoadEntries<7>::load(&data[i[7]]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1306,10 +1347,10 @@ template<typename V> struct InterleaveImpl<V, 4, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128 a = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]]));
-        const __m128 b = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]]));
-        const __m128 c = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]]));
-        const __m128 d = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]]));
+        const __m128 a = LoadEntries<3>::load(&data[i[0]]);
+        const __m128 b = LoadEntries<3>::load(&data[i[1]]);
+        const __m128 c = LoadEntries<3>::load(&data[i[2]]);
+        const __m128 d = LoadEntries<3>::load(&data[i[3]]);
 
         const __m128 tmp0 = _mm_unpacklo_ps(a, b); // [a0 a1 b0 b1]
         const __m128 tmp1 = _mm_unpacklo_ps(c, d); // [a2 a3 b2 b3]
-- 
2.43.0


From dee1afc83761c493a814b80c5b38337b799de871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 27/59] fix: transpose proxy kept references to the by-value
 parameters of transpose()

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..8b18f2c 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,7 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From d05e6951d3b68b61b277dccd884fe7e3e0e1dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 28/59] fix: CpuId decoded the extended family number from the
 wrong bits

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From a25b2ed48cae1fb996076799725fdaf8a225fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 29/59] fix: CpuId::L3Associativity reported the L2
 associativity on AMD

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From 1478f17d1ab057303e10085dae9fc668c4d2b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 30/59] fix: scale gather indexes explicitly if the struct size
 is no valid gather scale

_mm256_i32gather_epi32 accepts only 1, 2, 4, and 8 as scale, thus reading
members of a 6 Byte struct into AVX2 short_v/ushort_v did not compile.
---
 Vc/common/subscript.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Vc/common/subscript.h b/Vc/common/subscript.h
index 1ccf1b4..80ee902 100644
--- a/Vc/common/subscript.h
+++ b/Vc/common/subscript.h
@@ -283,8 +283,11 @@ public:
     {
     }
 
+    // the gather instructions only support scaling by 1, 2, 4, or 8 Bytes
+    static constexpr std::size_t scale_in_bytes = Scale::num / Scale::den * sizeof(T);
     static constexpr bool need_explicit_scaling =
-        Scale::num % Scale::den != 0 || Scale::num / Scale::den * sizeof(T) > 8;
+        Scale::num % Scale::den != 0 || scale_in_bytes > 8 ||
+        (scale_in_bytes & (scale_in_bytes - 1)) != 0;
 
     Vc_ALWAYS_INLINE
         GatherArguments<typename std::remove_cv<T>::type, IndexVectorScaled,
-- 
2.43.0


From 2b5e4db2e72941983cf2372d1611b3501caf4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 31/59] fix: qualify the std algorithms used by span

Neither comparing spans nor constructing one from a pair of pointers compiled,
because distance, equal, and lexicographical_compare were not found.
---
 Vc/common/span.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index 1687834..9a694f7 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -13,6 +13,7 @@
 #ifndef VC_COMMON_SPAN_H_
 #define VC_COMMON_SPAN_H_
 
+#include <algorithm>    // for equal, lexicographical_compare
 #include <array>        // for array
 #include <cstddef>      // for ptrdiff_t
 #include <cstddef>      // for std::byte
@@ -161,7 +162,7 @@ public:
     {
         (void)_l;
         Vc_ASSERT(((void)"size mismatch in span's constructor (ptr, ptr)",
-                   Extent == distance(_f, _l)));
+                   Extent == std::distance(_f, _l)));
     }
 
     Vc_CONSTEXPR span(element_type (&_arr)[Extent]) noexcept : data_{_arr} {}
@@ -363,7 +364,7 @@ public:
     Vc_CONSTEXPR span& operator=(const span&) noexcept = default;
 
     Vc_CONSTEXPR span(pointer _ptr, index_type _count) : data_{_ptr}, size_{_count} {}
-    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{distance(_f, _l)} {}
+    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{std::distance(_f, _l)} {}
 
     template <size_t Sz>
     inline Vc_CONSTEXPR span(element_type (&_arr)[Sz]) noexcept : data_{_arr}, size_{Sz}
@@ -541,7 +542,7 @@ private:
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator==(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
@@ -553,7 +554,7 @@ Vc_CONSTEXPR bool operator!=(const span<T1, Extent1>& lhs, const span<T2, Extent
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator<(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
-- 
2.43.0


From 935299994b5115a680e0783eff26fe3c4a2c25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 32/59] fix: make Vc::array::swap usable

The exception specification used the void expression instead of its noexcept
property and std::swap required const arrays. Thus neither could be called.
---
 Vc/array | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Vc/array b/Vc/array
index 0ba1e2c..ce0115e 100644
--- a/Vc/array
+++ b/Vc/array
@@ -102,7 +102,7 @@ template <class T, size_t Size> struct array {
 
     // No explicit construct/copy/destroy for aggregate type
     void fill(const value_type& u_) { std::fill_n(elems_, Size, u_); }
-    void swap(array& a_) noexcept(std::swap(std::declval<T &>(), std::declval<T &>()))
+    void swap(array& a_) noexcept(noexcept(std::swap(std::declval<T &>(), std::declval<T &>())))
     {
         std::swap_ranges(elems_, elems_ + Size, a_.elems_);
     }
@@ -271,8 +271,8 @@ inline
     typename enable_if<is_same<void, decltype(swap(declval<T&>(), declval<T&>()))>::value,
                        void>::type
 #endif
-    swap(const Vc::array<T, Size>& x_,
-         const Vc::array<T, Size>& y_) noexcept(swap(declval<T&>(), declval<T&>()))
+    swap(Vc::array<T, Size>& x_,
+         Vc::array<T, Size>& y_) noexcept(noexcept(swap(declval<T&>(), declval<T&>())))
 {
     x_.swap(y_);
 }
-- 
2.43.0


From 9825889ad3a178f7b17c1c7e4605d117ea40f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 33/59] fix: construct span from containers without std::data
 and std::size

Before C++17 the unqualified data and size were not found and every container
was rejected. Use the helpers that the constructors use, too.
---
 Vc/common/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index 9a694f7..060e8fb 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -108,11 +108,11 @@ struct _is_span_compatible_container<
         // is_array_v<Container> is false,
         typename std::enable_if<!std::is_array<T>::value, std::nullptr_t>::type,
         // data(cont) and size(cont) are well formed
-        decltype(data(std::declval<T>())), decltype(size(std::declval<T>())),
+        decltype(_std_data(std::declval<T&>())), decltype(_std_size(std::declval<T&>())),
         // remove_pointer_t<decltype(data(cont))>(*)[] is convertible to ElementType(*)[]
         typename std::enable_if<
             std::is_convertible<typename std::remove_pointer<decltype(
-                                    data(std::declval<T&>()))>::type (*)[],
+                                    _std_data(std::declval<T&>()))>::type (*)[],
                                 ElementType (*)[]>::value,
             std::nullptr_t>::type>> : public std::true_type {
 };
-- 
2.43.0


From f3a48dcb618db60c18a4ef84eee966a1046e194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 34/59] fix: make begin and end of a const Vc::Memory usable

---
 Vc/common/memorybase.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 9e96e88..f4d2c9c 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -112,9 +112,13 @@ template<typename _V, typename Flags> class MemoryVectorIterator
     template<typename T, typename R> using enable_if_mutable =
         typename std::enable_if<std::is_same<T, T>::value && !std::is_const<_V>::value, R>::type;
 
-    using iterator_traits = std::iterator_traits<MemoryVector<_V, Flags> *>;
+    // an iterator over const vectors points to const memory
+    using pointer_type =
+        typename std::conditional<std::is_const<_V>::value, const MemoryVector<_V, Flags> *,
+                                  MemoryVector<_V, Flags> *>::type;
+    using iterator_traits = std::iterator_traits<pointer_type>;
 
-    MemoryVector<_V, Flags> *d;
+    pointer_type d;
 public:
     typedef typename iterator_traits::difference_type difference_type;
     typedef typename iterator_traits::value_type value_type;
@@ -122,12 +126,12 @@ public:
     typedef typename iterator_traits::reference reference;
     typedef typename iterator_traits::iterator_category iterator_category;
 
-    constexpr MemoryVectorIterator(MemoryVector<_V, Flags> *dd) : d(dd) {}
+    constexpr MemoryVectorIterator(pointer_type dd) : d(dd) {}
     constexpr MemoryVectorIterator(const MemoryVectorIterator &) = default;
     constexpr MemoryVectorIterator(MemoryVectorIterator &&) = default;
     Vc_ALWAYS_INLINE MemoryVectorIterator &operator=(const MemoryVectorIterator &) = default;
 
-    Vc_ALWAYS_INLINE void *orderBy() const { return d; }
+    Vc_ALWAYS_INLINE const void *orderBy() const { return d; }
 
     Vc_ALWAYS_INLINE difference_type operator-(const MemoryVectorIterator &rhs) const { return d - rhs.d; }
     Vc_ALWAYS_INLINE reference operator[](size_t i) const { return d[i]; }
-- 
2.43.0


From 2090f18d6d250594efc82ff452df3736f7131af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 35/59] fix: make range of a const Vc::Memory usable

---
 Vc/common/memorybase.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index f4d2c9c..8ee84cd 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -273,11 +273,11 @@ template<typename V, typename Parent, typename RowMemory> class MemoryDimensionB
             return MemoryRange<V, Parent>(p(), firstIndex, lastIndex);
         }
         template<typename Flags>
-        Vc_ALWAYS_INLINE MemoryRange<const V, Parent, Flags> range(size_t firstIndex, size_t lastIndex, Flags) const {
-            return MemoryRange<const V, Parent, Flags>(p(), firstIndex, lastIndex);
+        Vc_ALWAYS_INLINE MemoryRange<const V, const Parent, Flags> range(size_t firstIndex, size_t lastIndex, Flags) const {
+            return MemoryRange<const V, const Parent, Flags>(p(), firstIndex, lastIndex);
         }
-        Vc_ALWAYS_INLINE MemoryRange<const V, Parent> range(size_t firstIndex, size_t lastIndex) const {
-            return MemoryRange<const V, Parent>(p(), firstIndex, lastIndex);
+        Vc_ALWAYS_INLINE MemoryRange<const V, const Parent> range(size_t firstIndex, size_t lastIndex) const {
+            return MemoryRange<const V, const Parent>(p(), firstIndex, lastIndex);
         }
 
         /**
-- 
2.43.0


From cd358378deb3fed67d7e1324e25875f7be7bd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 36/59] fix: make Vc::Memory::fromRawData compile

---
 Vc/common/memory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..9ba70fd 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -205,6 +205,7 @@ class Memory<V, Size, 0u, InitPadding> :
             typedef MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void> Base;
             friend class MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
+            template <typename, size_t, size_t, bool> friend class Memory;
             enum : size_t {
                 Alignment = V::MemoryAlignment,     // in Bytes
                 MaskedSize = Size & (V::Size - 1),  // the fraction of Size that exceeds
-- 
2.43.0


From 46fc3bf9360fd189529f5a48d5623dd8ced74faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 37/59] fix: pad Vc::Memory correctly if V::Size is not a power
 of two

---
 Vc/common/memory.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 9ba70fd..a722c8b 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -46,8 +46,7 @@ template<typename V, size_t Size> struct _MemorySizeCalculation
 {
     enum AlignmentCalculations {
         Alignment = V::Size,
-        AlignmentMask = Alignment - 1,
-        MaskedSize = Size & AlignmentMask,
+        MaskedSize = Size % Alignment,
         Padding = Alignment - MaskedSize,
         PaddedSize = MaskedSize == 0 ? Size : Size + Padding
     };
@@ -208,7 +207,7 @@ class Memory<V, Size, 0u, InitPadding> :
             template <typename, size_t, size_t, bool> friend class Memory;
             enum : size_t {
                 Alignment = V::MemoryAlignment,     // in Bytes
-                MaskedSize = Size & (V::Size - 1),  // the fraction of Size that exceeds
+                MaskedSize = Size % V::Size,        // the fraction of Size that exceeds
                                                     // an integral multiple of V::Size
                 Padding = V::Size - MaskedSize,
                 PaddedSize = MaskedSize == 0 ? Size : Size + Padding
@@ -371,15 +370,14 @@ class Memory<V, Size, 0u, InitPadding> :
             friend class MemoryBase<V, Memory<V>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V>, 1, void>;
         enum InternalConstants {
-            Alignment = V::Size,
-            AlignmentMask = Alignment - 1
+            Alignment = V::Size
         };
         size_t m_entriesCount;
         size_t m_vectorsCount;
         EntryType *m_mem;
         size_t calcPaddedEntriesCount(size_t x)
         {
-            size_t masked = x & AlignmentMask;
+            size_t masked = x % Alignment;
             return (masked == 0 ? x : x + (Alignment - masked));
         }
     public:
-- 
2.43.0


From 5a079aa8c437277da491503815683e8992103a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 38/59] fix: do not write in front of the memory of an empty
 dynamic Vc::Memory

---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index a722c8b..e827a8e 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -396,7 +396,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From 8bab872db3a18042f27df933ba38e857eb852b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 39/59] fix: allow assignment of one Vc::Memory vector to
 another

---
 Vc/common/memorybase.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 8ee84cd..bef0ac0 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -77,8 +77,6 @@ public:
         // nothing else
         MemoryVector(const MemoryVector &) = delete;
         MemoryVector(MemoryVector &&) = delete;
-        // Do not disable MemoryVector &operator=(const MemoryVector &) = delete; because it is
-        // covered nicely by the operator= below.
 
         //! \internal
         Vc_ALWAYS_INLINE Vc_PURE V value() const { return V(&m_data[0], Flags()); }
@@ -98,6 +96,13 @@ public:
             return *this;
         }
 
+        // A template is never a copy assignment operator; without this the implicit one would be
+        // deleted.
+        Vc_ALWAYS_INLINE MemoryVector &operator=(const MemoryVector &x) {
+            x.value().store(&m_data[0], Flags());
+            return *this;
+        }
+
         Vc_ALL_BINARY(Vc_MEM_OPERATOR_EQ);
         Vc_ALL_ARITHMETICS(Vc_MEM_OPERATOR_EQ);
 
-- 
2.43.0


From fe7eb3db16f9085bd9e941f8ffd26e34d16cefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 40/59] fix: compound operators of Vc::Memory with SimdArray

---
 Vc/common/memorybase.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index bef0ac0..6c9c77a 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -621,7 +621,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator+=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) += rhs.vector(i);
+                vector(i) += rhs.vector(i).value();
             }
             return static_cast<Parent &>(*this);
         }
@@ -633,7 +633,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator-=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) -= rhs.vector(i);
+                vector(i) -= rhs.vector(i).value();
             }
             return static_cast<Parent &>(*this);
         }
@@ -645,7 +645,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator*=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) *= rhs.vector(i);
+                vector(i) *= rhs.vector(i).value();
             }
             return static_cast<Parent &>(*this);
         }
@@ -657,7 +657,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator/=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) /= rhs.vector(i);
+                vector(i) /= rhs.vector(i).value();
             }
             return static_cast<Parent &>(*this);
         }
-- 
2.43.0


From 59b776d86246b27674932b8171f817dfbbaf065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 41/59] fix: operator new of SimdArray and SimdMaskArray
 returned under-aligned memory

---
 Vc/common/simdarray.h     | 4 ++--
 Vc/common/simdmaskarray.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 4f2c178..3784976 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -500,7 +500,7 @@ public:
     /// \internal
     Vc_INTRINSIC SimdArray(private_init_t, VectorType &&x) : data(std::move(x)) {}
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private:
     // The alignas attribute attached to the class declaration above is ignored by ICC
@@ -1468,7 +1468,7 @@ public:
     {
     }
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type0));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private: //{{{2
     // The alignas attribute attached to the class declaration above is ignored by ICC
diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index 26461aa..2540e1d 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -76,7 +76,7 @@ public:
     using reference = EntryReference;
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     SimdMaskArray() = default;
@@ -368,7 +368,7 @@ public:
     /// An alias for the corresponding SimdArray type.
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     ///\copydoc Mask::Mask()
-- 
2.43.0


From fab914a5ca74415e5236490a80fe10c818563abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 42/59] fix: Vc::Allocator::allocate overflowed for sizes close
 to max_size()

---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From 25de2ea6ce3a18b8d571b1f6fa378663bc4cc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 43/59] fix: Vc::malloc must not return a too small block if
 the size overflows

---
 Vc/common/malloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index eec335e..efabda4 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -52,6 +52,9 @@ template <size_t X> static constexpr size_t nextMultipleOf(size_t value)
 
 template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n)
 {
+    if (n > std::size_t(-1) - (alignment - 1)) {
+        return nullptr;  // the padded size cannot be represented
+    }
 #ifdef __MIC__
     return _mm_malloc(nextMultipleOf<alignment>(n), alignment);
 #elif defined(_WIN32)
@@ -135,6 +138,9 @@ Vc_ALWAYS_INLINE void free(void *p)
 template<typename T, Vc::MallocAlignment A>
 Vc_ALWAYS_INLINE T *malloc(size_t n)
 {
+    if (n > size_t(-1) / sizeof(T)) {
+        return nullptr;  // the size in bytes cannot be represented
+    }
     return static_cast<T *>(Common::malloc<A>(n * sizeof(T)));
 }
 
-- 
2.43.0


From e3a06ffa4564068d81f4885f988a101b9fe159ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 44/59] fix: vectorizing iterators over structures with
 Vc_SIMDIZE_INTERFACE did not compile

---
 Vc/common/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..9ac781f 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1349,7 +1349,7 @@ Vc_INTRINSIC V fromIteratorImpl(enable_if<(I < End), It> it)
 template <typename It, typename V>
 Vc_INTRINSIC V fromIterator(enable_if<!Traits::is_simd_vector<V>::value, const It &> it)
 {
-    return fromIteratorImpl<It, V, 0, determine_tuple_size<V>()>(it);
+    return fromIteratorImpl<It, V, 0, determine_tuple_size<typename V::scalar_type>()>(it);
 }
 
 template <typename It, typename V>
-- 
2.43.0


From d7506d6e06f4ea4088ee04b4698d4fc9518a5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 45/59] fix: load and store of decorated simdized objects did
 not compile

---
 Vc/common/simdize.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 9ac781f..bb762a0 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1205,8 +1205,8 @@ public:
         return shifted_impl(a, amount, IndexSeq());
     }
 
-    void load(const typename A::scalar_type *mem) { load_interleaved(*this, mem); }
-    void store(typename A::scalar_type *mem) { store_interleaved(*this, mem); }
+    void load(const typename A::scalar_type *mem) { load_interleaved(a, mem); }
+    void store(typename A::scalar_type *mem) { store_interleaved(a, mem); }
 
 private:
     reference a;
-- 
2.43.0


From f89196be61649cbe211ec02c0e293b6f61fc611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 46/59] fix: assignment through the subscript of a vectorizing
 iterator used a dangling reference

---
 Vc/common/simdize.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index bb762a0..0eebbc5 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1479,13 +1479,13 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of
+    /// the iterator for write back in the assignment operator. (The iterator may be a
+    /// temporary, e.g. in Iterator::operator[].)
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From 8b4860b96093282ae6cd450ee3d7fa84b8508818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 47/59] fix: broadcast construction of simdized structures with
 SimdArray members mixed up the members

---
 Vc/common/simdize.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 0eebbc5..ee2cc05 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -695,9 +695,12 @@ constexpr std::integral_constant<int, 0> test(int);
 // 1: 1-brace init
 template <class Type, class... Init, class = decltype(Type{create<Init>()...})>
 constexpr std::integral_constant<int, 1> test(float);
-// 2: 2-brace init
-template <class Type, class... Init, class T, class = decltype(Type{{create<Init>()...}})>
-constexpr std::integral_constant<int, 2> test(T);
+// 2: 2-brace init (requires a user-defined conversion and thus ranks behind 1-brace init)
+struct from_int {
+    constexpr from_int(int) {}
+};
+template <class Type, class... Init, class = decltype(Type{{create<Init>()...}})>
+constexpr std::integral_constant<int, 2> test(from_int);
 // 3: no init at all
 template <class Type, class... Init> constexpr std::integral_constant<int, 3> test(...);
 }  // namespace preferred_construction_impl
-- 
2.43.0


From c5cb10131b6f688b81c32a79ee84ba114ce009fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 48/59] fix: load_interleaved and store_interleaved of simdized
 structures with mixed or reordered members

---
 Vc/common/simdize.h | 109 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 16 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index ee2cc05..9d57d65 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1165,6 +1165,48 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// uniform_vectors {{{
+/**\internal
+ * std::true_type if InterleavedMemoryWrapper is able to access all the given vectors, i.e.
+ * if there are 2 to 8 vectors and they all have the same (non-composite) type.
+ */
+template <class... Vs> struct uniform_vectors_impl : std::false_type {
+};
+template <class V>
+struct uniform_vectors_impl<V>
+    : std::integral_constant<bool, Traits::is_simd_vector<V>::value &&
+                                       !Traits::isSimdArray<V>::value> {
+};
+template <class V, class... Vs>
+struct uniform_vectors_impl<V, V, Vs...> : uniform_vectors_impl<V, Vs...> {
+};
+template <class... Vs>
+struct uniform_vectors
+    : std::integral_constant<bool, (sizeof...(Vs) >= 2 && sizeof...(Vs) <= 8 &&
+                                    uniform_vectors_impl<Vs...>::value)> {
+};
+template <class A, size_t... I>
+uniform_vectors<typename std::decay<decltype(
+    get_dispatcher<I>(std::declval<A &>()))>::type...>
+    has_uniform_vectors(Vc::index_sequence<I...>);
+// }}}
+// members_are_contiguous {{{
+/**\internal
+ * Returns whether the members are stored in the order of their indexes and without gaps.
+ */
+template <class S, size_t... I>
+inline bool members_are_contiguous(Vc::index_sequence<I...>, const S &x)
+{
+    const char *const base = reinterpret_cast<const char *>(std::addressof(x));
+    bool r = true;
+    auto &&unused = {(r = r && reinterpret_cast<const char *>(std::addressof(
+                                   get_dispatcher<I>(x))) ==
+                                   base + I * sizeof(get_dispatcher<I>(x)),
+                      0)...};
+    if (&unused == &unused) {}
+    return r;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1255,19 +1297,56 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
     return v[i];
 }
 // }}}
-// load_interleaved {{{
+namespace SimdizeDetail
+{
+// load_interleaved_dispatch {{{
 template <class S, class T, size_t N>
-inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
+inline void load_interleaved_dispatch(std::false_type, Adapter<S, T, N> &a, const S *mem)
+{
+    Common::unrolled_loop<std::size_t, 0, N>(
+        [&](std::size_t i) { Vc::assign(a, i, mem[i]); });
+}
+template <class S, class T, size_t N>
+inline void load_interleaved_dispatch(std::true_type, Adapter<S, T, N> &a, const S *mem)
+{
+    using Seq = Vc::make_index_sequence<determine_tuple_size_<S>::value>;
+    if (members_are_contiguous(Seq(), *mem)) {
+        load_interleaved_impl(Seq(), a, mem);
+    } else {
+        load_interleaved_dispatch(std::false_type(), a, mem);
+    }
+}
+// }}}
+// store_interleaved_dispatch {{{
+template <class S, class T, size_t N>
+inline void store_interleaved_dispatch(std::false_type, const Adapter<S, T, N> &a, S *mem)
+{
+    Common::unrolled_loop<std::size_t, 0, N>(
+        [&](std::size_t i) { mem[i] = Vc::extract(a, i); });
+}
+template <class S, class T, size_t N>
+inline void store_interleaved_dispatch(std::true_type, const Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
-        Common::unrolled_loop<std::size_t, 0, N>(
-            [&](std::size_t i) { assign(a, i, mem[i]); });
+    using Seq = Vc::make_index_sequence<determine_tuple_size_<S>::value>;
+    if (members_are_contiguous(Seq(), *mem)) {
+        store_interleaved_impl(Seq(), a, mem);
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
-        SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
-                                             mem);
+        store_interleaved_dispatch(std::false_type(), a, mem);
     }
 }
+// }}}
+}  // namespace SimdizeDetail
+// load_interleaved {{{
+template <class S, class T, size_t N>
+inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
+{
+    using Seq =
+        Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>;
+    SimdizeDetail::load_interleaved_dispatch(
+        decltype(SimdizeDetail::has_uniform_vectors<SimdizeDetail::Adapter<S, T, N>>(
+            Seq()))(),
+        a, mem);
+}
 template <
     class V, class T,
     class = enable_if<Traits::is_simd_vector<V>::value && std::is_arithmetic<T>::value>>
@@ -1280,14 +1359,12 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
-        Common::unrolled_loop<std::size_t, 0, N>(
-            [&](std::size_t i) { mem[i] = extract(a, i); });
-    } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
-        SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
-                                              mem);
-    }
+    using Seq =
+        Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>;
+    SimdizeDetail::store_interleaved_dispatch(
+        decltype(SimdizeDetail::has_uniform_vectors<SimdizeDetail::Adapter<S, T, N>>(
+            Seq()))(),
+        a, mem);
 }
 template <
     class V, class T,
-- 
2.43.0


From 210d8bed1521fae0b3df8f428fc4f0e111200d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 49/59] fix: deprecated members exponent and copySign did not
 compile or link

---
 Vc/avx/vector.h       |  6 ++++--
 Vc/common/simdarray.h | 10 +++++++---
 Vc/scalar/vector.h    |  6 ++++--
 Vc/sse/vector.h       |  6 ++++--
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..3903fc1 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -487,12 +487,14 @@ public:
         Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector
             copySign(AsArg x) const
         {
-            return Vc::copysign(*this, x);
+            using Vc::copysign;
+            return copysign(*this, x);
         }
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 3784976..04ad55f 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -456,6 +456,7 @@ public:
     /// \copydoc Vector::exponent
     Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC fixed_size_simd<T, N> exponent() const
     {
+        using Vc::exponent;
         return {private_init, exponent(data)};
     }
 
@@ -491,7 +492,8 @@ public:
     Vc_DEPRECATED("use copysign(x, y) instead")
         Vc_INTRINSIC fixed_size_simd<T, N> copySign(const SimdArray &x) const
     {
-        return {private_init, Vc::copysign(data, x.data)};
+        using Vc::copysign;
+        return {private_init, copysign(data, x.data)};
     }
 
     friend VectorType &internal_data<>(SimdArray &x);
@@ -1438,6 +1440,7 @@ public:
     Vc_DEPRECATED("use exponent(x) instead")
         Vc_INTRINSIC fixed_size_simd<T, N> exponent() const
     {
+        using Vc::exponent;
         return {exponent(data0), exponent(data1)};
     }
 
@@ -1451,8 +1454,9 @@ public:
     Vc_DEPRECATED("use copysign(x, y) instead")
         Vc_INTRINSIC fixed_size_simd<T, N> copySign(const SimdArray &x) const
     {
-        return {Vc::copysign(data0, x.data0),
-                Vc::copysign(data1, x.data1)};
+        using Vc::copysign;
+        return {copysign(data0, x.data0),
+                copysign(data1, x.data1)};
     }
     ///@}
 
diff --git a/Vc/scalar/vector.h b/Vc/scalar/vector.h
index c6d979a..df357b0 100644
--- a/Vc/scalar/vector.h
+++ b/Vc/scalar/vector.h
@@ -289,12 +289,14 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
         Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector Vc_VDECL
             copySign(Vector x) const
         {
-            return Vc::copysign(*this, x);
+            using Vc::copysign;
+            return copysign(*this, x);
         }
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            return Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC Vector Vc_VDECL interleaveLow(Vector) const { return *this; }
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..696cd33 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -413,12 +413,14 @@ template <typename T> class Vector<T, VectorAbi::Sse>
         Vc_DEPRECATED("use copysign(x, y) instead") Vc_INTRINSIC Vector
             copySign(AsArg x) const
         {
-            return Vc::copysign(*this, x);
+            using Vc::copysign;
+            return copysign(*this, x);
         }
 
         Vc_DEPRECATED("use exponent(x) instead") Vc_INTRINSIC Vector exponent() const
         {
-            return Vc::exponent(*this);
+            using Vc::exponent;
+            return exponent(*this);
         }
 
         Vc_INTRINSIC_L Vector interleaveLow(Vector x) const Vc_INTRINSIC_R;
-- 
2.43.0


From d345f02b27779f084627dfd36e9ee10d47ca03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 50/59] fix: masks of 16-bit types did not compile for AVX2
 without BMI2

---
 Vc/avx/detail.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 1933c23..9e29b52 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1311,12 +1311,14 @@ template <> Vc_INTRINSIC Vc_CONST int mask_to_int<8>(__m256i k)
 {
     return movemask(AVX::avx_cast<__m256>(k));
 }
-#ifdef Vc_IMPL_BMI2
 template <> Vc_INTRINSIC Vc_CONST int mask_to_int<16>(__m256i k)
 {
+#ifdef Vc_IMPL_BMI2
     return _pext_u32(movemask(k), 0x55555555u);
-}
+#else
+    return _mm_movemask_epi8(_mm_packs_epi16(AVX::lo128(k), AVX::hi128(k)));
 #endif
+}
 template <> Vc_INTRINSIC Vc_CONST int mask_to_int<32>(__m256i k)
 {
     return movemask(k);
-- 
2.43.0


From d147425cad450452689b9c9c02f044572e51c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 51/59] fix: deprecated member isNegative ignored the sign of
 negative zero

---
 Vc/avx/vector.h    | 3 ++-
 Vc/scalar/vector.h | 3 ++-
 Vc/sse/vector.h    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index 3903fc1..fa531c7 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -383,7 +383,8 @@ public:
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            using Vc::isnegative;
+            return isnegative(*this);
         }
 
         Vc_ALWAYS_INLINE void assign( const Vector &v, const Mask &mask ) {
diff --git a/Vc/scalar/vector.h b/Vc/scalar/vector.h
index df357b0..a91540c 100644
--- a/Vc/scalar/vector.h
+++ b/Vc/scalar/vector.h
@@ -200,7 +200,8 @@ template <typename T> class Vector<T, VectorAbi::Scalar>
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            using Vc::isnegative;
+            return isnegative(*this);
         }
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &m) {
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 696cd33..34cf2d5 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -316,7 +316,8 @@ template <typename T> class Vector<T, VectorAbi::Sse>
         Vc_DEPRECATED("use isnegative(x) instead") Vc_INTRINSIC Vc_PURE Mask
             isNegative() const
         {
-            return Vc::isnegative(*this);
+            using Vc::isnegative;
+            return isnegative(*this);
         }
 
         Vc_ALWAYS_INLINE void assign(const Vector &v, const Mask &mask)
-- 
2.43.0


From adb74ff6327ce96a1202281c0fc1087c10f5f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 52/59] fix: Vector<float, Avx>::minIndex returned the bits of
 the index as float

---
 Vc/avx/vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 17fd4c8..4b3ba3f 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -557,7 +557,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     idx = _mm256_blendv_ps(idy, idx, less);
 
-    const auto index = _mm_cvtsi128_si32(AVX::avx_cast<__m128i>(idx));
+    const auto index = _mm_cvttss_si32(AVX::lo128(idx));  // idx contains floats
 #ifdef Vc_GNU_ASM
     __asm__ __volatile__(""); // help GCC to order the instructions better
 #endif
-- 
2.43.0


From f3408350d07a82ef31acb6a3d2886fb3ac7d9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 53/59] fix: the abi member of SSE masks was private

All other masks, all vectors, and the documented Mask interface have it
as a public member.
---
 Vc/sse/mask.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/sse/mask.h b/Vc/sse/mask.h
index 42596a9..ba82290 100644
--- a/Vc/sse/mask.h
+++ b/Vc/sse/mask.h
@@ -51,7 +51,10 @@ using SSE::sse_cast;
 
 template <typename T> class Mask<T, VectorAbi::Sse>
 {
+public:
     using abi = VectorAbi::Sse;
+
+private:
     friend class Mask<  double, abi>;
     friend class Mask<   float, abi>;
     friend class Mask< int32_t, abi>;
-- 
2.43.0


From b17a82db9a03c70e34b6bc9d531c483dca1112d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 54/59] fix: log, log2 and log10 of infinity and NaN returned
 finite values

---
 Vc/common/logarithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/common/logarithm.h b/Vc/common/logarithm.h
index a4a7bf9..836354e 100644
--- a/Vc/common/logarithm.h
+++ b/Vc/common/logarithm.h
@@ -246,6 +246,9 @@ static inline Vector<T, Abi> calc(V _x)
 
         log_series(x, exponent); // A: (ˣ⁄₂ᵉ - 1, e)  B: (ˣ⁄₂ᵉ⁺¹ - 1, e + 1)
 
+        // x = +∞ → +∞; x = NaN → NaN
+        const M finite = _x <= V(std::numeric_limits<T>::max());
+        x(!finite) = _x;
         x.setQnan(invalidMask);        // x < 0 → NaN
         x(infinityMask) = C::neginf(); // x = 0 → -∞
 
-- 
2.43.0


From 3d844016f82bab89228219907a49cd13dc746e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 55/59] fix: SSE masks were loaded from bool arrays through
 incompatible integer pointers

The compiler could order the load before preceding stores to the bools.
---
 Vc/sse/mask.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Vc/sse/mask.tcc b/Vc/sse/mask.tcc
index efcf150..537ec7b 100644
--- a/Vc/sse/mask.tcc
+++ b/Vc/sse/mask.tcc
@@ -124,15 +124,15 @@ template<> Vc_ALWAYS_INLINE __m128 mask_load<16>(const bool *mem)
 template<> Vc_ALWAYS_INLINE __m128 mask_load<8>(const bool *mem)
 {
 #ifdef __x86_64__
-    __m128i k = _mm_cvtsi64_si128(*reinterpret_cast<const int64_t *>(mem));
+    __m128i k = _mm_cvtsi64_si128(*aliasing_cast<int64_t>(mem));
 #else
-    __m128i k = _mm_castpd_si128(_mm_load_sd(reinterpret_cast<const double *>(mem)));
+    __m128i k = _mm_castpd_si128(_mm_load_sd(aliasing_cast<double>(mem)));
 #endif
     return sse_cast<__m128>(_mm_cmpgt_epi16(_mm_unpacklo_epi8(k, k), _mm_setzero_si128()));
 }
 template<> Vc_ALWAYS_INLINE __m128 mask_load<4>(const bool *mem)
 {
-    __m128i k = _mm_cvtsi32_si128(*reinterpret_cast<const int *>(mem));
+    __m128i k = _mm_cvtsi32_si128(*aliasing_cast<int>(mem));
     k = _mm_cmpgt_epi16(_mm_unpacklo_epi8(k, k), _mm_setzero_si128());
     return sse_cast<__m128>(_mm_unpacklo_epi16(k, k));
 }
-- 
2.43.0


From f3597c414b65f5f56837cbadb1cd26c3f4bef794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 56/59] fix: sin, cos, atan, ... of SSE vectors called SSE4.1
 library code from SSE2, SSE3 and SSSE3 programs

---
 Vc/common/trigonometric.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/trigonometric.h b/Vc/common/trigonometric.h
index 07dc91c..61422a0 100644
--- a/Vc/common/trigonometric.h
+++ b/Vc/common/trigonometric.h
@@ -79,7 +79,9 @@ namespace Detail
 template <typename T, typename Abi>
 using Trig = Common::Trigonometric<Detail::TrigonometricImplementation<
     (std::is_same<Abi, VectorAbi::Sse>::value
-         ? SSE42Impl
+         ? (CurrentImplementation::is_between(SSE2Impl, SSE41Impl)
+                ? CurrentImplementation::current()
+                : SSE42Impl)
          : std::is_same<Abi, VectorAbi::Avx>::value ? AVXImpl : ScalarImpl)>>;
 }  // namespace Detail
 
-- 
2.43.0


From 32061b284d7aa1d233f5f9fcd01a202dd8a25f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 57/59] fix: <Vc/SimdArray>, <Vc/Utils>, <Vc/iterators> and
 <Vc/type_traits> did not compile on their own

---
 Vc/SimdArray   | 1 +
 Vc/Utils       | 2 +-
 Vc/iterators   | 1 +
 Vc/type_traits | 3 +++
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Vc/SimdArray b/Vc/SimdArray
index 4c6ed42..42dde25 100644
--- a/Vc/SimdArray
+++ b/Vc/SimdArray
@@ -28,6 +28,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef VC_SIMDARRAY_
 #define VC_SIMDARRAY_
 
+#include "vector.h"
 #include "common/simdarray.h"
 
 #endif // VC_SIMDARRAY_
diff --git a/Vc/Utils b/Vc/Utils
index 92c53f4..a3891d4 100644
--- a/Vc/Utils
+++ b/Vc/Utils
@@ -28,7 +28,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef VC_UTILS_
 #define VC_UTILS_
 
-#include "global.h"
+#include "vector.h"
 
 #ifdef Vc_IMPL_Scalar
 # define VECTOR_NAMESPACE Scalar
diff --git a/Vc/iterators b/Vc/iterators
index 6a07aa3..b87d804 100644
--- a/Vc/iterators
+++ b/Vc/iterators
@@ -28,6 +28,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef VC_INCLUDE_VC_ITERATORS_H_
 #define VC_INCLUDE_VC_ITERATORS_H_
 
+#include "vector.h"
 #include "common/iterators.h"
 namespace Vc_VERSIONED_NAMESPACE
 {
diff --git a/Vc/type_traits b/Vc/type_traits
index 0acb4bc..77df1ff 100644
--- a/Vc/type_traits
+++ b/Vc/type_traits
@@ -25,6 +25,9 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 }}}*/
 
+// outside of the include guard: vector.h includes this file once it has declared short_v
+#include "vector.h"
+
 #ifndef VC_TYPE_TRAITS_
 #define VC_TYPE_TRAITS_
 
-- 
2.43.0


From a1e2463b88174757ab8256f9b640572bdd3fc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 58/59] fix: do not use pinsrd (SSE4.1) for SSE2, SSE3, and
 SSSE3 targets

---
 Vc/common/set.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/set.h b/Vc/common/set.h
index 8231985..f3342d6 100644
--- a/Vc/common/set.h
+++ b/Vc/common/set.h
@@ -36,7 +36,8 @@ namespace
     static Vc_INTRINSIC Vc_CONST __m128i set(unsigned short x0, unsigned short x1, unsigned short x2, unsigned short x3,
             unsigned short x4, unsigned short x5, unsigned short x6, unsigned short x7)
     {
-#if defined(Vc_GNU_ASM)
+// the pinsrd in the asm below requires SSE4.1
+#if defined(Vc_GNU_ASM) && (defined(Vc_USE_VEX_CODING) || defined(Vc_IMPL_SSE4_1))
 #if 0 // defined(__x86_64__)
         // it appears that the 32bit variant is always faster
         __m128i r;
-- 
2.43.0


From f83f375b540b7ca52f36a251c6f8a3deb7a19dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 59/59] fix: makeContainer of an empty initializer_list ran
 over the (empty) container

---
 Vc/common/makeContainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..e8e30f4 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -54,11 +54,11 @@ namespace Vc_VERSIONED_NAMESPACE
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-                for (std::size_t i = 0; i < size - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < size; ++i) {
                     *containerIt++ = V(init, Vc::Unaligned);
                     init += V::Size;
                 }
-                Vc_ASSERT(all_of(*containerIt == V::Zero()));
+                Vc_ASSERT(size == 0 || all_of(*containerIt == V::Zero()));
                 int j = 0;
                 while (init != initEnd) {
                     (*containerIt)[j++] = *init++;
-- 
2.43.0

