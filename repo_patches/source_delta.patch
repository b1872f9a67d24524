From 03a4dec1be21ecfeca4d30d37ed21c403dfd6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 01/24] fix: convert C integers to and from Python ints through
 the public API

PyFast_FromInt passed a signed C int as one raw 30-bit digit, so negative values
and values of 2**30 and above became malformed ints; PyFast_AsShort/AsChar read
the digit count from the wrong field on Python 3.12 and lost signs.
---
 pyfastutil/src/utils/PythonUtils.h | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..2194721 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -124,34 +124,16 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
-static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (short) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (short) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
+    return (short) PyFast_AsInt(obj);
 }
 
-static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (char) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (char) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline char PyFast_AsChar(PyObject *obj) noexcept {
+    return (char) PyFast_AsInt(obj);
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From c283e0eab7014b1be41c0d04e56b70bf6352280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 02/24] fix: make the vectorised sort produce a sorted
 permutation

The 8/16 lane networks only took element-wise minima against permuted copies and
the merges emitted minima of both runs, so lists of 8 or more elements lost values.
---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 313 +++++++---------------
 1 file changed, 102 insertions(+), 211 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..8065e8b 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -24,17 +24,17 @@ concept IntOrLongLong = std::same_as<T, int> || std::same_as<T, long long>;
 
 namespace simd {
 #if !defined(__arm__) && !defined(__arm64__)
+    // lane permutations exchanging i with i ^ 1, i ^ 2, i ^ 4 and i ^ 8
     struct alignas(32) AVX2_MARKS {
-        alignas(32) const __m256i M1 = _mm256_set_epi32(7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(32) const __m256i M2 = _mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(32) const __m256i M3 = _mm256_set_epi32(5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(32) const __m256i M4 = _mm256_set_epi32(3, 2, 1, 0, 7, 6, 5, 4);
+        alignas(32) const __m256i M1 = _mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1);
+        alignas(32) const __m256i M2 = _mm256_set_epi32(5, 4, 7, 6, 1, 0, 3, 2);
+        alignas(32) const __m256i M3 = _mm256_set_epi32(3, 2, 1, 0, 7, 6, 5, 4);
     };
     struct alignas(64) AVX512_MARKS {
-        alignas(64) const __m512i M1 = _mm512_set_epi32(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(64) const __m512i M2 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(64) const __m512i M3 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12);
+        alignas(64) const __m512i M1 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
+        alignas(64) const __m512i M2 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
+        alignas(64) const __m512i M3 = _mm512_set_epi32(11, 10, 9, 8, 15, 14, 13, 12, 3, 2, 1, 0, 7, 6, 5, 4);
+        alignas(64) const __m512i M4 = _mm512_set_epi32(7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12, 11, 10, 9, 8);
     };
 
     static AVX2_MARKS *avx2Marks = nullptr;
@@ -57,69 +57,116 @@ namespace simd {
 #pragma ide diagnostic ignored "NullDereference"
 #if !defined(__arm__) && !defined(__arm64__)
 
-    __forceinline void sort8Epi32AVX2(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_min_epi32(vec, swapped);
+    /**
+     * Lanes that keep the bigger element when lane i is compared with lane i ^ distance,
+     * in the bitonic sorting stage that builds sorted runs of runSize lanes.
+     */
+    static constexpr int maxLanes(int lanes, int runSize, int distance) {
+        int mask = 0;
+        for (int i = 0; i < lanes; ++i) {
+            if (((i & distance) != 0) != ((i & runSize) != 0)) {
+                mask |= 1 << i;
+            }
+        }
+        return mask;
+    }
+
+    template<int RUN, int DISTANCE, bool REVERSED>
+    __forceinline void exchangeEpi32AVX2(__m256i &vec, const __m256i &permutation) {
+        const __m256i swapped = _mm256_permutevar8x32_epi32(vec, permutation);
+        const __m256i low = _mm256_min_epi32(vec, swapped);
+        const __m256i high = _mm256_max_epi32(vec, swapped);
+        vec = _mm256_blend_epi32(REVERSED ? high : low, REVERSED ? low : high, maxLanes(8, RUN, DISTANCE));
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<int RUN, int DISTANCE, bool REVERSED>
+    __forceinline void exchangeEpi64AVX2(__m256i &vec, const __m256i &permutation) {
+        constexpr int lanes = maxLanes(4, RUN, DISTANCE);
+        constexpr int lanes32 = (lanes & 1) * 3 | (lanes >> 1 & 1) * 12 | (lanes >> 2 & 1) * 48 | (lanes >> 3 & 1) * 192;
+        const __m256i swapped = _mm256_permutevar8x32_epi32(vec, permutation);
+        const __m256i greater = _mm256_cmpgt_epi64(vec, swapped);
+        const __m256i low = _mm256_blendv_epi8(vec, swapped, greater);
+        const __m256i high = _mm256_blendv_epi8(swapped, vec, greater);
+        vec = _mm256_blend_epi32(REVERSED ? high : low, REVERSED ? low : high, lanes32);
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<int RUN, int DISTANCE, bool REVERSED>
+    __forceinline void exchangeEpi32AVX512(__m512i &vec, const __m512i &permutation) {
+        const __m512i swapped = _mm512_permutexvar_epi32(permutation, vec);
+        const __m512i low = _mm512_min_epi32(vec, swapped);
+        const __m512i high = _mm512_max_epi32(vec, swapped);
+        vec = _mm512_mask_blend_epi32((__mmask16) maxLanes(16, RUN, DISTANCE),
+                                      REVERSED ? high : low, REVERSED ? low : high);
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_min_epi32(vec, swapped);
+    template<int RUN, int DISTANCE, bool REVERSED>
+    __forceinline void exchangeEpi64AVX512(__m512i &vec, const __m512i &permutation) {
+        const __m512i swapped = _mm512_permutexvar_epi32(permutation, vec);
+        const __m512i low = _mm512_min_epi64(vec, swapped);
+        const __m512i high = _mm512_max_epi64(vec, swapped);
+        vec = _mm512_mask_blend_epi64((__mmask8) maxLanes(8, RUN, DISTANCE),
+                                      REVERSED ? high : low, REVERSED ? low : high);
     }
 
     /**
-     * sort 8 nums with avx2 reversed
+     * sort 8 nums with avx2
      */
-    __forceinline void sort8Epi32AVX2Reversed(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_max_epi32(vec, swapped);
+    template<bool REVERSED>
+    __forceinline void sort8Epi32AVX2(__m256i &vec) {
+        exchangeEpi32AVX2<2, 1, REVERSED>(vec, avx2Marks->M1);
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_max_epi32(vec, swapped);
+        exchangeEpi32AVX2<4, 2, REVERSED>(vec, avx2Marks->M2);
+        exchangeEpi32AVX2<4, 1, REVERSED>(vec, avx2Marks->M1);
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_max_epi32(vec, swapped);
+        exchangeEpi32AVX2<8, 4, REVERSED>(vec, avx2Marks->M3);
+        exchangeEpi32AVX2<8, 2, REVERSED>(vec, avx2Marks->M2);
+        exchangeEpi32AVX2<8, 1, REVERSED>(vec, avx2Marks->M1);
+    }
 
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_max_epi32(vec, swapped);
+    /**
+     * sort 4 nums with avx2
+     */
+    template<bool REVERSED>
+    __forceinline void sort4Epi64AVX2(__m256i &vec) {
+        exchangeEpi64AVX2<2, 1, REVERSED>(vec, avx2Marks->M2);
+
+        exchangeEpi64AVX2<4, 2, REVERSED>(vec, avx2Marks->M3);
+        exchangeEpi64AVX2<4, 1, REVERSED>(vec, avx2Marks->M2);
     }
 
     /**
      * sort 16 nums with avx512
      */
+    template<bool REVERSED>
     __forceinline void sort16Epi32AVX512(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_min_epi32(vec, swapped);
+        exchangeEpi32AVX512<2, 1, REVERSED>(vec, avx512Marks->M1);
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_min_epi32(vec, swapped);
+        exchangeEpi32AVX512<4, 2, REVERSED>(vec, avx512Marks->M2);
+        exchangeEpi32AVX512<4, 1, REVERSED>(vec, avx512Marks->M1);
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_min_epi32(vec, swapped);
+        exchangeEpi32AVX512<8, 4, REVERSED>(vec, avx512Marks->M3);
+        exchangeEpi32AVX512<8, 2, REVERSED>(vec, avx512Marks->M2);
+        exchangeEpi32AVX512<8, 1, REVERSED>(vec, avx512Marks->M1);
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_min_epi32(vec, swapped);
+        exchangeEpi32AVX512<16, 8, REVERSED>(vec, avx512Marks->M4);
+        exchangeEpi32AVX512<16, 4, REVERSED>(vec, avx512Marks->M3);
+        exchangeEpi32AVX512<16, 2, REVERSED>(vec, avx512Marks->M2);
+        exchangeEpi32AVX512<16, 1, REVERSED>(vec, avx512Marks->M1);
     }
 
     /**
-     * sort 16 nums with avx512
+     * sort 8 nums with avx512
      */
-    __forceinline void sort16Epi32AVX512Reversed(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_max_epi32(vec, swapped);
+    template<bool REVERSED>
+    __forceinline void sort8Epi64AVX512(__m512i &vec) {
+        exchangeEpi64AVX512<2, 1, REVERSED>(vec, avx512Marks->M2);
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_max_epi32(vec, swapped);
+        exchangeEpi64AVX512<4, 2, REVERSED>(vec, avx512Marks->M3);
+        exchangeEpi64AVX512<4, 1, REVERSED>(vec, avx512Marks->M2);
 
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_max_epi32(vec, swapped);
+        exchangeEpi64AVX512<8, 4, REVERSED>(vec, avx512Marks->M4);
+        exchangeEpi64AVX512<8, 2, REVERSED>(vec, avx512Marks->M3);
+        exchangeEpi64AVX512<8, 1, REVERSED>(vec, avx512Marks->M2);
     }
 
     [[maybe_unused]] __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
@@ -127,48 +174,6 @@ namespace simd {
                                                       std::vector<int, AlignedAllocator<int, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_INTS;
-                i += AVX512_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_INTS;
-                i += AVX2_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_INTS;
-                i += SSE41_INTS;
-            }
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] < src[j]) {
@@ -192,48 +197,6 @@ namespace simd {
                                      std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_LONG_LONGS;
-                i += AVX512_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_LONG_LONGS;
-                i += AVX2_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_LONG_LONGS;
-                i += SSE41_LONG_LONGS;
-            }
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] < src[j]) {
@@ -258,42 +221,6 @@ namespace simd {
                           std::vector<int, AlignedAllocator<int, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_INTS;
-            j += AVX512_INTS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_INTS;
-            j += AVX2_INTS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_INTS;
-            j += SSE41_INTS;
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] > src[j]) {
@@ -318,42 +245,6 @@ namespace simd {
                           std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
         size_t i = left, j = mid + 1, k = left;
 
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_LONG_LONGS;
-            j += AVX512_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_LONG_LONGS;
-            j += AVX2_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_LONG_LONGS;
-            j += SSE41_LONG_LONGS;
-        }
-
         // elements left
         while (i <= mid && j <= right) {
             if (src[i] > src[j]) {
@@ -514,9 +405,9 @@ namespace simd {
 
                 __m512i vec = _mm512_load_si512(data + sortedCount);  // load
                 if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
+                    sort16Epi32AVX512<true>(vec);
                 } else {
-                    sort16Epi32AVX512(vec);
+                    sort16Epi32AVX512<false>(vec);
                 }
                 _mm512_store_si512(data + sortedCount, vec);  // store
             }
@@ -532,9 +423,9 @@ namespace simd {
 
                 __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
                 if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
+                    sort8Epi32AVX2<true>(vec);
                 } else {
-                    sort8Epi32AVX2(vec);
+                    sort8Epi32AVX2<false>(vec);
                 }
                 _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
             }
@@ -627,9 +518,9 @@ namespace simd {
 
                 __m512i vec = _mm512_load_si512(data + sortedCount);  // load
                 if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
+                    sort8Epi64AVX512<true>(vec);
                 } else {
-                    sort16Epi32AVX512(vec);
+                    sort8Epi64AVX512<false>(vec);
                 }
                 _mm512_store_si512(data + sortedCount, vec);  // store
             }
@@ -645,13 +536,13 @@ namespace simd {
 
                 __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
                 if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
+                    sort4Epi64AVX2<true>(vec);
                 } else {
-                    sort8Epi32AVX2(vec);
+                    sort4Epi64AVX2<false>(vec);
                 }
                 _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
             }
-            minBlockSize = 8;
+            minBlockSize = AVX2_LONG_LONGS;
         }
 
         if (sortedCount < size) {
-- 
2.43.0


From 0ef9a952a6d4dcddbb12c31cbbe67462338c56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 03/24] fix: compute from_range lengths like range()

The length of a descending range was rounded down, arguments equal to PY_SSIZE_T_MAX
were taken for missing ones and the signed arithmetic overflowed near the limits.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 19 ++++---------------
 pyfastutil/src/ints/IntArrayList.cpp    | 19 ++++---------------
 pyfastutil/src/ints/IntLinkedList.cpp   | 19 ++++---------------
 pyfastutil/src/utils/PythonUtils.h      | 22 ++++++++++++++--------
 4 files changed, 26 insertions(+), 53 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..bca9221 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -126,25 +126,14 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
+        const size_t elements = PyParse_RangeLength(start, stop, step);
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<long long>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..80b5370 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -126,25 +126,14 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
+        const size_t elements = PyParse_RangeLength(start, stop, step);
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<int>(current);
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..7411f5c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -108,23 +108,12 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
+        const size_t elements = PyParse_RangeLength(start, stop, step);
 
-        Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        auto current = static_cast<size_t>(start);
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->list.push_back(static_cast<int>(current));
-            current += step;
+            current += static_cast<size_t>(step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2194721..70420c5 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -63,22 +63,18 @@ static __forceinline T *Py_CreateObjNoInit(PyTypeObject &typeObj) noexcept {
  */
 static __forceinline bool PyParse_EvalRange(PyObject *&args,
                                             Py_ssize_t &start, Py_ssize_t &stop, Py_ssize_t &step) noexcept {
-    Py_ssize_t arg1 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg2 = PY_SSIZE_T_MAX;
-    Py_ssize_t arg3 = PY_SSIZE_T_MAX;
+    Py_ssize_t arg1 = 0;
+    Py_ssize_t arg2 = 0;
+    Py_ssize_t arg3 = 1;
 
     if (!PyArg_ParseTuple(args, "n|nn", &arg1, &arg2, &arg3)) {
         return false;
     }
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    if (PyTuple_GET_SIZE(args) == 1) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
-        start = arg1;
-        stop = arg2;
-        step = 1;
     } else if (arg3 != 0) {
         start = arg1;
         stop = arg2;
@@ -91,6 +87,16 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
     return true;
 }
 
+/**
+ * @return how many elements range(start, stop, step) has, step must not be zero
+ */
+static __forceinline size_t PyParse_RangeLength(Py_ssize_t start, Py_ssize_t stop, Py_ssize_t step) noexcept {
+    if (step > 0) {
+        return start >= stop ? 0 : ((size_t) stop - (size_t) start - 1) / (size_t) step + 1;
+    }
+    return start <= stop ? 0 : ((size_t) start - (size_t) stop - 1) / ((size_t) 0 - (size_t) step) + 1;
+}
+
 #define Py_RETURN_BOOL(b) { if (b) Py_RETURN_TRUE; else Py_RETURN_FALSE; }
 
 #ifdef IS_PYTHON_312_OR_LATER
-- 
2.43.0


From 0d655c246f394f926e8ae62a2051745d10aabc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 04/24] fix: construct list containers once and report
 constructor errors

__init__ re-created the container in place (leaking it when called again, and with
the wrong std::list type for IntLinkedList), a subclass skipping __init__ used an
unconstructed container, argument errors were ignored, object lists copied from
their own type did not own their items.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 58 ++++++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp        | 58 ++++++++++++---------
 pyfastutil/src/ints/IntLinkedList.cpp       | 45 +++++++++-------
 pyfastutil/src/objects/ObjectArrayList.cpp  | 54 +++++++++++++------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 48 +++++++++++------
 5 files changed, 164 insertions(+), 99 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index bca9221..4ed4ca3 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,34 +20,49 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
-    } else {
-        pyIterable = arg1;
+        return pySize != -1 || PyErr_Occurred() == nullptr;
     }
+
+    pyIterable = arg1;
+    return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
+    if (self != nullptr) {
+        new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    }
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    // init can be called again
+    self->vector.clear();
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -55,39 +70,32 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &BigIntArrayListType) {  // BigIntArrayList is a final class
-                auto *iter = reinterpret_cast<BigIntArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<BigIntArrayList *>(pyIterable);
+                self->vector = other->vector;
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
+                // the conversion may run python code, which can change a list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    item = Py_NewRef(PySequence_Fast_GET_ITEM(pyIterable, i));
+                    long long value = PyLong_AsLongLong(item);
+                    SAFE_DECREF(item);
                     if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 long long value = PyLong_AsLongLong(item);
                 if (PyErr_Occurred()) {
@@ -103,6 +111,8 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1225,7 +1235,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 80b5370..4500e47 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,34 +20,49 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
-    } else {
-        pyIterable = arg1;
+        return pySize != -1 || PyErr_Occurred() == nullptr;
     }
+
+    pyIterable = arg1;
+    return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
+    if (self != nullptr) {
+        new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    }
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    // init can be called again
+    self->vector.clear();
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -55,39 +70,32 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntArrayListType) {  // IntArrayList is a final class
-                auto *iter = reinterpret_cast<IntArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<IntArrayList *>(pyIterable);
+                self->vector = other->vector;
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                // the conversion may run python code, which can change a list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    item = Py_NewRef(PySequence_Fast_GET_ITEM(pyIterable, i));
+                    int value = PyLong_AsLong(item);
+                    SAFE_DECREF(item);
                     if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 int value = PyLong_AsLong(item);
                 if (PyErr_Occurred()) {
@@ -103,6 +111,8 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1223,7 +1233,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7411f5c..aa8141d 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -20,10 +20,16 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+static PyObject *IntLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<IntLinkedList *>(type->tp_alloc(type, 0));
+    if (self != nullptr) {
+        new(&self->list) std::list<int>();
+        self->modCount = 0;
+    }
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,43 +39,42 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
         return -1;
     }
 
+    // init can be called again
+    self->list.clear();
+    self->modCount++;
+
     // init list
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
-                auto *iter = reinterpret_cast<IntLinkedList *>(pyIterable);
-                self->list = iter->list;
+                auto *other = reinterpret_cast<IntLinkedList *>(pyIterable);
+                self->list = other->list;
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                // the conversion may run python code, which can change a list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    item = Py_NewRef(PySequence_Fast_GET_ITEM(pyIterable, i));
+                    int value = PyLong_AsLong(item);
+                    SAFE_DECREF(item);
                     if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
                     self->list.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 int value = PyLong_AsLong(item);
                 if (PyErr_Occurred()) {
@@ -85,6 +90,8 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1133,7 +1140,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..2496b8b 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,34 +20,53 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
-    } else {
-        pyIterable = arg1;
+        return pySize != -1 || PyErr_Occurred() == nullptr;
     }
+
+    pyIterable = arg1;
+    return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<PyObject *>();
+static PyObject *ObjectArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(type->tp_alloc(type, 0));
+    if (self != nullptr) {
+        new(&self->vector) std::vector<PyObject *>();
+    }
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
+
+    // init can be called again
+    std::vector<PyObject *> oldItems;
+    oldItems.swap(self->vector);
+    for (PyObject *item: oldItems) {
+        SAFE_DECREF(item);
+    }
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -55,8 +74,11 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
-                auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                auto *other = reinterpret_cast<ObjectArrayList *>(pyIterable);
+                self->vector = other->vector;
+                for (PyObject *value: self->vector) {
+                    Py_INCREF(value);
+                }
                 return 0;
             }
 
@@ -69,23 +91,23 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
+                item = fastIter;
+                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
                 SAFE_DECREF(fastIter);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->vector.push_back(item);
             }
@@ -93,6 +115,8 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1195,7 +1219,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..ba835ff 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -20,10 +20,16 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(type->tp_alloc(type, 0));
+    if (self != nullptr) {
+        new(&self->list) std::list<PyObject *>();
+        self->modCount = 0;
+    }
+    return reinterpret_cast<PyObject *>(self);
+}
 
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -33,39 +39,45 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
         return -1;
     }
 
+    // init can be called again
+    std::list<PyObject *> oldItems;
+    oldItems.swap(self->list);
+    self->modCount++;
+    for (PyObject *item: oldItems) {
+        SAFE_DECREF(item);
+    }
+
     // init list
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
-                auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
-                self->list = iter->list;
+                auto *other = reinterpret_cast<ObjectLinkedList *>(pyIterable);
+                self->list = other->list;
+                for (PyObject *value: self->list) {
+                    Py_INCREF(value);
+                }
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
+                const auto size = PySequence_Fast_GET_SIZE(pyIterable);
+                auto items = PySequence_Fast_ITEMS(pyIterable);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    Py_INCREF(value);
                     self->list.push_back(value);
+                    Py_INCREF(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->list.push_back(item);
             }
@@ -73,6 +85,8 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
@@ -1105,7 +1119,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 1dbe2ffece4dfd31d1ed40144c45064761024be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 05/24] fix: extend, + and += report failures and own what they
 add

Adding two lists of the same type failed, += with the same type rebound the name to
None, an allocation failure in extend/+= terminated the process, a failing
__length_hint__ or conversion was ignored, and linked lists missed a modCount update.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 143 ++++++++++-------
 pyfastutil/src/ints/IntArrayList.cpp        | 143 ++++++++++-------
 pyfastutil/src/ints/IntLinkedList.cpp       | 123 ++++++++------
 pyfastutil/src/objects/ObjectArrayList.cpp  | 169 ++++++++++++--------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 132 +++++++++------
 5 files changed, 424 insertions(+), 286 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4ed4ca3..f4aca17 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -246,46 +246,58 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     PyObject *iterable = args[0];
 
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &BigIntArrayListType) {
+            auto *other = reinterpret_cast<BigIntArrayList *>(iterable);
+            self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
+            Py_RETURN_NONE;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_RETURN_NONE;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_RETURN_NONE;
 }
 
 
@@ -703,14 +715,16 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &BigIntArrayListType) {
         // fast add -> BigIntArrayList
+        auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = self->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -739,47 +753,60 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &BigIntArrayListType) {
+            auto *other = reinterpret_cast<BigIntArrayList *>(iterable);
+            self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
+            Py_INCREF(pySelf);
+            return pySelf;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_INCREF(pySelf);
+        return pySelf;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_INCREF(pySelf);
-    return pySelf;
 }
 
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 4500e47..d9cca05 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -246,46 +246,58 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     PyObject *iterable = args[0];
 
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &IntArrayListType) {
+            auto *other = reinterpret_cast<IntArrayList *>(iterable);
+            self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
+            Py_RETURN_NONE;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_RETURN_NONE;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_RETURN_NONE;
 }
 
 
@@ -701,14 +713,16 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &IntArrayListType) {
         // fast add -> IntArrayList
+        auto *self = reinterpret_cast<IntArrayList *>(pySelf);
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = self->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -737,47 +751,60 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &IntArrayListType) {
+            auto *other = reinterpret_cast<IntArrayList *>(iterable);
+            self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
+            Py_INCREF(pySelf);
+            return pySelf;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_INCREF(pySelf);
+        return pySelf;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_INCREF(pySelf);
-    return pySelf;
 }
 
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index aa8141d..580f2c9 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -198,41 +198,50 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
 
     PyObject *iterable = args[0];
 
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &IntLinkedListType) {
+            auto *other = reinterpret_cast<IntLinkedList *>(iterable);
+            self->list.insert(self->list.end(), other->list.begin(), other->list.end());
+            self->modCount++;
+            Py_RETURN_NONE;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
+
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->list.push_back(value);
+            self->modCount++;
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-    self->modCount++;
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_RETURN_NONE;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_RETURN_NONE;
 }
 
 
@@ -659,14 +668,16 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &IntLinkedListType) {
         // fast add -> IntLinkedList
+        auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->list = self->list;
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -695,40 +706,52 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &IntLinkedListType) {
+            auto *other = reinterpret_cast<IntLinkedList *>(iterable);
+            self->list.insert(self->list.end(), other->list.begin(), other->list.end());
+            self->modCount++;
+            Py_INCREF(pySelf);
+            return pySelf;
+        }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
+
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->list.push_back(value);
+            self->modCount++;
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_INCREF(pySelf);
+        return pySelf;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_INCREF(pySelf);
-    return pySelf;
 }
 
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 2496b8b..daf601a 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -233,56 +233,69 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     PyObject *iterable = args[0];
 
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &ObjectArrayListType) {
+            auto *other = reinterpret_cast<ObjectArrayList *>(iterable);
+            const auto added = other->vector.size();
+            self->vector.reserve(self->vector.size() + added);
+            for (size_t i = 0; i < added; ++i) {
+                self->vector.push_back(Py_NewRef(other->vector[i]));
+            }
+            Py_RETURN_NONE;
         }
-        Py_RETURN_NONE;
-    }
 
-    if (Py_TYPE(iterable) == &PyList_Type) {
-        const auto *iter = reinterpret_cast<PyListObject *>(iterable);
-        const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
-        for (PyObject **item = iter->ob_item; item < last; ++item) {
-            Py_INCREF(*item);
+        if (Py_TYPE(iterable) == &PyList_Type) {
+            const auto *list = reinterpret_cast<PyListObject *>(iterable);
+            const auto last = list->ob_item + PyList_GET_SIZE(list);
+            self->vector.insert(self->vector.end(), list->ob_item, last);
+            for (PyObject **added = list->ob_item; added < last; ++added) {
+                Py_INCREF(*added);
+            }
+            Py_RETURN_NONE;
         }
-        Py_RETURN_NONE;
-    }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
+
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(item);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(item);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_RETURN_NONE;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_RETURN_NONE;
 }
 
 
@@ -682,18 +695,24 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &ObjectArrayListType) {
         // fast add -> ObjectArrayList
+        auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            for (const auto &item: self->vector) {
+                result->vector.push_back(item);
+                Py_INCREF(item);
+            }
             for (const auto &item: value->vector) {
+                result->vector.push_back(item);
                 Py_INCREF(item);
             }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -721,49 +740,63 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &ObjectArrayListType) {
+            auto *other = reinterpret_cast<ObjectArrayList *>(iterable);
+            const auto added = other->vector.size();
+            self->vector.reserve(self->vector.size() + added);
+            for (size_t i = 0; i < added; ++i) {
+                self->vector.push_back(Py_NewRef(other->vector[i]));
+            }
+            Py_INCREF(pySelf);
+            return pySelf;
         }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
 
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
+        // pre alloc
+        Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
+        if (hint < 0) {
+            SAFE_DECREF(iter);
+            return nullptr;
+        }
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            PyObject *value = item;
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_INCREF(pySelf);
+        return pySelf;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_INCREF(pySelf);
-    return pySelf;
 }
 
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index ba835ff..a91ae41 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -175,42 +175,52 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
 
     PyObject *iterable = args[0];
 
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+            auto *other = reinterpret_cast<ObjectLinkedList *>(iterable);
+            const auto addedSize = other->list.size();
+            self->list.insert(self->list.end(), other->list.begin(), other->list.end());
+            auto added = self->list.end();
+            for (size_t i = 0; i < addedSize; ++i) {
+                Py_INCREF(*--added);
+            }
+            self->modCount++;
+            Py_RETURN_NONE;
         }
-        self->modCount++;
-        Py_RETURN_NONE;
-    }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
+
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->list.push_back(item);
+            self->modCount++;
+        }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->list.push_back(item);
-    }
-    self->modCount++;
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_RETURN_NONE;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_RETURN_NONE;
 }
 
 
@@ -589,18 +599,23 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &ObjectLinkedListType) {
         // fast add -> ObjectLinkedList
+        auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            for (const auto &item: self->list) {
+                result->list.push_back(item);
+                Py_INCREF(item);
+            }
             for (const auto &item: value->list) {
+                result->list.push_back(item);
                 Py_INCREF(item);
             }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -628,43 +643,56 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
+    try {
+        // fast extend
+        if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+            auto *other = reinterpret_cast<ObjectLinkedList *>(iterable);
+            const auto addedSize = other->list.size();
+            self->list.insert(self->list.end(), other->list.begin(), other->list.end());
+            auto added = self->list.end();
+            for (size_t i = 0; i < addedSize; ++i) {
+                Py_INCREF(*--added);
+            }
+            self->modCount++;
+            Py_INCREF(pySelf);
+            return pySelf;
         }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
 
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
+        // python iterable extend
+        iter = PyObject_GetIter(iterable);
+        if (iter == nullptr) {
+            return nullptr;
+        }
+
+        // do extend
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            PyObject *value = item;
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
+            self->list.push_back(value);
+            self->modCount++;
+        }
 
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
             return nullptr;
         }
 
-        self->list.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
+        Py_INCREF(pySelf);
+        return pySelf;
+    } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
+        PyFast_XDECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-
-    SAFE_DECREF(iter);
-    Py_INCREF(pySelf);
-    return pySelf;
 }
 
 
-- 
2.43.0


From e7645b151aaa31ad335610e0d5cac5e3e76102dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 06/24] fix: slice assignment and deletion keep lists
 consistent

del list[a:b] dereferenced a null value, a[3:1] = x erased a negative range, growing
assignments lost references or left the list half changed on errors, replaced objects
were never released, and non-slice keys were treated as slices.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 109 +++++++-------
 pyfastutil/src/ints/IntArrayList.cpp        | 107 +++++++-------
 pyfastutil/src/ints/IntLinkedList.cpp       | 127 ++++++++--------
 pyfastutil/src/objects/ObjectArrayList.cpp  | 151 ++++++++------------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 103 ++++++++-----
 5 files changed, 283 insertions(+), 314 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index f4aca17..5c526b3 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -552,6 +552,11 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         return BigIntArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -600,6 +605,12 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
                 return -1;
             }
 
+            // the conversion may run python code, which can change the list
+            if (pyIndex >= static_cast<Py_ssize_t>(self->vector.size())) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
+
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -619,92 +630,70 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return BigIntArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
+
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // convert all items first: the conversion can fail or run python code, and value can be the list itself
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        std::vector<long long> newItems;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        newItems.reserve(static_cast<size_t>(newLength));
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            long long newItem = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                return -1;
             }
+            newItems.push_back(newItem);
+        }
+
+        const Py_ssize_t sliceLength = PySlice_AdjustIndices(
+                static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                newItems.begin() + sliceLength,
+                newItems.end()
+            );
+        } else {  // less elements
             self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                self->vector.begin() + start + newLength,
+                self->vector.begin() + start + sliceLength
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy_n(newItems.begin(), std::min(newLength, sliceLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        PyFast_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index d9cca05..7f1546b 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -550,6 +550,11 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
         return IntArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -598,6 +603,12 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
                 return -1;
             }
 
+            // the conversion may run python code, which can change the list
+            if (pyIndex >= static_cast<Py_ssize_t>(self->vector.size())) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
+
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
@@ -617,92 +628,70 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return IntArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
+
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // convert all items first: the conversion can fail or run python code, and value can be the list itself
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        std::vector<int> newItems;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        newItems.reserve(static_cast<size_t>(newLength));
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            int newItem = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                return -1;
             }
+            newItems.push_back(newItem);
+        }
+
+        const Py_ssize_t sliceLength = PySlice_AdjustIndices(
+                static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                newItems.begin() + sliceLength,
+                newItems.end()
+            );
+        } else {  // less elements
             self->vector.erase(
                 self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
+                self->vector.begin() + start + sliceLength
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy_n(newItems.begin(), std::min(newLength, sliceLength), self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        PyFast_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 580f2c9..4d564ca 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -4,6 +4,7 @@
 
 #include "IntLinkedList.h"
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
@@ -143,9 +144,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -482,7 +486,6 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
 
     try {
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
         return item;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -499,6 +502,11 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         return IntLinkedList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -516,7 +524,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
@@ -543,13 +550,20 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
+            int value = PyLong_AsLong(pyValue);
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            // the conversion may run python code, which can change the list
+            if (pyIndex >= static_cast<Py_ssize_t>(self->list.size())) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
+
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -568,96 +582,67 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return IntLinkedList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
+
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // convert all items first: the conversion can fail or run python code, and value can be the list itself
+    PyObject *item = nullptr;
     try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
+        std::vector<int> newItems;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
+        newItems.reserve(static_cast<size_t>(newLength));
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
 
-                ++iter;
+            int newItem = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                return -1;
             }
+            newItems.push_back(newItem);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        const Py_ssize_t sliceLength = PySlice_AdjustIndices(
+                static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        auto iter = at(self->list, static_cast<size_t>(start));
+        auto stopIter = std::next(iter, sliceLength);
+        self->list.insert(stopIter, newItems.begin() + std::min(newLength, sliceLength), newItems.end());
+        for (Py_ssize_t i = 0; i < std::min(newLength, sliceLength); i++, ++iter) {
+            *iter = newItems[static_cast<size_t>(i)];
+        }
+        if (newLength < sliceLength) {
+            self->list.erase(iter, stopIter);
         }
+        self->modCount++;
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index daf601a..4b1677b 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -511,6 +511,11 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         return ObjectArrayList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -549,16 +554,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *oldItem = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(oldItem);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
+            PyObject *oldItem = self->vector[static_cast<size_t>(pyIndex)];
             self->vector[static_cast<size_t>(pyIndex)] = value;
             Py_INCREF(value);
+            SAFE_DECREF(oldItem);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -576,120 +584,81 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return ObjectArrayList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
+
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    // take references to all new items first: that can fail or run python code, and value can be the list itself.
+    // afterwards it holds the references to release, once the list is consistent again
+    std::vector<PyObject *> items;
+    int result = -1;
+    PyObject *item = nullptr;
     try {
-        PyObject **startPtr = self->vector.data() + start;
-
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
+        items.reserve(static_cast<size_t>(newLength));
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                break;
             }
-            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+            items.push_back(item);
+            item = nullptr;
+        }
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        const Py_ssize_t sliceLength = PySlice_AdjustIndices(
+                static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+
+        if (static_cast<Py_ssize_t>(items.size()) != newLength) {
+            // exception is already set
+        } else if (newLength > sliceLength) {  // more elements
+            self->vector.insert(
+                    self->vector.begin() + start + sliceLength,
+                    items.begin() + sliceLength,
+                    items.end()
+            );
+            items.resize(static_cast<size_t>(sliceLength));
+            std::swap_ranges(items.begin(), items.end(), self->vector.begin() + start);
+            result = 0;
+        } else {  // less elements
+            items.resize(static_cast<size_t>(sliceLength));
+            std::swap_ranges(items.begin(), items.end(), self->vector.begin() + start);
+            self->vector.erase(
+                    self->vector.begin() + start + newLength,
+                    self->vector.begin() + start + sliceLength
+            );
+            result = 0;
         }
     } catch (const std::exception &e) {
+        PyFast_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
     }
 
-    return 0;
+    for (PyObject *oldItem: items) {
+        SAFE_DECREF(oldItem);
+    }
+    return result;
 }
 
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index a91ae41..e49e6c2 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -4,6 +4,7 @@
 
 #include "ObjectLinkedList.h"
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
@@ -465,6 +466,11 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         return ObjectLinkedList_getitem(pySelf, pyIndex);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return nullptr;
+    }
+
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     Py_ssize_t start, stop, step, sliceLength;
@@ -508,16 +514,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *oldItem = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(oldItem);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *oldItem = *iter;
+            *iter = value;
             Py_INCREF(value);
+            SAFE_DECREF(oldItem);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -536,64 +547,90 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return ObjectLinkedList_setitem(pySelf, index, value);
     }
 
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "list indices must be integers or slices");
+        return -1;
+    }
+
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_ssize_t start, stop, step, sliceLength;
+    Py_ssize_t start, stop, step;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    if (value == nullptr && step != 1) {
+        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice deletion");
         return -1;
     }
 
+    // take references to all new items first: that can fail or run python code, and value can be the list itself.
+    // afterwards it holds the references to release, once the list is consistent again
+    std::vector<PyObject *> items;
+    int result = -1;
     PyObject *item = nullptr;
     try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
-            }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
         }
 
+        items.reserve(static_cast<size_t>(newLength));
         for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
             item = PySequence_GetItem(value, i);
             if (item == nullptr) {
-                return -1;
+                break;
             }
+            items.push_back(item);
+            item = nullptr;
+        }
 
-            SAFE_DECREF(*iter);
-            *iter = item;
+        const Py_ssize_t sliceLength = PySlice_AdjustIndices(
+                static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+
+        if (static_cast<Py_ssize_t>(items.size()) != newLength) {
+            // exception is already set
+        } else if (step != 1) {
+            if (newLength != sliceLength) {
+                PyErr_SetString(PyExc_ValueError, "attempt to assign sequence of wrong size to extended slice");
+            } else {
+                for (Py_ssize_t i = 0; i < newLength; i++) {
+                    std::swap(*at(self->list, static_cast<size_t>(start + i * step)), items[static_cast<size_t>(i)]);
+                }
+                result = 0;
+            }
+        } else {
+            auto iter = at(self->list, static_cast<size_t>(start));
+            auto stopIter = std::next(iter, sliceLength);
+            const auto common = static_cast<size_t>(std::min(newLength, sliceLength));
+            std::list<PyObject *> added(items.begin() + static_cast<Py_ssize_t>(common), items.end());
+            items.resize(static_cast<size_t>(sliceLength));
+
+            self->list.splice(stopIter, added);
+            for (size_t i = 0; i < common; ++i, ++iter) {
+                std::swap(*iter, items[i]);
+            }
+            for (size_t i = common; i < static_cast<size_t>(sliceLength); ++i) {
+                items[i] = *iter;
+                iter = self->list.erase(iter);
+            }
+            self->modCount++;
+            result = 0;
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        PyFast_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
     }
 
-    return 0;
+    for (PyObject *oldItem: items) {
+        SAFE_DECREF(oldItem);
+    }
+    return result;
 }
 
 static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-- 
2.43.0


From cabc5b9f4d4bd2ed22329bddd24f217fea9aab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 07/24] fix: int list lookups and comparisons agree with list

Values out of the element range were truncated before comparing or raised from
in/count/==, an unconvertible item left an exception set behind a result, errors of
the other sequence were ignored, and IntLinkedList ordered by length first.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 100 +++++++++++----
 pyfastutil/src/ints/IntArrayList.cpp    | 102 +++++++++++----
 pyfastutil/src/ints/IntLinkedList.cpp   | 162 +++++++++++++++++-------
 pyfastutil/src/utils/PythonUtils.h      |  40 ++++++
 4 files changed, 303 insertions(+), 101 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 5c526b3..5beee64 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -386,10 +386,14 @@ static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *BigIntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    long long value = PyLong_AsLongLong(object);
-    if (value == -1 && PyErr_Occurred()) {
+    long long value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
         return nullptr;
     }
+    if (converted == 0) {
+        return PyLong_FromLong(0);
+    }
 
     try {
         size_t result = std::count(self->vector.begin(), self->vector.end(), value);
@@ -433,8 +437,13 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    long long value = PyLong_AsLongLong(object);
-    if (PyErr_Occurred()) {
+    long long value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
+        return nullptr;
+    }
+    if (converted == 0) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
@@ -887,9 +896,10 @@ static int BigIntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    long long value = PyLong_AsLongLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    long long value;
+    const int converted = PyFast_AsElement(key, value);
+    if (converted <= 0) {
+        return converted;
     }
 
     try {
@@ -947,20 +957,27 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        int order;
+        if (!PyFast_CompareElement(self->vector[i], item, order)) {  // can't be converted to int
+            SAFE_DECREF(item);
+            PyErr_Clear();
+            Py_RETURN_FALSE;
+        }
         SAFE_DECREF(item);
-        if (self_value != other_value)
+        if (order != 0)
             Py_RETURN_FALSE;
     }
 
@@ -969,6 +986,9 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) {
+        return nullptr;
+    }
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -997,15 +1017,22 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order < 0)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
 }
@@ -1029,15 +1056,22 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order <= 0)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
 }
@@ -1061,15 +1095,22 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order > 0)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
 }
@@ -1093,15 +1134,22 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order >= 0)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
 }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 7f1546b..6fd7d3d 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -389,10 +389,14 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (value == -1 && PyErr_Occurred()) {
+    int value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
         return nullptr;
     }
+    if (converted == 0) {
+        return PyLong_FromLong(0);
+    }
 
     try {
         size_t result = std::count(self->vector.begin(), self->vector.end(), value);
@@ -436,8 +440,13 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (PyErr_Occurred()) {
+    int value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
+        return nullptr;
+    }
+    if (converted == 0) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
@@ -885,13 +894,14 @@ static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    long value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int value;
+    const int converted = PyFast_AsElement(key, value);
+    if (converted <= 0) {
+        return converted;
     }
 
     try {
-        if (std::find(self->vector.begin(), self->vector.end(), static_cast<int>(value)) != self->vector.end()) {
+        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
             return 1;  // true
         } else {
             return 0;  // false
@@ -945,20 +955,27 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        int order;
+        if (!PyFast_CompareElement(self->vector[i], item, order)) {  // can't be converted to int
+            SAFE_DECREF(item);
+            PyErr_Clear();
+            Py_RETURN_FALSE;
+        }
         SAFE_DECREF(item);
-        if (self_value != other_value)
+        if (order != 0)
             Py_RETURN_FALSE;
     }
 
@@ -967,6 +984,9 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) {
+        return nullptr;
+    }
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -995,15 +1015,22 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order < 0)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
 }
@@ -1027,15 +1054,22 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order <= 0)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
 }
@@ -1059,15 +1093,22 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order > 0)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
 }
@@ -1091,15 +1132,22 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        int order;
+        const bool converted = PyFast_CompareElement(self->vector[i], item, order);
+        SAFE_DECREF(item);
+        if (!converted) return nullptr;
+        if (order != 0) Py_RETURN_BOOL(order >= 0)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
 }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4d564ca..f7bf53d 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -335,10 +335,14 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (value == -1 && PyErr_Occurred()) {
+    int value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
         return nullptr;
     }
+    if (converted == 0) {
+        return PyLong_FromLong(0);
+    }
 
     try {
         size_t result = std::count(self->list.begin(), self->list.end(), value);
@@ -383,8 +387,13 @@ static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (PyErr_Occurred()) {
+    int value;
+    const int converted = PyFast_AsElement(object, value);
+    if (converted < 0) {
+        return nullptr;
+    }
+    if (converted == 0) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
@@ -816,9 +825,10 @@ static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int value;
+    const int converted = PyFast_AsElement(key, value);
+    if (converted <= 0) {
+        return converted;
     }
 
     try {
@@ -864,24 +874,37 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr)
             return nullptr;
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
             SAFE_DECREF(item);
             Py_RETURN_FALSE;
         }
+        const int self_value = *iter++;
+        int order;
+        if (!PyFast_CompareElement(self_value, item, order)) {  // can't be convert to int
+            SAFE_DECREF(item);
+            PyErr_Clear();
+            Py_RETURN_FALSE;
+        }
 
         SAFE_DECREF(item);
-        if (self_value != other_value)
+        if (order != 0)
             Py_RETURN_FALSE;
     }
 
@@ -890,6 +913,9 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
 
 static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
+    if (isEq == nullptr) {
+        return nullptr;
+    }
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -911,24 +937,34 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        const int self_value = *iter++;
+        int order;
+        const bool converted = PyFast_CompareElement(self_value, item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        if (!converted) {
+            return nullptr;
+        }
+        if (order != 0) Py_RETURN_BOOL(order < 0)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -943,24 +979,34 @@ static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        const int self_value = *iter++;
+        int order;
+        const bool converted = PyFast_CompareElement(self_value, item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+        if (!converted) {
+            return nullptr;
+        }
+        if (order != 0) Py_RETURN_BOOL(order <= 0)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -975,24 +1021,34 @@ static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        const int self_value = *iter++;
+        int order;
+        const bool converted = PyFast_CompareElement(self_value, item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+        if (!converted) {
+            return nullptr;
+        }
+        if (order != 0) Py_RETURN_BOOL(order > 0)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1007,24 +1063,34 @@ static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        const int self_value = *iter++;
+        int order;
+        const bool converted = PyFast_CompareElement(self_value, item, order);
         SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+        if (!converted) {
+            return nullptr;
+        }
+        if (order != 0) Py_RETURN_BOOL(order >= 0)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 70420c5..474baef 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -6,6 +6,7 @@
 #define PYFASTUTIL_PYTHONUTILS_H
 
 #include <iostream>
+#include <limits>
 #include "PythonPCH.h"
 #include "Compat.h"
 
@@ -143,6 +144,45 @@ static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
 }
 
 
+/**
+ * Convert a python int to the element type of a list, in order to look it up.
+ * @return 1 if successful, 0 if the value is out of range so that no element equals it, -1 with an exception set
+ */
+template<typename T>
+static __forceinline int PyFast_AsElement(PyObject *obj, T &value) noexcept {
+    int overflow = 0;
+    const long long result = PyLong_AsLongLongAndOverflow(obj, &overflow);
+    if (result == -1 && overflow == 0 && PyErr_Occurred()) {
+        return -1;
+    }
+    if (overflow != 0 || result < std::numeric_limits<T>::min() || result > std::numeric_limits<T>::max()) {
+        return 0;
+    }
+    value = static_cast<T>(result);
+    return 1;
+}
+
+/**
+ * Compare an element of a list with any python int.
+ * @param order negative, zero or positive
+ * @return false with an exception set if obj can't be converted
+ */
+template<typename T>
+static __forceinline bool PyFast_CompareElement(const T element, PyObject *obj, int &order) noexcept {
+    int overflow = 0;
+    const long long other = PyLong_AsLongLongAndOverflow(obj, &overflow);
+    if (other == -1 && overflow == 0 && PyErr_Occurred()) {
+        return false;
+    }
+    if (overflow != 0) {
+        order = -overflow;
+    } else {
+        order = element < other ? -1 : element > other ? 1 : 0;
+    }
+    return true;
+}
+
+
 // API for native code generator
 [[maybe_unused]] static __forceinline PyObject *PyFast_FromDigits(
         [[maybe_unused]] const char *string,
-- 
2.43.0


From 8375507c00c68316e8e5916599a09dca3e36055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 08/24] fix: object list lookups and comparisons use equality
 and lexicographic order

in, index, count and remove compared identities (in was false for everything but
ints), ordering compared lengths first and then only the first item, and elements
could be freed while a comparison was using them.
---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 198 ++++++++++------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 247 +++++++++++++-------
 2 files changed, 287 insertions(+), 158 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 4b1677b..ce407d0 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -340,6 +340,24 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     return popped;
 }
 
+/**
+ * Find the first element in [start, stop) equal to value. The comparison may run python code, which can change the list.
+ * @return 1 if found, 0 if not found, -1 with an exception set
+ */
+static int ObjectArrayList_find(ObjectArrayList *self, PyObject *value, const size_t start, const size_t stop, size_t &index) {
+    for (size_t i = start; i < stop && i < self->vector.size(); ++i) {
+        PyObject *item = Py_NewRef(self->vector[i]);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult != 0) {
+            index = i;
+            return cmpResult;
+        }
+    }
+
+    return 0;
+}
+
 static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -370,22 +388,33 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
-
-    if (it == self->vector.begin() + stop) {
+    size_t index;
+    const int found = ObjectArrayList_find(self, value, static_cast<size_t>(start), static_cast<size_t>(stop), index);
+    if (found < 0) {
+        return nullptr;
+    }
+    if (found == 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
-    return PyLong_FromSsize_t(index);
+    return PyLong_FromSize_t(index);
 }
 
 static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
+        size_t result = 0;
+        size_t index = 0;
+        int found;
+        while ((found = ObjectArrayList_find(self, object, index, SIZE_MAX, index)) > 0) {
+            ++result;
+            ++index;
+        }
+        if (found < 0) {
+            return nullptr;
+        }
 
         return PyLong_FromSize_t(result);
     } catch (const std::exception &e) {
@@ -427,22 +456,22 @@ static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    size_t index;
+    const int found = ObjectArrayList_find(self, object, 0, SIZE_MAX, index);
+    if (found < 0) {
         return nullptr;
     }
 
-    try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
+    // the comparison may run python code, which can change the list
+    if (found == 0 || index >= self->vector.size()) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+        return nullptr;
+    }
 
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
+    try {
+        PyObject *oldItem = self->vector[index];
+        self->vector.erase(self->vector.begin() + static_cast<Py_ssize_t>(index));
+        SAFE_DECREF(oldItem);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -849,27 +878,10 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
-    }
+    size_t index;
+    return ObjectArrayList_find(self, key, 0, SIZE_MAX, index);
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
@@ -906,6 +918,8 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -914,11 +928,17 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         if (item == nullptr)
             return nullptr;
 
-        PyObject *self_value = self->vector[i];
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            Py_RETURN_FALSE;
+        }
+        PyObject *self_value = Py_NewRef(self->vector[i]);
         PyObject *other_value = item;
 
         // compare
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -940,22 +960,30 @@ static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *py
 
     // compare
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_TRUE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        PyObject *self_value = self->vector[i];
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            Py_RETURN_TRUE;
+        }
+        PyObject *self_value = Py_NewRef(self->vector[i]);
         PyObject *other_value = item;
 
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
+        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
 
-        if (cmpResult != 0) {
+        if (cmpResult == 0) {
             Py_RETURN_TRUE;
         }
     }
@@ -975,26 +1003,30 @@ static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
     for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(self->vector[i]);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_LT) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] < item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -1009,26 +1041,30 @@ static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
     for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(self->vector[i]);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_LE) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] <= item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1043,26 +1079,30 @@ static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
     for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(self->vector[i]);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_GT) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] > item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1077,26 +1117,30 @@ static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
     for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (static_cast<size_t>(i) >= self->vector.size()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(self->vector[i]);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_GE) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] >= item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index e49e6c2..82fd9f8 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -266,6 +266,31 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
     return *popped;
 }
 
+/**
+ * Find the first element in [start, stop) equal to value. The comparison may run python code, which can change the list.
+ * @return 1 if found, 0 if not found, -1 with an exception set
+ */
+static int ObjectLinkedList_find(ObjectLinkedList *self, PyObject *value, const size_t start, const size_t stop, size_t &index) {
+    auto modCount = self->modCount;
+    auto iter = at(self->list, start);
+    for (size_t i = start; i < stop; ++i) {
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, i);
+        }
+        if (iter == self->list.end()) break;
+        PyObject *item = Py_NewRef(*iter++);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult != 0) {
+            index = i;
+            return cmpResult;
+        }
+    }
+
+    return 0;
+}
+
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -296,23 +321,33 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
-
-    if (it == stopIter) {
+    size_t index;
+    const int found = ObjectLinkedList_find(self, value, static_cast<size_t>(start), static_cast<size_t>(stop), index);
+    if (found < 0) {
+        return nullptr;
+    }
+    if (found == 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->list.begin(), it);
-    return PyLong_FromSsize_t(index);
+    return PyLong_FromSize_t(index);
 }
 
 static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
+        size_t result = 0;
+        size_t index = 0;
+        int found;
+        while ((found = ObjectLinkedList_find(self, object, index, SIZE_MAX, index)) > 0) {
+            ++result;
+            ++index;
+        }
+        if (found < 0) {
+            return nullptr;
+        }
 
         return PyLong_FromSize_t(result);
     } catch (const std::exception &e) {
@@ -355,22 +390,24 @@ static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    size_t index;
+    const int found = ObjectLinkedList_find(self, object, 0, SIZE_MAX, index);
+    if (found < 0) {
         return nullptr;
     }
 
-    try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
+    // the comparison may run python code, which can change the list
+    if (found == 0 || index >= self->list.size()) {
+        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+        return nullptr;
+    }
 
-        if (it != self->list.end()) {
-            self->list.erase(it);
-            SAFE_DECREF(value);
-            self->modCount++;
-        } else {
-            PyErr_SetString(PyExc_ValueError, "Value is not in list.");
-            return nullptr;
-        }
+    try {
+        const auto it = at(self->list, index);
+        PyObject *oldItem = *it;
+        self->list.erase(it);
+        self->modCount++;
+        SAFE_DECREF(oldItem);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -809,24 +846,10 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return -1;
-    }
+    size_t index;
+    return ObjectLinkedList_find(self, key, 0, SIZE_MAX, index);
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
@@ -863,20 +886,33 @@ static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *p
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr)
             return nullptr;
 
-        PyObject *self_value = *iter;
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            Py_RETURN_FALSE;
+        }
+        PyObject *self_value = Py_NewRef(*iter++);
         PyObject *other_value = item;
 
         // compare
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -898,23 +934,36 @@ static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *p
 
     // compare
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_TRUE;
 
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            Py_RETURN_TRUE;
+        }
+        PyObject *self_value = Py_NewRef(*iter++);
         PyObject *other_value = item;
 
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
+        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
 
-        if (cmpResult != 0) {
+        if (cmpResult == 0) {
             Py_RETURN_TRUE;
         }
     }
@@ -934,27 +983,36 @@ static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(*iter++);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_LT) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] < item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -969,27 +1027,36 @@ static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(*iter++);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_LE) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] <= item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1004,27 +1071,36 @@ static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(*iter++);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_GT) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] > item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1039,27 +1115,36 @@ static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
+        // the other sequence runs python code, which can change this list
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, static_cast<size_t>(i));
+        }
+        if (iter == self->list.end()) {
+            SAFE_DECREF(item);
+            break;
+        }
+        PyObject *selfItem = Py_NewRef(*iter++);
+
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
+        int cmpResult = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = cmpResult == 0 ? PyObject_RichCompare(selfItem, item, Py_GE) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (cmpResult <= 0) {
+            return result;  // self[i] >= item
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-- 
2.43.0


From 9349e768553ba9cb08a7fb8b1fe2c185b885373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 09/24] fix: sorting survives failing and list-changing
 callbacks

Errors of key functions and comparisons were dropped with the exception still set,
a callback changing the list freed the memory being sorted, every keyed sort leaked
a reference to its result, and reverse= other than 1 was ignored.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 30 +++++++++++++++----
 pyfastutil/src/ints/IntArrayList.cpp        | 30 +++++++++++++++----
 pyfastutil/src/ints/IntLinkedList.cpp       | 33 +++++++++++++++++----
 pyfastutil/src/objects/ObjectArrayList.cpp  | 22 ++++++++++++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 25 ++++++++++++----
 5 files changed, 117 insertions(+), 23 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 5beee64..3657776 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -475,15 +475,13 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -496,16 +494,38 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyLong_FromLongLong(vecData[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            // like list.sort, the list is empty while python code runs
+            decltype(self->vector) values;
+            values.swap(self->vector);
+
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
+            const bool modified = !self->vector.empty();
             for (size_t i = 0; i < vecSize; ++i) {
                 vecData[i] = PyLong_AsLongLong(pyData[i]);
                 Py_DECREF(pyData[i]);
             }
+            values.swap(self->vector);
 
             PyMem_FREE(pyData);
+
+            if (result == nullptr) {
+                return nullptr;
+            }
+            SAFE_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 6fd7d3d..914cd3f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -478,15 +478,13 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -499,16 +497,38 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyFast_FromInt(vecData[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            // like list.sort, the list is empty while python code runs
+            decltype(self->vector) values;
+            values.swap(self->vector);
+
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
+            const bool modified = !self->vector.empty();
             for (size_t i = 0; i < vecSize; ++i) {
                 vecData[i] = PyFast_AsInt(pyData[i]);
                 Py_DECREF(pyData[i]);
             }
+            values.swap(self->vector);
 
             PyMem_FREE(pyData);
+
+            if (result == nullptr) {
+                return nullptr;
+            }
+            SAFE_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index f7bf53d..f32f166 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -427,7 +427,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     }
 
     if (keyFunc == Py_None) {
-        if (reverseInt == 1) {
+        if (reverseInt != 0) {
             self->list.sort(std::greater());
         } else {
             self->list.sort();
@@ -445,20 +445,43 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         auto iter = self->list.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            if (pyData[i] == nullptr) {
+                while (i > 0) {
+                    Py_DECREF(pyData[--i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        // like list.sort, the list is empty while python code runs
+        std::list<int> values;
+        values.swap(self->list);
+        self->modCount++;
+
+        PyObject *result = CPython_sort(pyData,
+                                        static_cast<Py_ssize_t>(vecSize),
+                                        keyFunc, reverseInt);
 
-        iter = self->list.begin();
+        const bool modified = !self->list.empty();
+        iter = values.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             *iter = PyFast_AsInt(pyData[i]);
             Py_DECREF(pyData[i]);
         }
+        values.swap(self->list);
 
         PyMem_FREE(pyData);
         self->modCount++;
+
+        if (result == nullptr) {
+            return nullptr;
+        }
+        SAFE_DECREF(result);
+        if (modified) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            return nullptr;
+        }
     }
 
     Py_RETURN_NONE;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index ce407d0..8e66f30 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -492,9 +492,25 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     }
 
     // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // like list.sort, the list is empty while python code runs
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+
+    PyObject *result = CPython_sort(items.data(),
+                                    static_cast<Py_ssize_t>(items.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+
+    items.swap(self->vector);
+    if (!items.empty()) {
+        for (PyObject *item: items) {
+            SAFE_DECREF(item);
+        }
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 82fd9f8..c5037f5 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -440,19 +440,34 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
         pyData[i] = *iter;
     }
 
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // like list.sort, the list is empty while python code runs
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+
+    PyObject *result = CPython_sort(pyData,
+                                    static_cast<Py_ssize_t>(vecSize),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
 
-    iter = self->list.begin();
+    iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         *iter = pyData[i];
     }
+    items.swap(self->list);
 
     PyMem_FREE(pyData);
     self->modCount++;
 
-    Py_RETURN_NONE;
+    if (!items.empty()) {
+        for (PyObject *item: items) {
+            SAFE_DECREF(item);
+        }
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
-- 
2.43.0


From 72e35af0af0e0ad81c37c2a7375c35ebd76b06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 10/24] fix: repetition, clear, resize and reverse keep list
 contents sound

*= wrote past the end of the buffer (the offset was scaled twice) or never ended for
object lists, * used aligned stores on unaligned addresses, sizes overflowed, contents
were changed with the GIL released, pop(i) read the erased node, and object lists
did not release removed items or released them while still listed.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 39 +++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp        | 39 +++++++++++----------
 pyfastutil/src/ints/IntLinkedList.cpp       | 22 ++++++------
 pyfastutil/src/objects/ObjectArrayList.cpp  | 36 ++++++++++++++-----
 pyfastutil/src/objects/ObjectLinkedList.cpp | 27 ++++++++------
 5 files changed, 94 insertions(+), 69 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 3657776..8c89efa 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -846,13 +846,15 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; selfSize != 0 && i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -888,17 +890,18 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; selfSize != 0 && i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -945,9 +948,7 @@ static PyObject *BigIntArrayList_reversed(PyObject *pySelf) {
 static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 914cd3f..5cc88d2 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -844,13 +844,15 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; selfSize != 0 && i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -886,17 +888,18 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; selfSize != 0 && i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
@@ -943,9 +946,7 @@ static PyObject *IntArrayList_reversed(PyObject *pySelf) {
 static PyObject *IntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index f32f166..acfccc8 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -284,10 +284,11 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         return PyFast_FromInt(popped);
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    const auto it = at(self->list, index);
+    const auto popped = *it;
+    self->list.erase(it);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return PyFast_FromInt(popped);
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -789,7 +790,7 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        for (Py_ssize_t i = 0; !self->list.empty() && i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
         }
 
@@ -826,12 +827,12 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
         if (n == 0) {
             self->list.clear();
         } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
-            for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+            const std::list<int> added = self->list;
+            for (Py_ssize_t i = 1; !added.empty() && i < n; ++i) {
+                self->list.insert(self->list.end(), added.begin(), added.end());
             }
         }
+        self->modCount++;
 
         Py_INCREF(pySelf);
         return pySelf;
@@ -877,9 +878,7 @@ static PyObject *IntLinkedList_reversed(PyObject *pySelf) {
 static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
@@ -887,6 +886,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 8e66f30..04b2fa7 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -148,6 +148,15 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
+        if (newSize < self->vector.size()) {
+            std::vector<PyObject *> removed(self->vector.begin() + pySSize, self->vector.end());
+            self->vector.resize(newSize);
+            for (PyObject *item: removed) {
+                SAFE_DECREF(item);
+            }
+            Py_RETURN_NONE;
+        }
+
         self->vector.resize(newSize, Py_None);
         // No need to call Py_INCREF on Py_None or other constant objects
         // because, the reference count operations on global singleton objects
@@ -832,9 +841,13 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
         result->vector.reserve(selfSize * n);
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        for (Py_ssize_t i = 0; selfSize != 0 && i < n; ++i) {
             for (const auto obj: self->vector) {
                 result->vector.push_back(obj);
                 Py_INCREF(obj);
@@ -863,6 +876,8 @@ static PyObject *ObjectArrayList_rmul(PyObject *pySelf, PyObject *pyValue) {
     return nullptr;
 }
 
+static PyObject *ObjectArrayList_clear(PyObject *pySelf);
+
 static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -872,13 +887,16 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
+            Py_DECREF(ObjectArrayList_clear(pySelf));
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
             self->vector.reserve(selfSize * n);
-            for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+            for (Py_ssize_t i = 1; selfSize != 0 && i < n; ++i) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
@@ -911,19 +929,19 @@ static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
 static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
+    // releasing an item may run python code, which can use the list
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+    for (PyObject *item: items) {
         SAFE_DECREF(item);
     }
-    self->vector.clear();
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c5037f5..361ad86 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -260,10 +260,11 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    const auto it = at(self->list, index);
+    const auto popped = *it;
+    self->list.erase(it);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 /**
@@ -802,7 +803,7 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        for (Py_ssize_t i = 0; !self->list.empty() && i < n; ++i) {
             for (const auto obj: self->list) {
                 result->list.push_back(obj);
                 Py_INCREF(obj);
@@ -831,6 +832,8 @@ static PyObject *ObjectLinkedList_rmul(PyObject *pySelf, PyObject *pyValue) {
     return nullptr;
 }
 
+static PyObject *ObjectLinkedList_clear(PyObject *pySelf);
+
 static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -840,16 +843,17 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
+            Py_DECREF(ObjectLinkedList_clear(pySelf));
         } else {
             const auto size = self->list.size();
-            for (Py_ssize_t i = 1; i < n; ++i) {
+            for (Py_ssize_t i = 1; size != 0 && i < n; ++i) {
                 auto iter = self->list.begin();
                 for (size_t j = 0; j < size; ++j, ++iter) {
                     self->list.push_back(*iter);
                     Py_INCREF(*iter);
                 }
             }
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
@@ -878,19 +882,20 @@ static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
+    // releasing an item may run python code, which can use the list
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+    for (PyObject *item: items) {
         SAFE_DECREF(item);
     }
-    self->list.clear();
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 5ad2610fe257e50269e50c322cdbbe8d07d5aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 11/24] fix: iterators follow list iterators when the list
 changes

Reversed iterators read past the end of a shrunken list, linked list iterators skipped
an element after every modification and ended reversed iteration with the last element,
and exhausted iterators came back to life when the list grew.
---
 pyfastutil/src/ints/BigIntArrayListIter.cpp   | 17 ++++---------
 pyfastutil/src/ints/IntArrayListIter.cpp      | 17 ++++---------
 pyfastutil/src/ints/IntLinkedListIter.cpp     | 24 ++++---------------
 .../src/objects/ObjectArrayListIter.cpp       | 17 ++++---------
 .../src/objects/ObjectLinkedListIter.cpp      | 24 ++++---------------
 5 files changed, 22 insertions(+), 77 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..e5d0ba4 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
 static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // like a list iterator, an exhausted iterator stays exhausted
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,10 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyLong_FromLongLong(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         long long element = self->container->vector[self->index];
         self->index--;
         return PyLong_FromLongLong(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         long long element = self->container->vector[self->index];
         self->index++;
         return PyLong_FromLongLong(element);
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..73fce41 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void IntArrayListIter_dealloc(IntArrayListIter *self) {
 static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // like a list iterator, an exhausted iterator stays exhausted
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,10 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         int element = self->container->vector[self->index];
         self->index--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         int element = self->container->vector[self->index];
         self->index++;
         return PyFast_FromInt(element);
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..534dc15 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,7 +19,7 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
         instance->cacheIter = --list->list.end();
     } else {
@@ -43,11 +43,6 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -55,7 +50,9 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
 static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    // like a list iterator, an exhausted iterator stays exhausted
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -63,27 +60,16 @@ static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            int element = *(--self->container->list.end());
+            int element = *self->container->list.begin();
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         updateCache(self);
         int element = *self->cacheIter;
         self->index--;
         self->cacheIter--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         updateCache(self);
         int element = *self->cacheIter;
         self->index++;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..6611736 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
 static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    // like a list iterator, an exhausted iterator stays exhausted
+    if (self->index >= self->container->vector.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -49,22 +51,11 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         PyObject *element = self->container->vector[self->index];
         self->index--;
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         PyObject *element = self->container->vector[self->index];
         self->index++;
         Py_INCREF(element);
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..f7bf839 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,7 +19,7 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
         instance->cacheIter = --list->list.end();
     } else {
@@ -43,11 +43,6 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -55,7 +50,9 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
 static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    // like a list iterator, an exhausted iterator stays exhausted
+    if (self->index >= self->container->list.size()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -63,17 +60,11 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            PyObject *element = *(--self->container->list.end());
+            PyObject *element = *self->container->list.begin();
             self->index = SIZE_MAX;
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index--;
@@ -81,11 +72,6 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index++;
-- 
2.43.0


From 2fb5cea7513e913e4cb404ed723719c0f6aa641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 12/24] fix: repr handles failures, self-references and items
 changing the list

A failing item repr was dereferenced, a list containing itself recursed until the
stack overflowed, an item repr changing the list left a dangling reference, and an
allocation failure terminated the process.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     |  5 ++-
 pyfastutil/src/ints/IntArrayList.cpp        |  5 ++-
 pyfastutil/src/ints/IntLinkedList.cpp       |  5 ++-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 37 +++++++++++-------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 43 ++++++++++++++-------
 5 files changed, 62 insertions(+), 33 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 8c89efa..34505b0 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1201,7 +1201,7 @@ static PyObject *BigIntArrayList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
+static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     const auto &vec = self->vector;
@@ -1230,6 +1230,9 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5cc88d2..fd207b1 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1199,7 +1199,7 @@ static PyObject *IntArrayList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
+static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     const auto &vec = self->vector;
@@ -1228,6 +1228,9 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index acfccc8..0d47599 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1142,7 +1142,7 @@ static PyObject *IntLinkedList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
+static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     auto &vec = self->list;
@@ -1172,6 +1172,9 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 04b2fa7..46c1fef 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1212,27 +1212,34 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    // the list can contain itself
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
-        }
+    PyObject *reprList = PyUnicode_FromString("[");
 
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+    // generate string, the repr of an item can change the list
+    for (size_t i = 0; i < vec.size(); ++i) {
+        PyObject *item = Py_NewRef(vec[i]);
+        if (i > 0 && reprList != nullptr) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
+        if (reprList != nullptr) {
+            PyUnicode_AppendAndDel(&reprList, PyObject_Repr(item));
+        }
+        SAFE_DECREF(item);
+        if (reprList == nullptr) {
+            break;
+        }
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 361ad86..f4caf4c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1202,28 +1202,41 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
+    // the list can contain itself
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    // generate string
+    PyObject *reprList = PyUnicode_FromString("[");
+
+    // generate string, the repr of an item can change the list
+    auto modCount = self->modCount;
     auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
+    for (size_t i = 0; ; ++i) {
+        if (modCount != self->modCount) {
+            modCount = self->modCount;
+            iter = at(self->list, i);
+        }
+        if (iter == self->list.end()) break;
+        PyObject *item = Py_NewRef(*iter++);
+        if (i > 0 && reprList != nullptr) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        }
+        if (reprList != nullptr) {
+            PyUnicode_AppendAndDel(&reprList, PyObject_Repr(item));
+        }
+        SAFE_DECREF(item);
+        if (reprList == nullptr) {
+            break;
         }
-
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    if (reprList != nullptr) {
+        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    }
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From ba49863721cee1be1f83546abccab28614376e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 13/24] fix: buffers keep their list alive and its memory in
 place

A memoryview held no reference to the list and the list could be resized or freed
under it; format, shape and strides ignored the request flags.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 109 ++++++++++++++++++++++--
 pyfastutil/src/ints/BigIntArrayList.h   |   2 +
 pyfastutil/src/ints/IntArrayList.cpp    | 109 ++++++++++++++++++++++--
 pyfastutil/src/ints/IntArrayList.h      |   2 +
 4 files changed, 204 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 34505b0..7c89b3c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -41,6 +41,18 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+/**
+ * The vector must not be resized while a buffer uses its memory.
+ * @return false with an exception set if the vector must not be resized
+ */
+static __forceinline bool BigIntArrayList_canResize(BigIntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *BigIntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<BigIntArrayList *>(type->tp_alloc(type, 0));
     if (self != nullptr) {
@@ -57,6 +69,10 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
         return -1;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return -1;
+    }
+
     // init can be called again
     self->vector.clear();
 
@@ -85,6 +101,9 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
+                    if (!BigIntArrayList_canResize(self)) {
+                        return -1;
+                    }
                     self->vector.push_back(value);
                 }
                 return 0;
@@ -104,8 +123,12 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                if (!BigIntArrayList_canResize(self)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -170,6 +193,10 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -225,6 +252,10 @@ static PyObject *BigIntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -246,6 +277,10 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     PyObject *iterable = args[0];
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     PyObject *iter = nullptr;
     PyObject *item = nullptr;
     try {
@@ -268,7 +303,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
             SAFE_DECREF(iter);
             return nullptr;
         }
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -282,6 +317,10 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
                 return nullptr;
             }
 
+            if (!BigIntArrayList_canResize(self)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
             self->vector.push_back(value);
         }
 
@@ -309,6 +348,10 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
@@ -423,6 +466,10 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -447,6 +494,10 @@ static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
@@ -506,6 +557,8 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             // like list.sort, the list is empty while python code runs
             decltype(self->vector) values;
             values.swap(self->vector);
+            const bool wasSorting = self->sorting;
+            self->sorting = true;
 
             PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
@@ -515,6 +568,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
                 Py_DECREF(pyData[i]);
             }
             values.swap(self->vector);
+            self->sorting = wasSorting;
 
             PyMem_FREE(pyData);
 
@@ -627,6 +681,9 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
+            if (!BigIntArrayList_canResize(self)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             long long value = PyLong_AsLongLong(pyValue);
@@ -708,6 +765,9 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         const Py_ssize_t sliceLength = PySlice_AdjustIndices(
                 static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength != sliceLength && !BigIntArrayList_canResize(self)) {
+            return -1;
+        }
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(
                 self->vector.begin() + start + sliceLength,
@@ -771,6 +831,10 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     PyObject *iter = nullptr;
     PyObject *item = nullptr;
     try {
@@ -794,7 +858,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             SAFE_DECREF(iter);
             return nullptr;
         }
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -808,6 +872,10 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
                 return nullptr;
             }
 
+            if (!BigIntArrayList_canResize(self)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
             self->vector.push_back(value);
         }
 
@@ -885,6 +953,10 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -955,6 +1027,10 @@ static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
 static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!BigIntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1239,25 +1315,40 @@ static PyObject *BigIntArrayList_str(PyObject *pySelf) {
     return BigIntArrayList_repr(pySelf);
 }
 
-static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    view->obj = nullptr;
+    if (self->sorting) {
+        PyErr_SetString(PyExc_BufferError, "list is being sorted");
+        return -1;
+    }
+
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("q");
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("q") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
     view->itemsize = sizeof(long long);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) == PyBUF_ND ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
+    view->obj = Py_NewRef(pySelf);
+    self->exports++;
     return 0;
 }
 
+static void BigIntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<BigIntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef BigIntArrayList_methods[] = {
         {"from_range", (PyCFunction) BigIntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) BigIntArrayList_resize, METH_O},
@@ -1310,7 +1401,7 @@ static PyMappingMethods BigIntArrayList_asMapping = {
 
 static PyBufferProcs BigIntArrayList_asBuffer = {
         BigIntArrayList_get_buffer,
-        nullptr
+        BigIntArrayList_release_buffer
 };
 
 void initializeBigIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/BigIntArrayList.h b/pyfastutil/src/ints/BigIntArrayList.h
index 8a018c3..b86af26 100644
--- a/pyfastutil/src/ints/BigIntArrayList.h
+++ b/pyfastutil/src/ints/BigIntArrayList.h
@@ -15,6 +15,8 @@ typedef struct BigIntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<long long, AlignedAllocator<long long, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // how many buffers use the memory of the vector
+    bool sorting = false;
 } BigIntArrayList;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index fd207b1..bceb039 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -41,6 +41,18 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
+/**
+ * The vector must not be resized while a buffer uses its memory.
+ * @return false with an exception set if the vector must not be resized
+ */
+static __forceinline bool IntArrayList_canResize(IntArrayList *self) {
+    if (self->exports > 0) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 static PyObject *IntArrayList_new(PyTypeObject *type, [[maybe_unused]] PyObject *args, [[maybe_unused]] PyObject *kwargs) {
     auto *self = reinterpret_cast<IntArrayList *>(type->tp_alloc(type, 0));
     if (self != nullptr) {
@@ -57,6 +69,10 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
         return -1;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return -1;
+    }
+
     // init can be called again
     self->vector.clear();
 
@@ -85,6 +101,9 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
+                    if (!IntArrayList_canResize(self)) {
+                        return -1;
+                    }
                     self->vector.push_back(value);
                 }
                 return 0;
@@ -104,8 +123,12 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                if (!IntArrayList_canResize(self)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -170,6 +193,10 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -225,6 +252,10 @@ static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -246,6 +277,10 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     PyObject *iterable = args[0];
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     PyObject *iter = nullptr;
     PyObject *item = nullptr;
     try {
@@ -268,7 +303,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
             SAFE_DECREF(iter);
             return nullptr;
         }
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -282,6 +317,10 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
                 return nullptr;
             }
 
+            if (!IntArrayList_canResize(self)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
             self->vector.push_back(value);
         }
 
@@ -309,6 +348,10 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
         return nullptr;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
@@ -426,6 +469,10 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
         index = vecSize;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     // do insert
     try {
         self->vector.insert(self->vector.begin() + index, value);
@@ -450,6 +497,10 @@ static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
@@ -509,6 +560,8 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             // like list.sort, the list is empty while python code runs
             decltype(self->vector) values;
             values.swap(self->vector);
+            const bool wasSorting = self->sorting;
+            self->sorting = true;
 
             PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
@@ -518,6 +571,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
                 Py_DECREF(pyData[i]);
             }
             values.swap(self->vector);
+            self->sorting = wasSorting;
 
             PyMem_FREE(pyData);
 
@@ -625,6 +679,9 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     try {
         if (pyValue == nullptr) {
+            if (!IntArrayList_canResize(self)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             int value = PyLong_AsLong(pyValue);
@@ -706,6 +763,9 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         const Py_ssize_t sliceLength = PySlice_AdjustIndices(
                 static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength != sliceLength && !IntArrayList_canResize(self)) {
+            return -1;
+        }
         if (newLength > sliceLength) {  // more elements
             self->vector.insert(
                 self->vector.begin() + start + sliceLength,
@@ -769,6 +829,10 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     PyObject *iter = nullptr;
     PyObject *item = nullptr;
     try {
@@ -792,7 +856,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             SAFE_DECREF(iter);
             return nullptr;
         }
-        if (hint > 0) {
+        if (hint > 0 && self->exports == 0) {
             self->vector.reserve(self->vector.size() + hint);
         }
 
@@ -806,6 +870,10 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
                 return nullptr;
             }
 
+            if (!IntArrayList_canResize(self)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
             self->vector.push_back(value);
         }
 
@@ -883,6 +951,10 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -953,6 +1025,10 @@ static PyObject *IntArrayList_reverse(PyObject *pySelf) {
 static PyObject *IntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!IntArrayList_canResize(self)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1237,25 +1313,40 @@ static PyObject *IntArrayList_str(PyObject *pySelf) {
     return IntArrayList_repr(pySelf);
 }
 
-static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, int flags) {
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "NULL view in getbuffer");
+        return -1;
+    }
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    view->obj = nullptr;
+    if (self->sorting) {
+        PyErr_SetString(PyExc_BufferError, "list is being sorted");
+        return -1;
+    }
+
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
-    view->format = const_cast<char *>("i");
+    view->format = (flags & PyBUF_FORMAT) == PyBUF_FORMAT ? const_cast<char *>("i") : nullptr;
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
     view->itemsize = sizeof(int);
     view->readonly = 0;
     view->ndim = 1;
-    view->shape = &self->shape;
-    view->strides = nullptr;
+    view->shape = (flags & PyBUF_ND) == PyBUF_ND ? &self->shape : nullptr;
+    view->strides = (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? &view->itemsize : nullptr;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
+    view->obj = Py_NewRef(pySelf);
+    self->exports++;
     return 0;
 }
 
+static void IntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<IntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef IntArrayList_methods[] = {
         {"from_range", (PyCFunction) IntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) IntArrayList_resize, METH_O},
@@ -1308,7 +1399,7 @@ static PyMappingMethods IntArrayList_asMapping = {
 
 static PyBufferProcs IntArrayList_asBuffer = {
         IntArrayList_get_buffer,
-        nullptr
+        IntArrayList_release_buffer
 };
 
 void initializeIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/IntArrayList.h b/pyfastutil/src/ints/IntArrayList.h
index 24d5598..04080e7 100644
--- a/pyfastutil/src/ints/IntArrayList.h
+++ b/pyfastutil/src/ints/IntArrayList.h
@@ -15,6 +15,8 @@ typedef struct IntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<int, AlignedAllocator<int, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // how many buffers use the memory of the vector
+    bool sorting = false;
 } IntArrayList;
 }
 
-- 
2.43.0


From cc444efed0a506c8eac77d44e4e8b6f6f871ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 14/24] fix: SIMD functions check their arguments before
 touching memory

A failed conversion used to run the copy with the error value and return
with an exception set. setAVX* wrote through a possibly unaligned pointer
with an aligned store.
---
 pyfastutil/src/unsafe/SIMD.cpp | 63 ++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..8d251f2 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -46,6 +46,11 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
 
@@ -66,6 +71,11 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
 
@@ -84,6 +94,11 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     size_t count = PyLong_AsSize_t(args[1]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdReverse(address, count);
 
@@ -143,12 +158,18 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vec = _mm512_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
             PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
             PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm512_storeu_si512(ptr, vec);
 
     Py_RETURN_NONE;
 #else
@@ -165,7 +186,8 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vec = _mm512_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
@@ -175,6 +197,11 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
             PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
             PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm512_storeu_si512(ptr, vec);
 
     Py_RETURN_NONE;
 #else
@@ -191,7 +218,8 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vec = _mm512_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -209,6 +237,11 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
             PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm512_storeu_si512(ptr, vec);
 
     Py_RETURN_NONE;
 #else
@@ -225,10 +258,16 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vec = _mm256_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm256_storeu_si256(ptr, vec);
 
     Py_RETURN_NONE;
 #else
@@ -245,12 +284,18 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vec = _mm256_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
             PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm256_storeu_si256(ptr, vec);
 
     Py_RETURN_NONE;
 #else
@@ -267,7 +312,8 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vec = _mm256_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -277,6 +323,11 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
             PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
+    _mm256_storeu_si256(ptr, vec);
 
     Py_RETURN_NONE;
 #else
-- 
2.43.0


From a581f7c31ccc89655ecc6d94a48eba255d766037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 15/24] fix: Unsafe.as_object, realloc and fgets ownership

as_object returned a borrowed reference and dereferenced NULL, realloc to
size 0 freed the block and raised, fgets leaked its buffer.
---
 pyfastutil/src/unsafe/Unsafe.cpp | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..209d394 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -68,7 +68,8 @@ static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args)
         return nullptr;
     }
 
-    void *ptr = realloc(reinterpret_cast<void *>(address), newSize);
+    // realloc may free the block if size is 0
+    void *ptr = realloc(reinterpret_cast<void *>(address), newSize == 0 ? 1 : newSize);
     if (ptr == nullptr) {
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
@@ -247,7 +248,16 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Address must not be NULL.");
+        }
+        return nullptr;
+    }
+
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
@@ -337,20 +347,33 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
+    const int bufferSize = PyFast_AsInt(pyBufferSize);
+    if (bufferSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (bufferSize <= 0) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    char *buffer = (char *) malloc(bufferSize);
+    if (buffer == nullptr) {
+        return PyErr_NoMemory();
+    }
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
+        const bool isEof = feof(stdin) && !ferror(stdin);
+        free(buffer);
+        if (isEof) {
+            return PyUnicode_FromString("");
+        }
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    PyObject *result = PyUnicode_FromString(buffer);
+    free(buffer);
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From f1e52d4b44b319fadcd7f1eef15b42ceec2379ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 16/24] fix: AVX-512 needs opmask and ZMM state enabled by the
 OS

---
 pyfastutil/src/utils/simd/SIMDHelper.cpp | 35 ++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pyfastutil/src/utils/simd/SIMDHelper.cpp b/pyfastutil/src/utils/simd/SIMDHelper.cpp
index 98960df..9880c21 100644
--- a/pyfastutil/src/utils/simd/SIMDHelper.cpp
+++ b/pyfastutil/src/utils/simd/SIMDHelper.cpp
@@ -5,7 +5,8 @@
 #include "SIMDHelper.h"
 
 // Helper function to check OS support for AVX (via XGETBV)
-bool osSupportsAVX();
+// By default, XMM (bit 1) and YMM (bit 2) state must be enabled by OS
+bool osSupportsAVX(unsigned long long stateMask = 0x6);
 
 // Function to check if AVX2 is supported
 bool isAVX2Supported();
@@ -28,7 +29,7 @@ bool isArmNeonSupported();
 
 #include <intrin.h>  // For __cpuid() and _xgetbv()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long stateMask) {
     int cpuInfo[4];
     __cpuid(cpuInfo, 1);
 
@@ -40,8 +41,8 @@ bool osSupportsAVX() {
     // Use _xgetbv to check if OS supports AVX (XMM and YMM)
     unsigned long long xcrFeatureMask = _xgetbv(0);
 
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6;
+    // Check if the state is enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 }
 
 bool isAVX2Supported() {
@@ -76,9 +77,9 @@ bool isAVX512Supported() {
         return false; // AVX or XSAVE not supported
     }
 
-    // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
-        return false; // OS does not support AVX
+    // Check OS support for AVX-512 using XGETBV, opmask (bit 5) and ZMM (bit 6 and 7) must be enabled too
+    if (!osSupportsAVX(0xE6)) {
+        return false; // OS does not support AVX-512
     }
 
     // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bit 16)
@@ -118,7 +119,7 @@ bool isArmNeonSupported() {
 
 #include <cpuid.h>  // For __get_cpuid() and __get_cpuid_count()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long stateMask) {
     // Ensure CPU supports XGETBV (XSAVE/XRSTOR)
     unsigned int cpuid_eax, cpuid_ebx, cpuid_ecx, cpuid_edx;
     __get_cpuid(1, &cpuid_eax, &cpuid_ebx, &cpuid_ecx, &cpuid_edx);
@@ -132,8 +133,8 @@ bool osSupportsAVX() {
 #elif defined(__GNUC__) && (__GNUC__ >= 8)
     // GCC 8+ has __builtin_ia32_xgetbv()
     unsigned long long xcrFeatureMask = __builtin_ia32_xgetbv(0);
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if the state is enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 #else
     __asm__ __volatile__(
             "xgetbv"
@@ -141,8 +142,8 @@ bool osSupportsAVX() {
             : "c"(0)
         );
     unsigned long long xcrFeatureMask = ((unsigned long long)edx << 32) | eax;
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if the state is enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 #endif
 }
 
@@ -187,9 +188,9 @@ bool isAVX512Supported() {
         return false; // AVX or XSAVE not supported
     }
 
-    // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
-        return false; // OS does not support AVX
+    // Check OS support for AVX-512 using XGETBV, opmask (bit 5) and ZMM (bit 6 and 7) must be enabled too
+    if (!osSupportsAVX(0xE6)) {
+        return false; // OS does not support AVX-512
     }
 
     // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bit 16)
@@ -228,7 +229,7 @@ bool isArmNeonSupported() {
 
 #else
 // For unknown compiler, SIMD support is unknown, default is unsupported.
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     return false;
 }
 
@@ -260,7 +261,7 @@ bool isArmNeonSupported() {
 #include <string>
 
 // For non-x86 architectures, AVX/SSE is not supported
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     return false;
 }
 
-- 
2.43.0


From 9f2348009fbf0c8bf9285dbbd9fbca73766ec87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 17/24] fix: IntLinkedList.append reports elements that are not
 ints

It appended -1 and returned None with an exception set.
---
 pyfastutil/src/ints/IntLinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 0d47599..561b930 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -175,13 +175,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
+    int value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 4d98ec5fd7e7fb7d867667b80d8090b7d4a02eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 18/24] fix: make the iterator types ready before they are used

Without PyType_Ready an iterator has no attributes: it.__next__ and
isinstance(it, collections.abc.Iterator) raise AttributeError.
---
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 4 ++++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 4 ++++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 4 ++++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 4 ++++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index e5d0ba4..5e464d7 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -95,6 +95,10 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
 
+    if (PyType_Ready(&BigIntArrayListIterType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 73fce41..2c366a2 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -95,6 +95,10 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
 
+    if (PyType_Ready(&IntArrayListIterType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index 534dc15..466a54a 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -113,6 +113,10 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
 
+    if (PyType_Ready(&IntLinkedListIterType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 6611736..51b5536 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -98,6 +98,10 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
 
+    if (PyType_Ready(&ObjectArrayListIterType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index f7bf839..508a30e 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -116,6 +116,10 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
 
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
         return nullptr;
-- 
2.43.0


From 9aca5655cb46692ccb640af93222a6de9669a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 19/24] fix: constructors keep the error an iterable's __iter__
 raised

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 4 +++-
 pyfastutil/src/ints/IntArrayList.cpp        | 4 +++-
 pyfastutil/src/ints/IntLinkedList.cpp       | 4 +++-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 +++-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7c89b3c..c2d978b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -111,7 +111,9 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
 
             iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                if (PyErr_ExceptionMatches(PyExc_TypeError)) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                }
                 return -1;
             }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index bceb039..7587ebe 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -111,7 +111,9 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
             iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                if (PyErr_ExceptionMatches(PyExc_TypeError)) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                }
                 return -1;
             }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 561b930..dc186f2 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -72,7 +72,9 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
 
             iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                if (PyErr_ExceptionMatches(PyExc_TypeError)) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                }
                 return -1;
             }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 46c1fef..36dc099 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -104,7 +104,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
             iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                if (PyErr_ExceptionMatches(PyExc_TypeError)) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                }
                 return -1;
             }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index f4caf4c..b6e0e76 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -75,7 +75,9 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
 
             iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                if (PyErr_ExceptionMatches(PyExc_TypeError)) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                }
                 return -1;
             }
 
-- 
2.43.0


From 91a6695057c917dd162dfc1554f4162ff0bf9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 20/24] fix: reverse of 16 byte elements swapped the halves of
 each element with AVX2

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From c0d05f98cc6d74688515c83664d41f6dcd6edc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 21/24] fix: make the public types ready when their modules are
 initialised

Until something looked at the type itself its instances had no attributes:
in a fresh interpreter hasattr(IntArrayList(), 'append'), SIMD().reverse or
f = x.append raised AttributeError (tp_getattro was still null).
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 4 ++++
 pyfastutil/src/ints/IntArrayList.cpp        | 4 ++++
 pyfastutil/src/ints/IntLinkedList.cpp       | 4 ++++
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 ++++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 ++++
 pyfastutil/src/unsafe/ASM.cpp               | 4 ++++
 pyfastutil/src/unsafe/SIMD.cpp              | 4 ++++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp     | 4 ++++
 pyfastutil/src/unsafe/Unsafe.cpp            | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index c2d978b..03739ed 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1432,6 +1432,10 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
 
+    if (PyType_Ready(&BigIntArrayListType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 7587ebe..78127cc 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1430,6 +1430,10 @@ void initializeIntArrayListType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
 
+    if (PyType_Ready(&IntArrayListType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index dc186f2..f6f1d53 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1257,6 +1257,10 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
 
+    if (PyType_Ready(&IntLinkedListType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 36dc099..e2aac96 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1323,6 +1323,10 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
 
+    if (PyType_Ready(&ObjectArrayListType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index b6e0e76..f42d9e6 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1319,6 +1319,10 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
 
+    if (PyType_Ready(&ObjectLinkedListType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..30cb7bb 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -357,6 +357,10 @@ static struct PyModuleDef ASM_module = {
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
 
+    if (PyType_Ready(&ASMType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 8d251f2..9ee9de2 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -454,6 +454,10 @@ static struct PyModuleDef SIMD_module = {
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
 
+    if (PyType_Ready(&SIMDType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..fdcc85c 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35664,6 +35664,10 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
 
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
         return nullptr;
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 209d394..54eea08 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -431,6 +431,10 @@ static struct PyModuleDef Unsafe_module = {
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
 
+    if (PyType_Ready(&UnsafeType) < 0) {
+        return nullptr;
+    }
+
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
         return nullptr;
-- 
2.43.0


From 5225d06d03e6c12c3f60bfc6408ebb44f512050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 22/24] fix: fgets with a size of one reported a read error

---
 pyfastutil/src/unsafe/Unsafe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 54eea08..d32a56c 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -362,9 +362,9 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
     }
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
-        const bool isEof = feof(stdin) && !ferror(stdin);
+        const bool isError = ferror(stdin) != 0;
         free(buffer);
-        if (isEof) {
+        if (!isError) {  // end of the stream, or no room for a character
             return PyUnicode_FromString("");
         }
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
-- 
2.43.0


From a6cf0ddd41d31ffb07d5d94a2ff6b329c55c0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 23/24] fix: extending an instance of a subclass with itself
 never ended

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 4 ++--
 pyfastutil/src/ints/IntArrayList.cpp        | 4 ++--
 pyfastutil/src/ints/IntLinkedList.cpp       | 4 ++--
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 ++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 03739ed..ac2d26b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -287,7 +287,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &BigIntArrayListType) {
+        if (Py_TYPE(iterable) == &BigIntArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<BigIntArrayList *>(iterable);
             self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
             Py_RETURN_NONE;
@@ -841,7 +841,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &BigIntArrayListType) {
+        if (Py_TYPE(iterable) == &BigIntArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<BigIntArrayList *>(iterable);
             self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
             Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 78127cc..ff81a2c 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -287,7 +287,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &IntArrayListType) {
+        if (Py_TYPE(iterable) == &IntArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<IntArrayList *>(iterable);
             self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
             Py_RETURN_NONE;
@@ -839,7 +839,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &IntArrayListType) {
+        if (Py_TYPE(iterable) == &IntArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<IntArrayList *>(iterable);
             self->vector.insert(self->vector.end(), other->vector.begin(), other->vector.end());
             Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index f6f1d53..8fd042e 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -208,7 +208,7 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &IntLinkedListType) {
+        if (Py_TYPE(iterable) == &IntLinkedListType || iterable == pySelf) {
             auto *other = reinterpret_cast<IntLinkedList *>(iterable);
             self->list.insert(self->list.end(), other->list.begin(), other->list.end());
             self->modCount++;
@@ -730,7 +730,7 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &IntLinkedListType) {
+        if (Py_TYPE(iterable) == &IntLinkedListType || iterable == pySelf) {
             auto *other = reinterpret_cast<IntLinkedList *>(iterable);
             self->list.insert(self->list.end(), other->list.begin(), other->list.end());
             self->modCount++;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index e2aac96..f909200 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -248,7 +248,7 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &ObjectArrayListType) {
+        if (Py_TYPE(iterable) == &ObjectArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<ObjectArrayList *>(iterable);
             const auto added = other->vector.size();
             self->vector.reserve(self->vector.size() + added);
@@ -769,7 +769,7 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &ObjectArrayListType) {
+        if (Py_TYPE(iterable) == &ObjectArrayListType || iterable == pySelf) {
             auto *other = reinterpret_cast<ObjectArrayList *>(iterable);
             const auto added = other->vector.size();
             self->vector.reserve(self->vector.size() + added);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index f42d9e6..33f5740 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -182,7 +182,7 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+        if (Py_TYPE(iterable) == &ObjectLinkedListType || iterable == pySelf) {
             auto *other = reinterpret_cast<ObjectLinkedList *>(iterable);
             const auto addedSize = other->list.size();
             self->list.insert(self->list.end(), other->list.begin(), other->list.end());
@@ -739,7 +739,7 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     PyObject *item = nullptr;
     try {
         // fast extend
-        if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+        if (Py_TYPE(iterable) == &ObjectLinkedListType || iterable == pySelf) {
             auto *other = reinterpret_cast<ObjectLinkedList *>(iterable);
             const auto addedSize = other->list.size();
             self->list.insert(self->list.end(), other->list.begin(), other->list.end());
-- 
2.43.0


From c4cb672c648a744353aad4afa74321d72f855728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 24/24] fix: adding an instance of a subclass raised TypeError

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 2 +-
 pyfastutil/src/ints/IntArrayList.cpp        | 2 +-
 pyfastutil/src/ints/IntLinkedList.cpp       | 2 +-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 2 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index ac2d26b..d7acb18 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -793,7 +793,7 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &BigIntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &BigIntArrayListType)) {
         // fast add -> BigIntArrayList
         auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index ff81a2c..88a15d1 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -791,7 +791,7 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 }
 
 static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &IntArrayListType)) {
         // fast add -> IntArrayList
         auto *self = reinterpret_cast<IntArrayList *>(pySelf);
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 8fd042e..66b5d73 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -686,7 +686,7 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 }
 
 static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &IntLinkedListType)) {
         // fast add -> IntLinkedList
         auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index f909200..5c287d0 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -718,7 +718,7 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 }
 
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectArrayListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectArrayListType)) {
         // fast add -> ObjectArrayList
         auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 33f5740..4ca64b4 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -689,7 +689,7 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 }
 
 static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
-    if (Py_TYPE(pyValue) == &ObjectLinkedListType) {
+    if (PyObject_TypeCheck(pyValue, &ObjectLinkedListType)) {
         // fast add -> ObjectLinkedList
         auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
-- 
2.43.0

