// Stand-in for AOCL-Sparse's kernel templates (KT): thin SIMD wrappers over
// intrinsics, written from their use in AOCL-DA. float and double only.
#pragma once
#include <cstddef>
#include <cstdint>
#include <immintrin.h>
#include <type_traits>

#define KT_FORCE_INLINE inline __attribute__((__always_inline__))

namespace kernel_templates {

enum class bsz { b128 = 128, b256 = 256, b512 = 512 };
enum kt_avxext { AVX = 1, AVX2 = 2, AVX512F = 4, AVX512VL = 8, AVX512DQ = 16, ANY = 31 };

template <bsz SZ, typename T> inline constexpr size_t tsz_v = (size_t)SZ / 8 / sizeof(T);

template <bsz SZ, typename T> struct avxvector;
template <> struct avxvector<bsz::b128, float> { using type = __m128; };
template <> struct avxvector<bsz::b128, double> { using type = __m128d; };
template <> struct avxvector<bsz::b256, float> { using type = __m256; };
template <> struct avxvector<bsz::b256, double> { using type = __m256d; };
#ifdef __AVX512F__
template <> struct avxvector<bsz::b512, float> { using type = __m512; };
template <> struct avxvector<bsz::b512, double> { using type = __m512d; };
#endif
template <bsz SZ, typename T> using avxvector_t = typename avxvector<SZ, T>::type;

#ifdef __AVX512F__
#define KTS_512(fs, fd)                                                                  \
    else if constexpr (SZ == bsz::b512) {                                                \
        if constexpr (std::is_same_v<SUF, float>)                                        \
            return fs;                                                                   \
        else                                                                             \
            return fd;                                                                   \
    }
#else
#define KTS_512(fs, fd)
#endif
#define KTS_DISPATCH(s1, d1, s2, d2, s5, d5)                                             \
    if constexpr (SZ == bsz::b128) {                                                     \
        if constexpr (std::is_same_v<SUF, float>)                                        \
            return s1;                                                                   \
        else                                                                             \
            return d1;                                                                   \
    } else if constexpr (SZ == bsz::b256) {                                              \
        if constexpr (std::is_same_v<SUF, float>)                                        \
            return s2;                                                                   \
        else                                                                             \
            return d2;                                                                   \
    }                                                                                    \
    KTS_512(s5, d5)

template <bsz SZ, typename SUF> KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_setzero_p() noexcept {
    KTS_DISPATCH(_mm_setzero_ps(), _mm_setzero_pd(), _mm256_setzero_ps(),
                 _mm256_setzero_pd(), _mm512_setzero_ps(), _mm512_setzero_pd())
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_set1_p(const SUF x) noexcept {
    KTS_DISPATCH(_mm_set1_ps(x), _mm_set1_pd(x), _mm256_set1_ps(x), _mm256_set1_pd(x),
                 _mm512_set1_ps(x), _mm512_set1_pd(x))
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_loadu_p(const SUF *a) noexcept {
    KTS_DISPATCH(_mm_loadu_ps(a), _mm_loadu_pd(a), _mm256_loadu_ps(a), _mm256_loadu_pd(a),
                 _mm512_loadu_ps(a), _mm512_loadu_pd(a))
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_load_p(const SUF *a) noexcept {
    KTS_DISPATCH(_mm_load_ps(a), _mm_load_pd(a), _mm256_load_ps(a), _mm256_load_pd(a),
                 _mm512_load_ps(a), _mm512_load_pd(a))
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE void kt_storeu_p(SUF *a, const avxvector_t<SZ, SUF> v) noexcept {
    KTS_DISPATCH(_mm_storeu_ps(a, v), _mm_storeu_pd(a, v), _mm256_storeu_ps(a, v),
                 _mm256_storeu_pd(a, v), _mm512_storeu_ps(a, v), _mm512_storeu_pd(a, v))
}
#define KTS_BINARY(name, op)                                                             \
    template <bsz SZ, typename SUF>                                                      \
    KT_FORCE_INLINE avxvector_t<SZ, SUF> name(const avxvector_t<SZ, SUF> a,              \
                                              const avxvector_t<SZ, SUF> b) noexcept {   \
        KTS_DISPATCH(_mm_##op##_ps(a, b), _mm_##op##_pd(a, b), _mm256_##op##_ps(a, b),   \
                     _mm256_##op##_pd(a, b), _mm512_##op##_ps(a, b),                     \
                     _mm512_##op##_pd(a, b))                                             \
    }
KTS_BINARY(kt_add_p, add)
KTS_BINARY(kt_sub_p, sub)
KTS_BINARY(kt_mul_p, mul)
KTS_BINARY(kt_div_p, div)
KTS_BINARY(kt_max_p, max)
KTS_BINARY(kt_min_p, min)
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_fmadd_p(const avxvector_t<SZ, SUF> a,
                                                const avxvector_t<SZ, SUF> b,
                                                const avxvector_t<SZ, SUF> c) noexcept {
    KTS_DISPATCH(_mm_fmadd_ps(a, b, c), _mm_fmadd_pd(a, b, c), _mm256_fmadd_ps(a, b, c),
                 _mm256_fmadd_pd(a, b, c), _mm512_fmadd_ps(a, b, c),
                 _mm512_fmadd_pd(a, b, c))
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_pow2_p(const avxvector_t<SZ, SUF> a) noexcept {
    return kt_mul_p<SZ, SUF>(a, a);
}
template <bsz SZ, typename SUF>
KT_FORCE_INLINE SUF kt_hsum_p(const avxvector_t<SZ, SUF> a) noexcept {
    SUF t[tsz_v<SZ, SUF>];
    kt_storeu_p<SZ, SUF>(t, a);
    for (size_t w = tsz_v<SZ, SUF> / 2; w > 0; w /= 2)
        for (size_t i = 0; i < w; i++)
            t[i] += t[i + w];
    return t[0];
}
// Gather: lane i is v[b[i]]
template <bsz SZ, typename SUF, typename I>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_set_p(const SUF *v, const I *b) noexcept {
    SUF t[tsz_v<SZ, SUF>];
    for (size_t i = 0; i < tsz_v<SZ, SUF>; i++)
        t[i] = v[b[i]];
    return kt_loadu_p<SZ, SUF>(t);
}
// First L lanes are v[b + i], the rest zero
template <bsz SZ, typename SUF, kt_avxext EXT, int L, typename I>
KT_FORCE_INLINE avxvector_t<SZ, SUF> kt_maskz_set_p(const SUF *v, const I b) noexcept {
    SUF t[tsz_v<SZ, SUF>];
    for (size_t i = 0; i < tsz_v<SZ, SUF>; i++)
        t[i] = i < (size_t)L ? v[b + (I)i] : SUF(0);
    return kt_loadu_p<SZ, SUF>(t);
}

} // namespace kernel_templates
