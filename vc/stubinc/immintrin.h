/* Stand-in for the compiler's intrinsics header, used only for parsing:
 * the intrinsics stay calls in the syntax tree and are given the contracts
 * listed in vc/intrinsics.py (trusted: Intel intrinsics guide semantics).   */
#ifndef VERIF_IMMINTRIN_STUB
#define VERIF_IMMINTRIN_STUB 1
typedef double __m256d __attribute__((vector_size(32)));
typedef float __m256 __attribute__((vector_size(32)));
typedef long long __m256i __attribute__((vector_size(32)));
typedef double __m128d __attribute__((vector_size(16)));
typedef float __m128 __attribute__((vector_size(16)));
typedef long long __m128i __attribute__((vector_size(16)));

__m256d _mm256_load_pd(const double *);
__m256d _mm256_loadu_pd(const double *);
void _mm256_store_pd(double *, __m256d);
void _mm256_storeu_pd(double *, __m256d);
__m256d _mm256_set1_pd(double);
__m256d _mm256_setzero_pd(void);
__m256d _mm256_set_pd(double, double, double, double);
__m256d _mm256_fmadd_pd(__m256d, __m256d, __m256d);
__m256d _mm256_fnmadd_pd(__m256d, __m256d, __m256d);
__m256d _mm256_fmsub_pd(__m256d, __m256d, __m256d);
__m256d _mm256_mul_pd(__m256d, __m256d);
__m256d _mm256_add_pd(__m256d, __m256d);
__m256d _mm256_sub_pd(__m256d, __m256d);
__m256d _mm256_div_pd(__m256d, __m256d);
__m256d _mm256_max_pd(__m256d, __m256d);
__m256d _mm256_min_pd(__m256d, __m256d);
__m256d _mm256_and_pd(__m256d, __m256d);
__m256d _mm256_or_pd(__m256d, __m256d);
__m256d _mm256_xor_pd(__m256d, __m256d);
__m256d _mm256_andnot_pd(__m256d, __m256d);
__m256d _mm256_hadd_pd(__m256d, __m256d);
__m256d _mm256_blendv_pd(__m256d, __m256d, __m256d);
__m256d _mm256_permute2f128_pd(__m256d, __m256d, int);
__m256d _mm256_permute_pd(__m256d, int);
__m256d _mm256_broadcast_sd(const double *);

__m128d _mm_load_pd(const double *);
__m128d _mm_loadu_pd(const double *);
void _mm_store_pd(double *, __m128d);
void _mm_storeu_pd(double *, __m128d);
__m128d _mm_set1_pd(double);
__m128d _mm_set_pd(double, double);
__m128d _mm_set_sd(double);
__m128d _mm_mul_pd(__m128d, __m128d);
__m128d _mm_add_pd(__m128d, __m128d);
__m128d _mm_sub_pd(__m128d, __m128d);
__m128d _mm_max_pd(__m128d, __m128d);
__m128d _mm_min_pd(__m128d, __m128d);
__m128d _mm_max_sd(__m128d, __m128d);
__m128d _mm_min_sd(__m128d, __m128d);
__m128d _mm_and_pd(__m128d, __m128d);
__m128d _mm_xor_pd(__m128d, __m128d);
__m128d _mm_hadd_pd(__m128d, __m128d);
__m128d _mm_fmadd_pd(__m128d, __m128d, __m128d);
__m128d _mm_permute_pd(__m128d, int);

__m256d _mm256_sqrt_pd(__m256d);
__m256d _mm256_blend_pd(__m256d, __m256d, int);
__m256 _mm256_load_ps(const float *);
__m256 _mm256_loadu_ps(const float *);
__m256 _mm256_set1_ps(float);
__m256 _mm256_set_ps(float, float, float, float, float, float, float, float);
__m256 _mm256_fmadd_ps(__m256, __m256, __m256);
__m256 _mm256_mul_ps(__m256, __m256);
__m256 _mm256_add_ps(__m256, __m256);
__m256 _mm256_max_ps(__m256, __m256);
__m256 _mm256_min_ps(__m256, __m256);
__m256 _mm256_and_ps(__m256, __m256);
__m256 _mm256_xor_ps(__m256, __m256);
__m256 _mm256_hadd_ps(__m256, __m256);
__m256 _mm256_blendv_ps(__m256, __m256, __m256);
__m256 _mm256_permute2f128_ps(__m256, __m256, int);
__m256 _mm256_permute_ps(__m256, int);

__m128 _mm_load_ps(const float *);
__m128 _mm_loadu_ps(const float *);
__m128 _mm_set1_ps(float);
__m128 _mm_set_ps(float, float, float, float);
__m128 _mm_set_ss(float);
__m128 _mm_max_ss(__m128, __m128);
__m128 _mm_min_ss(__m128, __m128);
__m128 _mm_max_ps(__m128, __m128);
__m128 _mm_min_ps(__m128, __m128);
__m128 _mm_and_ps(__m128, __m128);
__m128 _mm_xor_ps(__m128, __m128);
__m128 _mm_hadd_ps(__m128, __m128);
__m128 _mm_permute_ps(__m128, int);
#endif
