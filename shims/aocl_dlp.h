/* Stand-in for AOCL-DLP's header: a plain reference half-precision GEMM
 * (accumulating in float, alpha/beta given as binary16 bit patterns). */
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef uint16_t float16;
#ifdef __cplusplus
extern "C" {
#endif
void aocl_gemm_f16f16f16of16(const char order, const char transa, const char transb,
                             const int64_t m, const int64_t n, const int64_t k,
                             const float16 alpha, const float16 *a, const int64_t lda,
                             const char mem_format_a, const float16 *b, const int64_t ldb,
                             const char mem_format_b, const float16 beta, float16 *c,
                             const int64_t ldc, void *post_op);
#ifdef __cplusplus
}
#endif
