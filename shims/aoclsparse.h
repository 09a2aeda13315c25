/* Stand-in for AOCL-Sparse: only the reverse-communication CG solver that
 * linmod_cg.cpp uses. Implementation in aoclsparse_shim.cpp. */
#pragma once
#include <stdint.h>
#ifdef AOCLDA_ILP64
typedef int64_t aoclsparse_int;
#else
typedef int32_t aoclsparse_int;
#endif
typedef enum {
    aoclsparse_status_success = 0,
    aoclsparse_status_not_implemented = 1,
    aoclsparse_status_invalid_pointer = 2,
    aoclsparse_status_invalid_size = 3,
    aoclsparse_status_internal_error = 4,
    aoclsparse_status_invalid_value = 5,
    aoclsparse_status_invalid_index_value = 6,
    aoclsparse_status_maxit = 7,
    aoclsparse_status_user_stop = 8,
    aoclsparse_status_wrong_type = 9,
    aoclsparse_status_memory_error = 10,
    aoclsparse_status_numerical_error = 11,
    aoclsparse_status_invalid_operation = 12
} aoclsparse_status;
typedef enum {
    aoclsparse_rci_interrupt = -1,
    aoclsparse_rci_stop = 0,
    aoclsparse_rci_start = 1,
    aoclsparse_rci_mv = 2,
    aoclsparse_rci_precond = 3,
    aoclsparse_rci_stopping_criterion = 4
} aoclsparse_itsol_rci_job;
typedef struct _aoclsparse_itsol_handle *aoclsparse_itsol_handle;
#ifdef __cplusplus
extern "C" {
#endif
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *handle);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *handle);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *handle);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle handle,
                                              const char *option, const char *value);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle handle,
                                               aoclsparse_int n, const double *b);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle handle,
                                               aoclsparse_int n, const float *b);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle handle,
                                               aoclsparse_itsol_rci_job *ircomm,
                                               double **u, double **v, double *x,
                                               double rinfo[100]);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle handle,
                                               aoclsparse_itsol_rci_job *ircomm,
                                               float **u, float **v, float *x,
                                               float rinfo[100]);
#ifdef __cplusplus
}
#endif
