// Implementations of the stand-ins for AOCL-Sparse (CG) and AOCL-DLP (half GEMM).
#include "aocl_dlp.h"
#include "aoclsparse.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

struct _aoclsparse_itsol_handle {
    bool is_double = true;
    double abstol = 0.0, reltol = 1e-6;
    long maxit = 500;
    int stage = 0; // 0 idle, 1 waiting for A*x0, 2 waiting for A*p
    long n = 0, it = 0;
    std::vector<double> bd, rd, pd, qd;
    std::vector<float> bs, rs, ps, qs;
    double rr = 0, bnorm = 0, rnorm = 0;
};

static aoclsparse_status init(aoclsparse_itsol_handle *h, bool d) {
    if (!h)
        return aoclsparse_status_invalid_pointer;
    *h = new _aoclsparse_itsol_handle;
    (*h)->is_double = d;
    return aoclsparse_status_success;
}

template <typename T>
static aoclsparse_status input(aoclsparse_itsol_handle h, std::vector<T> &b,
                               std::vector<T> &r, std::vector<T> &p, std::vector<T> &q,
                               aoclsparse_int n, const T *bb) {
    if (!h || !bb)
        return aoclsparse_status_invalid_pointer;
    if (n < 0)
        return aoclsparse_status_invalid_value;
    h->n = n;
    b.assign(bb, bb + n);
    r.assign(n, T(0));
    p.assign(n, T(0));
    q.assign(n, T(0));
    h->stage = 0;
    h->it = 0;
    return aoclsparse_status_success;
}

template <typename T>
static double nrm2(const std::vector<T> &x) {
    double s = 0;
    for (T v : x)
        s += (double)v * (double)v;
    return std::sqrt(s);
}

template <typename T>
static aoclsparse_status solve(aoclsparse_itsol_handle h, std::vector<T> &b,
                               std::vector<T> &r, std::vector<T> &p, std::vector<T> &q,
                               aoclsparse_itsol_rci_job *ircomm, T **u, T **v, T *x,
                               T *rinfo) {
    long n = h->n;
    if (*ircomm == aoclsparse_rci_interrupt) {
        *ircomm = aoclsparse_rci_stop;
        return aoclsparse_status_user_stop;
    }
    auto finish = [&](aoclsparse_status st) {
        *ircomm = aoclsparse_rci_stop;
        h->stage = 0;
        return st;
    };
    auto report = [&]() {
        h->rnorm = nrm2(r);
        rinfo[0] = (T)h->rnorm;
        rinfo[1] = (T)h->bnorm;
        rinfo[30] = (T)h->it;
    };
    auto conv = [&]() {
        return h->rnorm <= h->abstol || h->rnorm <= h->reltol * h->bnorm;
    };
    if (*ircomm == aoclsparse_rci_start) {
        for (int i = 0; i < 100; i++)
            rinfo[i] = T(0);
        h->bnorm = nrm2(b);
        for (long i = 0; i < n; i++)
            p[i] = x[i];
        h->stage = 1;
        *u = p.data();
        *v = q.data();
        *ircomm = aoclsparse_rci_mv;
        return aoclsparse_status_success;
    }
    if (h->stage == 1) {
        for (long i = 0; i < n; i++)
            r[i] = b[i] - q[i];
        p = r;
        report();
        if (conv())
            return finish(aoclsparse_status_success);
        h->rr = h->rnorm * h->rnorm;
        h->stage = 2;
        *u = p.data();
        *v = q.data();
        *ircomm = aoclsparse_rci_mv;
        return aoclsparse_status_success;
    }
    if (h->stage == 2) {
        double pq = 0;
        for (long i = 0; i < n; i++)
            pq += (double)p[i] * (double)q[i];
        if (!(pq > 0))
            return finish(aoclsparse_status_numerical_error);
        double a = h->rr / pq;
        for (long i = 0; i < n; i++) {
            x[i] = (T)((double)x[i] + a * (double)p[i]);
            r[i] = (T)((double)r[i] - a * (double)q[i]);
        }
        h->it++;
        report();
        if (conv())
            return finish(aoclsparse_status_success);
        if (h->it >= h->maxit)
            return finish(aoclsparse_status_maxit);
        double rr = h->rnorm * h->rnorm;
        double beta = rr / h->rr;
        h->rr = rr;
        for (long i = 0; i < n; i++)
            p[i] = (T)((double)r[i] + beta * (double)p[i]);
        *u = p.data();
        *v = q.data();
        *ircomm = aoclsparse_rci_mv;
        return aoclsparse_status_success;
    }
    return aoclsparse_status_internal_error;
}

extern "C" {
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h) { return init(h, true); }
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h) { return init(h, false); }
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h) {
    if (h && *h) {
        delete *h;
        *h = nullptr;
    }
}
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o,
                                              const char *v) {
    if (!h || !o || !v)
        return aoclsparse_status_invalid_pointer;
    std::string s(o);
    if (s == "CG abs tolerance")
        h->abstol = std::strtod(v, nullptr);
    else if (s == "CG rel tolerance")
        h->reltol = std::strtod(v, nullptr);
    else if (s == "CG iteration limit")
        h->maxit = std::strtol(v, nullptr, 10);
    else if (s != "CG preconditioner")
        return aoclsparse_status_invalid_value;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n,
                                               const double *b) {
    return input(h, h->bd, h->rd, h->pd, h->qd, n, b);
}
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n,
                                               const float *b) {
    return input(h, h->bs, h->rs, h->ps, h->qs, n, b);
}
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *j, double **u,
                                               double **v, double *x, double *ri) {
    return solve(h, h->bd, h->rd, h->pd, h->qd, j, u, v, x, ri);
}
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *j, float **u,
                                               float **v, float *x, float *ri) {
    return solve(h, h->bs, h->rs, h->ps, h->qs, j, u, v, x, ri);
}

static float h2f(uint16_t b) {
    _Float16 h;
    std::memcpy(&h, &b, 2);
    return (float)h;
}
void aocl_gemm_f16f16f16of16(const char order, const char ta, const char tb,
                             const int64_t m, const int64_t n, const int64_t k,
                             const float16 alpha, const float16 *a, const int64_t lda,
                             const char, const float16 *b, const int64_t ldb, const char,
                             const float16 beta, float16 *c, const int64_t ldc, void *) {
    auto at = [&](const float16 *M, int64_t ld, char t, int64_t i, int64_t j) {
        if (t == 't')
            std::swap(i, j);
        return h2f(order == 'r' ? M[i * ld + j] : M[j * ld + i]);
    };
    float fa = h2f(alpha), fb = h2f(beta);
    for (int64_t i = 0; i < m; i++)
        for (int64_t j = 0; j < n; j++) {
            float s = 0;
            for (int64_t l = 0; l < k; l++)
                s += at(a, lda, ta, i, l) * at(b, ldb, tb, l, j);
            float16 &cc = order == 'r' ? c[i * ldc + j] : c[j * ldc + i];
            float r = fa * s + (fb == 0.f ? 0.f : fb * h2f(cc));
            _Float16 hr = (_Float16)r;
            std::memcpy(&cc, &hr, 2);
        }
}
}

// ---------------------------------------------------------------------------------
// {s,d}{i,o}matcopy_: AOCL-BLAS takes (trans, m, n, alpha, A, lda[, B], ldb), always
// column major; OpenBLAS has the same names with an extra leading order argument.
namespace {
template <class T>
void omat(char trans, int m, int n, T alpha, const T *A, int lda, T *B, int ldb) {
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T v = alpha == T(1) ? T(0) : alpha;
            T *dst = (trans == 'T' || trans == 't' || trans == 'C' || trans == 'c')
                         ? B + j + (size_t)ldb * i
                         : B + i + (size_t)ldb * j;
            if (alpha == T(1)) // a copy of the bits: callers move integers through this
                std::memcpy(dst, A + i + (size_t)lda * j, sizeof(T));
            else
                *dst = v * A[i + (size_t)lda * j];
        }
}
template <class T>
void imat(char trans, int m, int n, T alpha, T *A, int lda, int ldb) {
    std::vector<T> tmp((size_t)m * n);
    omat<T>('N', m, n, T(1), A, lda, tmp.data(), m);
    omat<T>(trans, m, n, alpha, tmp.data(), m, A, ldb);
}
} // namespace
extern "C" {
void simatcopy_(char *t, int *m, int *n, const float *a, float *A, const int *lda,
                const int *ldb) {
    imat<float>(*t, *m, *n, *a, A, *lda, *ldb);
}
void dimatcopy_(char *t, int *m, int *n, const double *a, double *A, const int *lda,
                const int *ldb) {
    imat<double>(*t, *m, *n, *a, A, *lda, *ldb);
}
void somatcopy_(char *t, int *m, int *n, const float *a, const float *A, const int *lda,
                float *B, const int *ldb) {
    omat<float>(*t, *m, *n, *a, A, *lda, B, *ldb);
}
void domatcopy_(char *t, int *m, int *n, const double *a, const double *A, const int *lda,
                double *B, const int *ldb) {
    omat<double>(*t, *m, *n, *a, A, *lda, B, *ldb);
}
}
