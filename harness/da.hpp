// Shared pieces of the harnesses: the C API selected by precision, data matrices in
// either storage order with padding that must stay untouched, and small references.
#pragma once
#include <malloc.h>
#include "aoclda.h"
#include "aoclda.hpp"
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <omp.h>
#include <set>
#include <string>
#include <type_traits>

using pbt::fail;
using pbt::Gen;

// DA(T, da_mean, args...) calls da_mean_d or da_mean_s
#define DA(T, f, ...)                                                                    \
    ([&]() {                                                                             \
        if constexpr (std::is_same_v<T, double>)                                         \
            return f##_d(__VA_ARGS__);                                                   \
        else                                                                             \
            return f##_s(__VA_ARGS__);                                                   \
    }())

template <class T> constexpr double EPS = std::numeric_limits<T>::epsilon();
template <class T> const char *tn() { return std::is_same_v<T, double> ? "double" : "float"; }

template <class T> struct Mat { // n x p
    da_int n = 0, p = 0, ld = 0;
    da_order order = column_major;
    std::vector<T> v;
    static T pad() { return (T)-7.0625e5; }
    Mat() {}
    Mat(da_int n_, da_int p_, da_order o, da_int extra) : n(n_), p(p_), order(o) {
        ld = (o == column_major ? n : p) + extra;
        v.assign((size_t)ld * std::max<da_int>(1, o == column_major ? p : n), pad());
    }
    size_t at(da_int i, da_int j) const {
        return order == column_major ? (size_t)j * ld + i : (size_t)i * ld + j;
    }
    T &operator()(da_int i, da_int j) { return v[at(i, j)]; }
    T operator()(da_int i, da_int j) const { return v[at(i, j)]; }
    T *data() { return v.data(); }
    const T *data() const { return v.data(); }
    bool pad_ok() const {
        da_int a = order == column_major ? n : p, b = order == column_major ? p : n;
        for (da_int j = 0; j < b; j++)
            for (da_int i = a; i < ld; i++)
                if (v[(size_t)j * ld + i] != pad())
                    return false;
        return true;
    }
    // the same matrix, stored otherwise
    Mat as(da_order o, da_int extra) const {
        Mat r(n, p, o, extra);
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                r(i, j) = (*this)(i, j);
        return r;
    }
};

inline da_order gen_order(Gen &g) { return g.flip() ? row_major : column_major; }
inline const char *on(da_order o) { return o == row_major ? "row" : "col"; }
inline da_int gen_extra(Gen &g) { return g.chance(1, 2) ? 0 : (da_int)g.range(1, 5); }

// kinds of data: 0 small integers (many ties), 1 normal, 2 uniform [0,1), 3 quarter grid,
// 4 shifted, 5 columns of very different scale
template <class T> double gen_value(Gen &g, int kind, da_int j) {
    switch (kind) {
    case 0:
        return (double)g.range(-3, 3);
    case 1:
        return (T)g.normal();
    case 2:
        return (T)g.unit();
    case 3:
        return (double)g.range(-20, 20) * 0.25;
    case 4:
        return (T)(30 + g.normal());
    default:
        return (T)(g.normal() * std::pow(10.0, (double)((j * 7) % 4) - 1));
    }
}
template <class T> Mat<T> gen_mat(Gen &g, da_int n, da_int p, da_order o, int kind = -1) {
    Mat<T> m(n, p, o, gen_extra(g));
    if (kind < 0)
        kind = (int)g.below(6);
    // a big matrix is filled from one drawn seed, to keep the tape short
    bool big = (int64_t)n * p > 4000;
    Gen s;
    if (big)
        s.rng = g.below(1u << 30) * 77777 + 5;
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            m(i, j) = (T)gen_value<T>(big ? s : g, kind, j);
    // sometimes constant or repeated columns, and repeated rows
    if (g.chance(1, 6) && p > 1) {
        da_int a = (da_int)g.below(p), b = (da_int)g.below(p);
        for (da_int i = 0; i < n; i++)
            m(i, a) = m(i, b);
    }
    if (g.chance(1, 6) && n > 1) {
        da_int a = (da_int)g.below(n), b = (da_int)g.below(n);
        for (da_int j = 0; j < p; j++)
            m(a, j) = m(b, j);
    }
    return m;
}

struct Handle {
    da_handle h = nullptr;
    ~Handle() { da_handle_destroy(&h); }
    Handle() {}
    Handle(const Handle &) = delete;
    operator da_handle() { return h; }
};
template <class T> void init(Handle &h, da_handle_type t) {
    da_status s = DA(T, da_handle_init, &h.h, t);
    REQUIRE(s == da_status_success, "init", "handle init returned %d", (int)s);
}
#define OK(call)                                                                         \
    do {                                                                                 \
        da_status ok_s_ = (call);                                                        \
        REQUIRE(ok_s_ == da_status_success, "status", "%s returned %d", #call,           \
                (int)ok_s_);                                                             \
    } while (0)

// filling fresh and freed memory with garbage is costly for code that allocates large work
// arrays in inner calls: such tests do it in one case out of five
inline void perturb(Gen &g) { mallopt(M_PERTURB, g.chance(1, 5) ? 165 : 0); }
struct Threads { // number of OpenMP threads within a scope
    int old;
    explicit Threads(int n) : old(omp_get_max_threads()) { omp_set_num_threads(n); }
    ~Threads() { omp_set_num_threads(old); }
};
// mostly one thread; sometimes a few
inline int gen_threads(Gen &g) { return g.chance(1, 4) ? (int)g.range(2, 4) : 1; }

template <class T> std::string show(const Mat<T> &m, int maxn = 6) {
    std::string s = "[";
    char b[32];
    for (da_int i = 0; i < std::min<da_int>(m.n, maxn); i++) {
        s += i ? ";" : "";
        for (da_int j = 0; j < std::min<da_int>(m.p, maxn); j++) {
            snprintf(b, sizeof b, "%s%.4g", j ? "," : "", (double)m(i, j));
            s += b;
        }
    }
    return s + (m.n > maxn || m.p > maxn ? ";...]" : "]");
}

inline void opt_s(da_handle h, const char *k, const char *v) { OK(da_options_set_string(h, k, v)); }
inline void opt_i(da_handle h, const char *k, da_int v) { OK(da_options_set_int(h, k, v)); }
template <class T> void opt_r(da_handle h, const char *k, T v) { OK(DA(T, da_options_set_real, h, k, v)); }
inline void opt_order(da_handle h, da_order o) { opt_s(h, "storage order", o == row_major ? "row-major" : "column-major"); }

// a vector with guard elements behind it that must stay untouched
template <class T> struct Guarded {
    std::vector<T> v;
    size_t n;
    T g;
    Guarded(size_t n_, T guard = (T)-777) : v(n_ + 9, guard), n(n_), g(guard) {}
    T *data() { return v.data(); }
    T &operator[](size_t i) { return v[i]; }
    const T &operator[](size_t i) const { return v[i]; }
    size_t size() const { return n; }
    bool ok() const {
        for (size_t i = n; i < v.size(); i++)
            if (v[i] != g)
                return false;
        return true;
    }
};
// element (i,j) of a contiguous n x p result in the given order
inline size_t rc(da_order o, da_int n, da_int p, da_int i, da_int j) {
    return o == column_major ? (size_t)j * n + i : (size_t)i * p + j;
}
