#include "da.hpp"
#include "pbt_main.cpp"

typedef long double L;

// one slice (a column, a row or everything) as a vector of long double
template <class T> static std::vector<std::vector<L>> slices(const Mat<T> &m, da_axis ax) {
    std::vector<std::vector<L>> r(ax == da_axis_col ? m.p : ax == da_axis_row ? m.n : 1);
    for (da_int i = 0; i < m.n; i++)
        for (da_int j = 0; j < m.p; j++)
            r[ax == da_axis_col ? j : ax == da_axis_row ? i : 0].push_back(m(i, j));
    return r;
}
static da_axis gen_axis(Gen &g) { return (da_axis)g.below(3); }
static const char *an(da_axis a) { return a == da_axis_col ? "col" : a == da_axis_row ? "row" : "all"; }

// shapes: mostly small; sometimes past the block sizes of the summation kernels
static void gen_shape(Gen &g, da_int &n, da_int &p, bool &big) {
    big = g.chance(1, 40);
    if (!big) {
        n = (da_int)g.size(1, 40);
        p = (da_int)g.size(1, 24);
        return;
    }
    switch (g.below(5)) {
    case 0: n = (da_int)g.range(2040, 5000); p = (da_int)g.range(1, 4); break;
    case 1: p = (da_int)g.range(2040, 5000); n = (da_int)g.range(1, 4); break;
    case 2: n = (da_int)g.range(1020, 1100); p = (da_int)g.range(31, 70); break;
    case 3: p = (da_int)g.range(1020, 1100); n = (da_int)g.range(31, 70); break;
    default: n = (da_int)g.range(180, 260); p = (da_int)g.range(180, 260); break;
    }
}

#define NEAR(got, ref, tol, tag, ...)                                                    \
    do {                                                                                 \
        double g_ = (double)(got), r_ = (double)(ref), t_ = (double)(tol);               \
        if (!(std::fabs(g_ - r_) <= t_)) {                                               \
            char b_[256];                                                                \
            snprintf(b_, sizeof b_, __VA_ARGS__);                                        \
            pbt::fail(tag, "%s: got %.17g, reference %.17g, tolerance %.3g", b_, g_, r_, t_); \
        }                                                                                \
    } while (0)

template <class T> static void moments(Gen &g) {
    da_int n, p;
    bool big;
    gen_shape(g, n, p, big);
    da_order o = gen_order(g);
    da_axis ax = gen_axis(g);
    int which = (int)g.below(6);
    int kind = which == 1 || which == 2 ? 2 : (int)g.below(6);
    Mat<T> X = gen_mat<T>(g, n, p, o, kind);
    if (which == 1 || which == 2)
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                X(i, j) = (T)(0.25 + 3 * X(i, j));
    Mat<T> X0 = X;
    Threads th(big ? gen_threads(g) : (g.chance(1, 10) ? 3 : 1));
    auto S = slices(X, ax);
    size_t ns = S.size(), len = S[0].size();
    const T FILL = (T)-123.5;
    std::vector<T> a(ns + 2, FILL), b(ns + 2, FILL), c(ns + 2, FILL);
    double C = 8 * EPS<T> * (10 + std::sqrt((double)len) + (len > 2048 ? 60 : 0.25 * len));
    g.note("%s %s %s %dx%d ld+%d fn%d %s", tn<T>(), on(o), an(ax), n, p, X.ld - (o == column_major ? n : p), which, show(X, 4).c_str());
    g.label(big ? "big" : "small");
    g.label(std::string("axis ") + an(ax));
    g.nontrivial(n > 1 && p > 1);
    std::vector<L> mean(ns), mx(ns), var(ns);
    for (size_t s = 0; s < ns; s++) {
        L t = 0, m = 0;
        for (L x : S[s])
            t += x, m = std::max(m, std::fabs(x));
        mean[s] = t / len;
        mx[s] = m;
        L v = 0;
        for (L x : S[s])
            v += (x - mean[s]) * (x - mean[s]);
        var[s] = v;
    }
    auto chk_mean = [&](std::vector<T> &m) {
        for (size_t s = 0; s < ns; s++)
            NEAR(m[s], mean[s], C * mx[s], "mean", "mean of slice %zu of %zu", s, ns);
    };
    if (which == 0) {
        OK(DA(T, da_mean, o, ax, n, p, X.data(), X.ld, a.data()));
        chk_mean(a);
    } else if (which == 1) {
        OK(DA(T, da_harmonic_mean, o, ax, n, p, X.data(), X.ld, a.data()));
        for (size_t s = 0; s < ns; s++) {
            L t = 0;
            for (L x : S[s])
                t += 1 / x;
            NEAR(a[s], len / t, C * 20, "harmonic", "harmonic mean of slice %zu", s);
        }
    } else if (which == 2) {
        bool zero = g.chance(1, 8);
        if (zero) {
            da_int zi = (da_int)g.below(n), zj = (da_int)g.below(p);
            X(zi, zj) = 0;
            X0 = X;
            S = slices(X, ax);
        }
        OK(DA(T, da_geometric_mean, o, ax, n, p, X.data(), X.ld, a.data()));
        for (size_t s = 0; s < ns; s++) {
            L t = 0;
            bool z = false;
            for (L x : S[s])
                t += x == 0 ? 0 : std::log(x), z = z || x == 0;
            NEAR(a[s], z ? 0 : std::exp(t / len), C * 20, "geometric", "geometric mean of slice %zu", s);
        }
    } else if (which == 3) {
        da_int dof = (da_int)g.range(-1, 6);
        OK(DA(T, da_variance, o, ax, n, p, X.data(), X.ld, dof, a.data(), b.data()));
        chk_mean(a);
        L d = dof < 0 ? len : dof == 0 ? (L)len - 1 : dof;
        if (d < 1)
            d = 1; // one observation: no spread, whatever it is divided by
        for (size_t s = 0; s < ns; s++)
            NEAR(b[s], var[s] / d, C * mx[s] * mx[s] * len / d, "variance", "variance (dof %d) of slice %zu", dof, s);
    } else if (which == 4) {
        bool kurt = g.flip();
        if (kurt)
            OK(DA(T, da_kurtosis, o, ax, n, p, X.data(), X.ld, a.data(), b.data(), c.data()));
        else
            OK(DA(T, da_skewness, o, ax, n, p, X.data(), X.ld, a.data(), b.data(), c.data()));
        chk_mean(a);
        for (size_t s = 0; s < ns; s++) {
            L v = var[s] / len;
            NEAR(b[s], v, C * mx[s] * mx[s], "variance", "variance of slice %zu", s);
            L m3 = 0, m4 = 0;
            for (L x : S[s])
                m3 += std::pow(x - mean[s], 3), m4 += std::pow(x - mean[s], 4);
            m3 /= len, m4 /= len;
            L k = mx[s] * mx[s] / v; // conditioning
            if (!(v > 0) || !(C * k < 1e-3))
                continue;
            if (kurt)
                NEAR(c[s], m4 / (v * v) - 3, 40 * C * k * (1 + m4 / (v * v)), "kurtosis", "kurtosis of slice %zu", s);
            else
                NEAR(c[s], m3 / std::pow(v, 1.5L), 40 * C * k * (1 + std::sqrt((double)len)), "skewness", "skewness of slice %zu", s);
        }
    } else {
        da_int k = (da_int)g.range(0, 7);
        bool pre = g.flip();
        std::vector<L> cen = mean;
        if (pre)
            for (size_t s = 0; s < ns; s++) {
                a[s] = (T)g.range(-2, 2);
                cen[s] = a[s];
            }
        OK(DA(T, da_moment, o, ax, n, p, X.data(), X.ld, k, pre ? 1 : 0, a.data(), c.data()));
        if (!pre)
            chk_mean(a);
        for (size_t s = 0; s < ns; s++) {
            L t = 0, mag = 0;
            for (L x : S[s])
                t += std::pow(x - cen[s], (int)k), mag = std::max(mag, std::fabs(x) + std::fabs(cen[s]));
            NEAR(c[s], t / len, 4 * C * (k + 1) * std::max((L)1e-30, std::pow(mag, (int)k)), "moment", "moment %d of slice %zu", k, s);
        }
    }
    for (size_t q = ns; q < ns + 2; q++)
        REQUIRE(a[q] == FILL && b[q] == FILL && c[q] == FILL, "overrun", "output written past its end");
    REQUIRE(X.v == X0.v, "input-modified", "the input matrix was modified");
}

PROPERTY(C01, moments, 100000, 1500000,
         "random matrix (order, padding, axis, precision, big shapes past the summation blocks, threads) and one of six moment functions against a long double reference; non-trivial: more than one row and column") {
    g.flip() ? moments<double>(g) : moments<float>(g);
}

// quantile of sorted data by the documented definition; several answers when h is within
// rounding of a step
template <class T> static void quantiles(Gen &g) {
    da_int n, p;
    bool big;
    gen_shape(g, n, p, big);
    da_order o = gen_order(g);
    da_axis ax = gen_axis(g);
    Mat<T> X = gen_mat<T>(g, n, p, o), X0 = X;
    auto S = slices(X, ax);
    size_t ns = S.size(), len = S[0].size();
    for (auto &s : S)
        std::sort(s.begin(), s.end());
    bool five = g.chance(1, 4);
    int type = five ? 6 : (int)g.range(1, 9);
    std::vector<T> q;
    if (five)
        q = {0, (T)0.25, (T)0.5, (T)0.75, 1};
    else {
        int nq = (int)g.size(1, 8);
        for (int i = 0; i < nq; i++)
            switch (g.below(4)) {
            case 0: q.push_back((T)g.unit()); break;
            case 1: q.push_back((T)g.below(len + 1) / (T)len); break;
            case 2: q.push_back((T)g.below(9) / (T)8); break;
            default: q.push_back((T)g.below(len + 2) / (T)(len + 1)); break;
            }
    }
    size_t nq = q.size();
    std::vector<T> out(nq * ns + 3, (T)-123.5);
    g.note("%s %s %s %dx%d type%d nq=%zu q0=%.6g %s %s", tn<T>(), on(o), an(ax), n, p, type, nq, (double)q[0], five ? "five-point" : "", show(X, 4).c_str());
    g.label("type " + std::to_string(type));
    g.nontrivial(len > 2);
    if (five) {
        std::vector<T> r[5];
        for (auto &v : r)
            v.assign(ns + 1, (T)-123.5);
        OK(DA(T, da_five_point_summary, o, ax, n, p, X.data(), X.ld, r[0].data(), r[1].data(), r[2].data(), r[3].data(), r[4].data()));
        for (size_t s = 0; s < ns; s++)
            for (size_t k = 0; k < 5; k++)
                out[o == row_major ? k * ns + s : s * nq + k] = r[k][s];
        for (auto &v : r)
            REQUIRE(v[ns] == (T)-123.5, "overrun", "five-point output written past its end");
    } else
        OK(DA(T, da_quantile, o, ax, n, p, X.data(), X.ld, q.data(), (da_int)nq, out.data(), (da_quantile_type)(type - 1)));
    for (size_t k = nq * ns; k < out.size(); k++)
        REQUIRE(out[k] == (T)-123.5, "overrun", "quantiles written past the end");
    REQUIRE(X.v == X0.v, "input-modified", "the input matrix was modified");
    L N = len;
    for (size_t k = 0; k < nq; k++) {
        L Q = q[k], h;
        switch (type) {
        case 1: case 4: h = N * Q; break;
        case 2: case 5: h = N * Q + 0.5L; break;
        case 3: h = N * Q - 0.5L; break;
        case 6: h = (N + 1) * Q; break;
        case 7: h = (N - 1) * Q + 1; break;
        case 8: h = (N + 1.0L / 3) * Q + 1.0L / 3; break;
        default: h = (N + 0.25L) * Q + 0.375L; break;
        }
        L dh = 8 * EPS<T> * (N + 1);
        for (size_t s = 0; s < ns; s++) {
            auto &x = S[s];
            auto at = [&](L i) { return x[(size_t)std::min<L>(std::max<L>(i, 1), N) - 1]; };
            L got = out[o == row_major ? k * ns + s : s * nq + k];
            L tol = 16 * EPS<T> * (std::fabs(x[0]) + std::fabs(x[x.size() - 1]));
            bool ok = false;
            L ref = 0;
            for (L hh : {h, h - dh, h + dh}) {
                L r1, r2;
                if (type == 1)
                    r1 = r2 = at(std::ceil(hh));
                else if (type == 2) {
                    r1 = r2 = (at(std::ceil(hh - 0.5L)) + at(std::floor(hh + 0.5L))) / 2;
                } else if (type == 3) { // nearest integer; a tie goes either way
                    r1 = at(std::ceil(hh - 0.5L));
                    r2 = at(std::floor(hh + 0.5L));
                } else {
                    L f = std::floor(hh);
                    r1 = r2 = at(f) + (hh - f) * (at(std::ceil(hh)) - at(f));
                    tol += dh * std::fabs(at(std::ceil(hh) + 1) - at(f - 1));
                }
                // within rounding of a tie type 2 may average or not
                if (hh == h)
                    ref = r1;
                if (std::fabs(got - r1) <= tol || std::fabs(got - r2) <= tol)
                    ok = true;
            }
            if (type == 2) {
                // the exact tie point may be hit by the code only
                L c = std::round(N * Q);
                if (std::fabs(N * Q - c) <= dh && std::fabs(got - (at(c) + at(c + 1)) / 2) <= tol)
                    ok = true;
            }
            REQUIRE(ok, "quantile", "type %d, q=%.9g, slice %zu of length %zu: got %.9g, definition gives %.9g", type, (double)q[k], s, len, (double)got, (double)ref);
        }
    }
}
PROPERTY(C01, quantiles, 90000, 1200000,
         "random matrix, axis, quantile type and set of levels (grid points, random) against the documented definition on sorted data; non-trivial: slices of length > 2") {
    g.flip() ? quantiles<double>(g) : quantiles<float>(g);
}

template <class T> static void standardize(Gen &g) {
    da_int n, p;
    bool big;
    gen_shape(g, n, p, big);
    da_order o = gen_order(g);
    da_axis ax = gen_axis(g);
    Mat<T> X = gen_mat<T>(g, n, p, o), X0 = X;
    auto S = slices(X, ax);
    size_t ns = S.size(), len = S[0].size();
    da_int dof = (da_int)g.range(-1, 5);
    int mode = g.chance(1, 4);
    // each of shift, scale: 0 null, 1 all zero (to be computed), 2 given
    int sh = (int)g.below(3), sc = (int)g.below(3);
    std::vector<T> shift(ns + 1, 0), scale(ns + 1, 0);
    shift[ns] = scale[ns] = (T)-123.5;
    for (size_t s = 0; s < ns; s++) {
        if (sh == 2)
            shift[s] = (T)g.range(-3, 3);
        if (sc == 2)
            scale[s] = (T)g.range(0, 4) * (T)0.5;
    }
    auto allz = [&](std::vector<T> &v) {
        for (size_t s = 0; s < ns; s++)
            if (v[s] != 0)
                return false;
        return true;
    };
    if (sh == 2 && allz(shift))
        sh = 1;
    if (sc == 2 && allz(scale))
        sc = 1;
    g.note("%s %s %s %dx%d dof%d mode%d shift%d scale%d %s", tn<T>(), on(o), an(ax), n, p, dof, mode, sh, sc, show(X, 4).c_str());
    g.label("shift" + std::to_string(sh) + " scale" + std::to_string(sc));
    g.nontrivial(n > 1 && p > 1);
    Threads th(g.chance(1, 10) ? 3 : 1);
    OK(DA(T, da_standardize, o, ax, n, p, X.data(), X.ld, dof, mode, sh ? shift.data() : nullptr, sc ? scale.data() : nullptr));
    REQUIRE(X.pad_ok(), "padding", "padding of X written");
    REQUIRE(shift[ns] == (T)-123.5 && scale[ns] == (T)-123.5, "overrun", "shift or scale written past the end");
    L d = dof < 0 ? len : dof == 0 ? (L)len - 1 : dof;
    bool dgood = d >= 1;
    if (d < 1)
        d = 1;
    double C = 16 * EPS<T> * (10 + std::sqrt((double)len) + (len > 2048 ? 60 : 0.25 * len));
    std::vector<L> A(ns), B(ns);
    std::vector<bool> skip(ns, false);
    for (size_t s = 0; s < ns; s++) {
        L m = 0, mx = 0;
        for (L x : S[s])
            m += x, mx = std::max(mx, std::fabs(x));
        m /= len;
        L v = 0;
        // the scale is about the supplied shift when there is one, else about the mean
        L cen = sh == 2 ? (L)shift[s] : m;
        for (L x : S[s])
            v += (x - cen) * (x - cen);
        L sd = std::sqrt(v / d);
        bool both_null = sh == 0 && sc == 0;
        if (both_null || sh == 1) {
            if (sh == 1)
                NEAR(shift[s], m, C * mx, "shift", "computed shift of slice %zu", s);
            A[s] = sh == 1 ? (L)shift[s] : m;
        } else
            A[s] = sh == 2 ? (L)shift[s] : 0;
        if (both_null || sc == 1) {
            if (!dgood && sh == 2) { // a single observation with n-1 degrees of freedom: undefined
                skip[s] = true;
                B[s] = 1;
                continue;
            }
            L tv = C * (mx + std::fabs(cen)) * (mx + std::fabs(cen)) * len / d;
            if (sc == 1)
                NEAR((L)scale[s] * scale[s], sd * sd, tv, "scale", "square of the computed scale of slice %zu", s);
            B[s] = sc == 1 ? (L)scale[s] : sd;
            // too close to a constant slice for the quotient to mean anything
            if (both_null && !(sd * sd > 1e3 * tv) )
                skip[s] = true;
        } else
            B[s] = sc == 2 ? (L)scale[s] : 1;
    }
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++) {
            size_t s = ax == da_axis_col ? j : ax == da_axis_row ? i : 0;
            if (skip[s])
                continue;
            L b = B[s] == 0 ? 1 : B[s], x = X0(i, j);
            L mx = 0;
            for (L y : {S[s][0]})
                mx = std::fabs(y);
            L ref = mode ? x * b + A[s] : (x - A[s]) / b;
            L mag = mode ? std::fabs(x * b) + std::fabs(A[s]) : (std::fabs(x) + std::fabs(A[s])) / b;
            L rel = sh == 0 && sc == 0 ? 2e3 * C : 8 * EPS<T>;
            (void)mx;
            NEAR(X(i, j), ref, rel * mag + (sh == 0 && sc == 0 ? 50 * C : 0), "standardize", "element (%d,%d)", i, j);
        }
}
PROPERTY(C01, standardize, 70000, 1000000,
         "random matrix, axis, dof, direction and shift/scale each null, zero or given; shift and scale against the documented statistics, and every element against its definition; non-trivial: more than one row and column") {
    g.flip() ? standardize<double>(g) : standardize<float>(g);
}

template <class T> static void covcorr(Gen &g) {
    da_int n = (da_int)g.size(2, 60), p = (da_int)g.size(1, 20);
    if (g.chance(1, 30)) {
        n = (da_int)g.range(200, 3000);
        p = (da_int)g.range(1, 70);
    }
    da_order o = gen_order(g);
    Mat<T> X = gen_mat<T>(g, n, p, o), X0 = X;
    bool corr = g.flip();
    da_int dof = (da_int)g.range(-1, 5), ac = g.chance(1, 4);
    Mat<T> R(p, p, o, gen_extra(g));
    Threads th(gen_threads(g));
    g.note("%s %s %dx%d %s dof%d centred%d %s", tn<T>(), on(o), n, p, corr ? "corr" : "cov", dof, ac, show(X, 4).c_str());
    g.label(corr ? "correlation" : "covariance");
    g.nontrivial(p > 1 && n > 2);
    if (corr)
        OK(DA(T, da_correlation_matrix, o, n, p, X.data(), X.ld, R.data(), R.ld));
    else
        OK(DA(T, da_covariance_matrix, o, n, p, X.data(), X.ld, dof, R.data(), R.ld, ac));
    REQUIRE(X.v == X0.v, "input-modified", "the input matrix was modified");
    REQUIRE(R.pad_ok(), "padding", "padding of the result written");
    std::vector<L> m(p, 0), mx(p, 0), sd(p, 0);
    for (da_int j = 0; j < p; j++) {
        for (da_int i = 0; i < n; i++)
            m[j] += X(i, j), mx[j] = std::max(mx[j], std::fabs((L)X(i, j)));
        m[j] = (!corr && ac) ? 0 : m[j] / n;
        for (da_int i = 0; i < n; i++)
            sd[j] += (X(i, j) - m[j]) * (X(i, j) - m[j]);
        sd[j] = std::sqrt(sd[j]);
    }
    double C = 16 * EPS<T> * (10 + 0.5 * std::min<double>(n, 300) + std::sqrt((double)n));
    L d = dof < 0 ? n : dof == 0 ? n - 1 : dof;
    for (da_int i = 0; i < p; i++)
        for (da_int j = 0; j < p; j++) {
            L c = 0;
            for (da_int k = 0; k < n; k++)
                c += (X(k, i) - m[i]) * (X(k, j) - m[j]);
            if (!corr)
                NEAR(R(i, j), c / d, C * mx[i] * mx[j] * n / d, "covariance", "element (%d,%d)", i, j);
            else {
                REQUIRE(i != j || R(i, j) == 1, "correlation", "diagonal %d is %.9g", i, (double)R(i, j));
                L ci = mx[i] * std::sqrt((L)n) / sd[i], cj = mx[j] * std::sqrt((L)n) / sd[j];
                if (i == j || !(sd[i] > 0) || !(sd[j] > 0) || !(C * ci * ci < 1e-3) || !(C * cj * cj < 1e-3))
                    continue;
                NEAR(R(i, j), c / (sd[i] * sd[j]), 8 * C * (ci + cj) * (ci + cj), "correlation", "element (%d,%d)", i, j);
            }
            REQUIRE(R(i, j) == R(j, i), "symmetry", "element (%d,%d) differs from its transpose", i, j);
        }
}
PROPERTY(C01, covcorr, 45000, 700000,
         "random matrix, order, dof, centring flag and threads; covariance and correlation against a long double reference, symmetry and unit diagonal exact; non-trivial: p > 1 and n > 2") {
    g.flip() ? covcorr<double>(g) : covcorr<float>(g);
}
