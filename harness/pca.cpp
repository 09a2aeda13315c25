// C13: principal components against a Jacobi eigensolver and the algebra of the decomposition.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
typedef std::vector<std::vector<L>> LM;

// eigenvalues of a symmetric matrix, in decreasing order
static std::vector<L> jacobi(LM a) {
    int n = (int)a.size();
    for (int sweep = 0; sweep < 60; sweep++) {
        L off = 0, all = 0;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                all += a[i][j] * a[i][j], off += i != j ? a[i][j] * a[i][j] : 0;
        if (off <= all * 1e-38L)
            break;
        for (int p = 0; p < n; p++)
            for (int q = p + 1; q < n; q++) {
                if (a[p][q] == 0)
                    continue;
                L th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                L t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
                for (int k = 0; k < n; k++) {
                    L x = a[k][p], y = a[k][q];
                    a[k][p] = c * x - s * y, a[k][q] = s * x + c * y;
                }
                for (int k = 0; k < n; k++) {
                    L x = a[p][k], y = a[q][k];
                    a[p][k] = c * x - s * y, a[q][k] = s * x + c * y;
                }
            }
    }
    std::vector<L> e(n);
    for (int i = 0; i < n; i++)
        e[i] = a[i][i];
    std::sort(e.rbegin(), e.rend());
    return e;
}
// singular values of the matrix whose rows are given, by making the rows orthogonal
static std::vector<L> singular(LM b) {
    int n = (int)b.size();
    for (int sweep = 0; sweep < 60; sweep++) {
        bool done = true;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++) {
                L x = 0, y = 0, d = 0;
                for (size_t k = 0; k < b[i].size(); k++)
                    x += b[i][k] * b[i][k], y += b[j][k] * b[j][k], d += b[i][k] * b[j][k];
                if (fabsl(d) <= 1e-18L * sqrtl(x * y))
                    continue;
                done = false;
                L z = (y - x) / (2 * d), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), c = 1 / sqrtl(1 + t * t), s = c * t;
                for (size_t k = 0; k < b[i].size(); k++) {
                    L u = b[i][k], v = b[j][k];
                    b[i][k] = c * u - s * v, b[j][k] = s * u + c * v;
                }
            }
        if (done)
            break;
    }
    std::vector<L> r;
    for (auto &v : b) {
        L t = 0;
        for (L x : v)
            t += x * x;
        r.push_back(sqrtl(t));
    }
    std::sort(r.rbegin(), r.rend());
    return r;
}
template <class T> struct Res { // an n x k result in the given order
    Guarded<T> v;
    da_int n, k;
    da_order o;
    Res(da_int n, da_int k, da_order o) : v((size_t)n * k), n(n), k(k), o(o) {}
    L operator()(da_int i, da_int j) const { return v[rc(o, n, k, i, j)]; }
};
template <class T> static da_status fetch(da_handle h, da_result r, Guarded<T> &v, const std::string &what) {
    // an array that is too small is refused and the right size reported
    da_int dim = (da_int)v.size();
    da_status s = DA(T, da_handle_get_result, h, r, &dim, v.data());
    REQUIRE(v.ok(), "beyond", "%s: wrote beyond result %d", what.c_str(), (int)r);
    return s;
}

static const char *METH[] = {"covariance", "correlation", "svd"};
static const char *SOLV[] = {"auto", "gesdd", "gesvd", "gesvdx", "syevd", "randomized"};
static const char *NORM[] = {"qr", "lu", "none"};
struct Conf {
    int method = 0, solver = 0;
    da_int npc = 1, over = 10, power = -1, seed = 0;
    int norm = 0;
    bool u = false, whiten = false, biased = false;
    std::string str() const {
        char b[300];
        snprintf(b, sizeof b, "%s %s npc %d%s%s%s (over %d, power %d, %s)", METH[method], SOLV[solver], (int)npc, u ? " u" : "", whiten ? " whiten" : "", biased ? " biased" : "", (int)over, (int)power, NORM[norm]);
        return b;
    }
    void apply(da_handle h) const {
        opt_s(h, "pca method", METH[method]);
        opt_s(h, "svd solver", SOLV[solver]);
        opt_i(h, "n_components", npc);
        opt_i(h, "store u", u);
        opt_i(h, "whiten", whiten);
        opt_s(h, "degrees of freedom", biased ? "biased" : "unbiased");
        opt_i(h, "n_oversamples", over);
        opt_i(h, "power iterations", power);
        opt_s(h, "power normalization", NORM[norm]);
        opt_i(h, "seed", seed);
    }
};
static Conf gen_conf(Gen &g, da_int n, da_int p) {
    Conf c;
    c.method = (int)g.below(3), c.solver = (int)g.below(6);
    c.npc = g.chance(1, 4) ? 0 : (da_int)g.range(1, std::min(n, p));
    if (n > 400 && g.chance(1, 3))
        c.solver = 0, c.npc = (da_int)g.range(1, std::max<da_int>(1, std::min(n, p) / 6));
    c.u = g.flip(), c.whiten = g.chance(1, 3), c.biased = g.chance(1, 3);
    if (g.flip())
        c.over = (da_int)g.range(0, 12);
    if (g.chance(1, 3))
        c.power = (da_int)g.range(-1, 4);
    c.norm = (int)g.below(3), c.seed = (da_int)g.below(50);
    return c;
}
// data of a given rank with a spectrum that falls off
template <class T> static Mat<T> gen_data(Gen &g, da_int n, da_int p, da_order o) {
    if (g.chance(1, 3) && (int64_t)n * p <= 4000)
        return gen_mat<T>(g, n, p, o);
    Mat<T> A(n, p, o, gen_extra(g));
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    da_int r = (da_int)g.range(1, std::min<da_int>(std::min(n, p), 12));
    double fall = g.pick({0.3, 0.6, 0.9, 1.0}), noise = g.pick({0.0, 0.01, 0.3}), shift = g.pick({0.0, 0.0, 1.0, 20.0});
    std::vector<double> a((size_t)n * r), b((size_t)r * p), m(p);
    for (auto &x : a)
        x = s.normal();
    for (auto &x : b)
        x = s.normal();
    for (auto &x : m)
        x = shift * s.normal();
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++) {
            double v = m[j], f = 1;
            for (da_int k = 0; k < r; k++, f *= fall)
                v += f * a[(size_t)i * r + k] * b[(size_t)k * p + j];
            A(i, j) = (T)(v + noise * s.normal());
        }
    if (g.chance(1, 6)) { // a constant column
        da_int j = (da_int)g.below(p);
        double v = g.pick({0.0, 1.0, -2.5});
        for (da_int i = 0; i < n; i++)
            A(i, j) = (T)v;
    }
    return A;
}
template <class T> struct Fact {
    LM z; // standardized data
    std::vector<L> mean, sd, sig, most;
    L fro = 0, cond = 1; // cond: growth of rounding by the standardization
    int div = 1;
};
template <class T> static Fact<T> reference(const Mat<T> &A, const Conf &c) {
    Fact<T> f;
    da_int n = A.n, p = A.p;
    f.div = c.biased ? (int)n : n == 1 ? 1 : (int)n - 1;
    f.z.assign(n, std::vector<L>(p));
    f.most.assign(p, 0), f.mean.assign(p, 0), f.sd.assign(p, 1);
    L raw = 0;
    for (da_int j = 0; j < p; j++) {
        L lo = A(0, j), hi = A(0, j), r2 = 0;
        for (da_int i = 0; i < n; i++) {
            f.mean[j] += c.method == 2 ? 0 : A(i, j);
            lo = std::min<L>(lo, A(i, j)), hi = std::max<L>(hi, A(i, j)), r2 += (L)A(i, j) * A(i, j);
        }
        f.most[j] = std::max(fabsl(lo), fabsl(hi));
        f.mean[j] /= n;
        L ss = 0;
        for (da_int i = 0; i < n; i++)
            ss += (A(i, j) - f.mean[j]) * (A(i, j) - f.mean[j]);
        L s = 1;
        if (c.method == 1) {
            s = sqrtl(ss / f.div);
            // whether the deviation is zero must not be decided by rounding
            if (lo == hi && lo != std::round((double)lo))
                throw pbt::Discard();
            if (lo == hi)
                s = 1;
            else if (sqrtl(ss) < 1e-3 * sqrtl(r2))
                throw pbt::Discard();
            f.sd[j] = lo == hi ? 0 : s;
        }
        for (da_int i = 0; i < n; i++)
            f.z[i][j] = (A(i, j) - f.mean[j]) / s;
        raw += r2 / (s * s);
    }
    LM b;
    if (n < p)
        b = f.z;
    else {
        b.assign(p, std::vector<L>(n));
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                b[j][i] = f.z[i][j];
    }
    f.sig = singular(b);
    for (auto s : f.sig)
        f.fro += s * s;
    f.fro = sqrtl(f.fro);
    f.cond = f.fro > 0 ? std::max<L>(1, sqrtl(raw) / f.fro) : 1;
    return f;
}
// everything the handle reports, judged against the data
template <class T> static void check(Gen &g, da_handle h, const Mat<T> &A, const Conf &c, const std::string &w) {
    da_int n = A.n, p = A.p, m = std::min(n, p), k = c.npc ? c.npc : m;
    const char *what = w.c_str();
    da_order o = A.order;
    Fact<T> f = reference(A, c);
    int solver = c.solver;
    if (solver == 0)
        solver = k < m / 5 && std::max(n, p) > 500 ? 5 : n > 3 * p && !c.u ? 4 : 1;
    L e = 30 * EPS<T> * (n + p + 10), top = f.sig[0], scale = f.cond * f.fro;
    // a perturbation of the data of size d moves every singular value by at most d
    L d = e * scale, d2 = e * scale * scale;
    if (f.fro == 0) {
        L big = 0;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                big = std::max<L>(big, fabsl(A(i, j)));
        d = e * big * sqrtl((L)n * p), d2 = d * big * sqrtl((L)n * p);
    }
    // LAPACK's gesvdx does not keep the vectors of vanishing singular values orthogonal
    auto loose = [&](da_int i) { return solver == 3 && f.sig[i] <= 1000 * d; };
    bool square = solver == 4, approx = solver == 5 && (k + c.over < m || (c.norm == 2 && c.power != 0)); // without normalization the iteration loses small directions
    da_int one = 3;
    Guarded<T> info(3);
    OK(fetch(h, da_rinfo, info, w));
    REQUIRE(info[0] == (T)n && info[1] == (T)p && info[2] == (T)k, "info", "%s: info %g %g %g for %d x %d, %d components", what, (double)info[0], (double)info[1], (double)info[2], (int)n, (int)p, (int)k);
    // sizes that are too small are refused
    da_result q = g.pick({da_pca_principal_components, da_pca_variance, da_pca_sigma, da_pca_vt});
    da_int need = q == da_pca_variance || q == da_pca_sigma ? k : k * p;
    one = need - 1;
    Guarded<T> none(need);
    if (need > 1) {
        da_status s = DA(T, da_handle_get_result, h, q, &one, none.data());
        REQUIRE(s == da_status_invalid_array_dimension && one == need, "dimension", "%s: result %d with %d of %d elements gives %d and %d", what, (int)q, (int)need - 1, (int)need, (int)s, (int)one);
    }
    // means and deviations
    Guarded<T> mean(p), sd(p), sig(k), var(k), tot(1);
    da_status s = fetch(h, da_pca_column_means, mean, w);
    REQUIRE(s == (c.method == 2 ? da_status_unknown_query : da_status_success), "means", "%s: means give %d", what, (int)s);
    s = fetch(h, da_pca_column_sdevs, sd, w);
    REQUIRE(s == (c.method != 1 ? da_status_unknown_query : da_status_success), "sdevs", "%s: deviations give %d", what, (int)s);
    for (da_int j = 0; j < p; j++) {
        L mx = 0;
        for (da_int i = 0; i < n; i++)
            mx = std::max<L>(mx, fabsl(A(i, j)));
        if (c.method != 2)
            REQUIRE(fabsl(mean[j] - f.mean[j]) <= e * mx, "means", "%s: mean of column %d is %.17g, expected %.17Lg", what, (int)j, (double)mean[j], f.mean[j]);
        if (c.method == 1)
            REQUIRE(fabsl(sd[j] - f.sd[j]) <= e * mx * 40, "sdevs", "%s: deviation of column %d is %.17g, expected %.17Lg", what, (int)j, (double)sd[j], f.sd[j]);
    }
    OK(fetch(h, da_pca_sigma, sig, w));
    if (sig[0] != sig[0] && solver == 5 && c.norm == 2 && c.power != 0)
        return; // overflowed
    OK(fetch(h, da_pca_variance, var, w));
    OK(fetch(h, da_pca_total_variance, tot, w));
    Res<T> vt(k, p, o), pc(k, p, o);
    OK(fetch(h, da_pca_vt, vt.v, w));
    OK(fetch(h, da_pca_principal_components, pc.v, w));
    for (da_int i = 0; i < k; i++)
        for (da_int j = 0; j < p; j++)
            REQUIRE(vt(i, j) == pc(i, j), "components", "%s: V^T and the components differ at %d,%d", what, (int)i, (int)j);
    REQUIRE(fabsl(tot[0] * f.div - f.fro * f.fro) <= 4 * d2, "total variance", "%s: total variance %.17g, expected %.17Lg", what, (double)tot[0], f.fro * f.fro / f.div);
    for (da_int i = 0; i < k; i++) {
        L a = sig[i], b = f.sig[i];
        REQUIRE(a >= 0 && (i == 0 || a <= (L)sig[i - 1] * (1 + 8 * EPS<T>)), "order", "%s: singular value %d is %.17Lg", what, (int)i, a);
        if (approx) {
            REQUIRE(a <= b + d, "sigma", "%s: approximate singular value %d is %.17Lg, above the true %.17Lg", what, (int)i, a, b);
            bool good = c.over >= 5 && (c.power == -1 || c.power >= 3) && c.norm != 2;
            REQUIRE(!good || a >= 0.9L * b - d, "sigma", "%s: approximate singular value %d is %.17Lg, far below the true %.17Lg", what, (int)i, a, b);
        } else if (square)
            REQUIRE(fabsl(a * a - b * b) <= 4 * d2, "sigma", "%s: singular value %d is %.17Lg, expected %.17Lg", what, (int)i, a, b);
        else
            REQUIRE(fabsl(a - b) <= 4 * d, "sigma", "%s: singular value %d is %.17Lg, expected %.17Lg", what, (int)i, a, b);
        REQUIRE(fabsl(var[i] * f.div - a * a) <= 8 * EPS<T> * a * a + 4 * f.div * (L)std::numeric_limits<T>::min(), "variance", "%s: variance %d is %.17g, expected %.17Lg", what, (int)i, (double)var[i], a * a / f.div);
        for (da_int j = 0; j <= i; j++) {
            L t = 0;
            for (da_int l = 0; l < p; l++)
                t += vt(i, l) * vt(j, l);
            REQUIRE(loose(i) || fabsl(t - (i == j)) <= e, "orthonormal", "%s: components %d and %d have product %.17Lg", what, (int)i, (int)j, t);
        }
    }
    // projections Z v_i: mutually orthogonal, with norm sigma_i
    LM zv(n, std::vector<L>(k));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < k; j++)
            for (da_int l = 0; l < p; l++)
                zv[i][j] += f.z[i][l] * vt(j, l);
    for (da_int i = 0; i < k && !approx; i++)
        for (da_int j = 0; j <= i; j++) {
            L t = 0, want = i == j ? (L)sig[i] * sig[i] : 0;
            for (da_int l = 0; l < n; l++)
                t += zv[l][i] * zv[l][j];
            REQUIRE(fabsl(t - want) <= 8 * (square ? d2 : d * std::max(top, d)), "projection", "%s: projections on components %d and %d have product %.17Lg, expected %.17Lg", what, (int)i, (int)j, t, want);
        }
    Res<T> u(n, k, o), sc(n, k, o);
    s = fetch(h, da_pca_u, u.v, w);
    REQUIRE(s == (c.u ? da_status_success : da_status_invalid_option), "u", "%s: U gives %d", what, (int)s);
    s = fetch(h, da_pca_scores, sc.v, w);
    REQUIRE(s == (c.u ? da_status_success : da_status_invalid_option), "scores", "%s: scores give %d", what, (int)s);
    if (c.u) {
        for (da_int i = 0; i < k; i++) {
            for (da_int j = 0; j <= i; j++) {
                L t = 0;
                for (da_int l = 0; l < n; l++)
                    t += u(l, i) * u(l, j);
                REQUIRE(loose(i) || fabsl(t - (i == j)) <= e, "u", "%s: columns %d and %d of U have product %.17Lg", what, (int)i, (int)j, t);
            }
            L best = 0, pos = 0;
            for (da_int l = 0; l < n; l++) {
                best = std::max(best, fabsl(u(l, i))), pos = std::max(pos, u(l, i));
                L us = u(l, i) * sig[i], x = sc(l, i), want = c.whiten ? u(l, i) * sqrtl(f.div) : us;
                REQUIRE(approx || fabsl(us - zv[l][i]) <= 4 * d, "u", "%s: U*Sigma is %.17Lg at %d,%d but the projection is %.17Lg", what, us, (int)l, (int)i, zv[l][i]);
                REQUIRE(fabsl(x - want) <= 8 * EPS<T> * fabsl(want) + 8 * (L)std::numeric_limits<T>::min(), "scores", "%s: score %d,%d is %.17Lg, expected %.17Lg", what, (int)l, (int)i, x, want);
            }
            REQUIRE(pos >= best, "sign", "%s: the largest element of column %d of U is negative", what, (int)i);
        }
    }
    // transform new points (or the data) and back
    bool same = g.chance(1, 3);
    da_int q0 = same ? n : (da_int)g.size(1, 8);
    Mat<T> X = same ? A : gen_mat<T>(g, q0, p, o), Y(q0, k, o, gen_extra(g)), Z(q0, p, o, gen_extra(g));
    OK(DA(T, da_pca_transform, h, q0, p, X.v.data(), X.ld, Y.v.data(), Y.ld));
    REQUIRE(Y.pad_ok(), "beyond", "%s: transform wrote outside its result", what);
    bool tiny = false; // whitening by a singular value that is nothing but rounding
    for (da_int j = 0; j < k; j++)
        tiny |= sig[j] <= (square ? sqrtl(d2) : d) * 100;
    for (da_int i = 0; i < q0; i++)
        for (da_int j = 0; j < k; j++) {
            L t = 0, mag = 0;
            for (da_int l = 0; l < p; l++) {
                L dv = c.method == 1 && f.sd[l] > 0 ? f.sd[l] : 1;
                t += (X(i, l) - f.mean[l]) / dv * vt(j, l);
                mag += (fabsl(X(i, l)) + (c.method == 2 ? 0 : f.most[l])) / dv;
            }
            if (c.whiten) {
                if (sig[j] <= (square ? sqrtl(d2) : d) * 100)
                    continue;
                t *= sqrtl(f.div) / sig[j], mag *= sqrtl(f.div) / sig[j];
            }
            REQUIRE(fabsl(Y(i, j) - t) <= e * mag * 4, "transform", "%s: transform of row %d, component %d is %.17g, expected %.17Lg", what, (int)i, (int)j, (double)Y(i, j), t);
            if (same && c.u && !approx && !c.whiten)
                REQUIRE(fabsl(Y(i, j) - sc(i, j)) <= 8 * d + e * mag * 4, "scores", "%s: transforming the data gives %.17g at %d,%d but the score is %.17Lg", what, (double)Y(i, j), (int)i, (int)j, sc(i, j));
        }
    if (g.flip())
        for (da_int i = 0; i < q0; i++)
            for (da_int j = 0; j < k; j++)
                Y(i, j) = (T)g.range(-3, 3);
    if (c.whiten && tiny)
        return;
    OK(DA(T, da_pca_inverse_transform, h, q0, k, Y.v.data(), Y.ld, Z.v.data(), Z.ld));
    REQUIRE(Z.pad_ok(), "beyond", "%s: the inverse transform wrote outside its result", what);
    for (da_int i = 0; i < q0; i++)
        for (da_int l = 0; l < p; l++) {
            L t = 0, mag = 0, dv = c.method == 1 && f.sd[l] > 0 ? f.sd[l] : 1;
            for (da_int j = 0; j < k; j++) {
                L y = Y(i, j) * (c.whiten ? sig[j] / sqrtl(f.div) : 1);
                t += y * vt(j, l), mag += fabsl(y);
            }
            t = t * dv + f.mean[l], mag = mag * dv + (c.method == 2 ? 0 : f.most[l]);
            REQUIRE(fabsl(Z(i, l) - t) <= e * mag * 4, "inverse", "%s: inverse transform of row %d, feature %d is %.17g, expected %.17Lg", what, (int)i, (int)l, (double)Z(i, l), t);
        }
}
template <class T> static void pca_case(Gen &g, da_int n, da_int p, int times) {
    Threads th(gen_threads(g));
    perturb(g);
    // blocks of the QR factorization: as small as they may be, or the default
    OK(da_debug_set("pca.qr_block_size_override", g.flip() ? std::to_string(std::max<da_int>(p, (da_int)g.range(p, p + 8))).c_str() : "1000000"));
    Mat<T> A = gen_data<T>(g, n, p, gen_order(g));
    Mat<T> back = A;
    Handle h;
    init<T>(h, da_handle_pca);
    opt_order(h, A.order);
    OK(DA(T, da_pca_set_data, h, n, p, A.v.data(), A.ld));
    g.note("%s %d x %d", on(A.order), (int)n, (int)p);
    for (int t = 0; t < times; t++) {
        Conf c = gen_conf(g, n, p);
        if (t > 0 && g.chance(1, 4)) { // other data in the same handle
            n = (da_int)g.size(1, 20), p = (da_int)g.size(1, 10);
            A = gen_data<T>(g, n, p, gen_order(g)), back = A;
            opt_i(h, "n_components", 1);
            opt_order(h, A.order);
            OK(DA(T, da_pca_set_data, h, n, p, A.v.data(), A.ld));
            c = gen_conf(g, n, p);
            OK(da_debug_set("pca.qr_block_size_override", g.flip() ? std::to_string(p).c_str() : "1000000"));
        }
        std::string w = std::string(t ? "again, " : "") + c.str() + " " + on(A.order) + " " + std::to_string(n) + "x" + std::to_string(p);
        g.note(" %s;", c.str().c_str());
        c.apply(h);
        da_status s = DA(T, da_pca_compute, h);
        if (c.solver == 4 && c.u) {
            REQUIRE(s == da_status_incompatible_options, "refuse", "%s: syevd with U gives %d", w.c_str(), (int)s);
            continue;
        }
        if (s == da_status_internal_error && (c.solver == 5 || c.solver == 0) && c.norm == 2 && c.power != 0)
            continue; // the unnormalized iteration overflowed
        REQUIRE(s == da_status_success, "compute", "%s: compute gives %d", w.c_str(), (int)s);
        REQUIRE(!memcmp(A.v.data(), back.v.data(), A.v.size() * sizeof(T)), "input", "%s: the data were changed", w.c_str());
        check<T>(g, h, A, c, w);
    }
    g.label(A.n > A.p ? "tall" : "wide");
    g.nontrivial(A.n > 1 && A.p > 1);
}
PROPERTY(C13, pca, 20000, 100000, "at least two rows and columns") {
    da_int n = (da_int)g.size(1, 30), p = (da_int)g.size(1, 14);
    if (g.chance(1, 8))
        std::swap(n, p);
    if (g.flip())
        pca_case<double>(g, n, p, (int)g.range(1, 3));
    else
        pca_case<float>(g, n, p, (int)g.range(1, 3));
}
PROPERTY(C13, pca_large, 300, 2000, "at least two rows and columns") {
    da_int n = (da_int)g.range(200, g.thorough ? 2500 : 1200), p = (da_int)g.range(1, 40);
    if (g.chance(1, 5))
        std::swap(n, p);
    if (g.flip())
        pca_case<double>(g, n, p, (int)g.range(1, 2));
    else
        pca_case<float>(g, n, p, (int)g.range(1, 2));
}

// ---- kernel PCA
static const char *KERN[] = {"linear", "poly", "rbf", "sigmoid", "precomputed"};
template <class T> struct KConf {
    int kernel = 0, solver = 0, norm = 0;
    da_int nc = 0, degree = 3, over = 10, power = -1, seed = 0;
    T gamma = -1, coef0 = 1, alpha = 1;
    bool fit = false, zero = false;
    std::string str() const {
        char b[300];
        snprintf(b, sizeof b, "%s %s nc %d gamma %g coef0 %g degree %d%s%s", KERN[kernel], solver == 2 ? "randomized" : solver ? "syevd" : "auto", (int)nc, (double)gamma, (double)coef0, (int)degree, fit ? " fit" : "", zero ? " remove zero" : "");
        return b;
    }
    void apply(da_handle h) const {
        opt_s(h, "kernel", KERN[kernel]);
        opt_s(h, "eigensolver", solver == 2 ? "randomized" : solver ? "syevd" : "auto");
        opt_i(h, "n_components", nc), opt_i(h, "degree", degree), opt_i(h, "n_oversamples", over), opt_i(h, "power iterations", power), opt_i(h, "seed", seed);
        opt_s(h, "power normalization", NORM[norm]);
        opt_r<T>(h, "gamma", gamma), opt_r<T>(h, "coef0", coef0), opt_r<T>(h, "alpha", alpha);
        opt_s(h, "fit inverse transform", fit ? "yes" : "no");
        opt_s(h, "remove zero eig", zero ? "yes" : "no");
    }
};
template <class T> static KConf<T> gen_kconf(Gen &g, da_int n, da_int p) {
    KConf<T> c;
    c.kernel = (int)g.below(4), c.solver = (int)g.below(3);
    c.nc = g.chance(1, 3) ? 0 : (da_int)g.range(1, n);
    c.degree = (da_int)g.range(1, 3);
    c.gamma = (T)g.pick({-1.0, -2.0, 0.1, 0.5, 0.01});
    c.coef0 = (T)g.pick({1.0, 0.0, 0.5, 2.0});
    c.alpha = (T)g.pick({1.0, 0.1, 10.0});
    c.fit = g.chance(1, 3), c.zero = g.chance(1, 3);
    if (g.flip())
        c.over = (da_int)g.range(0, 12);
    if (g.chance(1, 3))
        c.power = (da_int)g.range(-1, 4);
    c.norm = (int)g.below(3), c.seed = (da_int)g.below(50);
    return c;
}
template <class T, class F, class G> static L kern(const KConf<T> &c, L gamma, F x, G y, da_int p) {
    L dot = 0, d2 = 0;
    for (da_int l = 0; l < p; l++)
        dot += x(l) * y(l), d2 += (x(l) - y(l)) * (x(l) - y(l));
    switch (c.kernel) {
    case 0: return dot;
    case 1: return powl(gamma * dot + c.coef0, (L)c.degree);
    case 2: return expl(-gamma * d2);
    default: return tanhl(gamma * dot + c.coef0);
    }
}
// how far rounding may move an entry of the kernel matrix, for vectors with squared norms up to m
template <class T> static L kern_err(const KConf<T> &c, L gamma, L m, da_int p) {
    L u = 4 * EPS<T> * (p + 4), b = fabsl(gamma) * m + fabsl(c.coef0);
    switch (c.kernel) {
    case 0: return u * m;
    case 1: return u * c.degree * powl(b, (L)c.degree) + u;
    case 2: return u * (4 * fabsl(gamma) * m + 1);
    default: return u * (b + 1);
    }
}
template <class T> static void kcheck(Gen &g, da_handle h, const Mat<T> &A, const KConf<T> &c, da_status st, const std::string &w) {
    da_int n = A.n, p = A.p;
    da_order o = A.order;
    const char *what = w.c_str();
    bool pre = c.kernel == 4;
    L gamma = c.gamma < 0 ? (L)(T)(1 / (T)p) : (L)c.gamma, nrm = 0;
    for (da_int i = 0; i < n; i++) {
        L t = 0;
        for (da_int l = 0; l < p; l++)
            t += (L)A(i, l) * A(i, l);
        nrm = std::max(nrm, t);
    }
    auto row = [&](const Mat<T> &M, da_int i) { return [&M, i](da_int l) -> L { return M(i, l); }; };
    LM K(n, std::vector<L>(n));
    L big = 0;
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < n; j++)
            K[i][j] = pre ? (L)A(i, j) : kern<T>(c, gamma, row(A, i), row(A, j), p), big = std::max(big, fabsl(K[i][j]));
    std::vector<L> rm(n);
    L gmn = 0;
    for (da_int i = 0; i < n; i++) {
        for (da_int j = 0; j < n; j++)
            rm[i] += K[i][j] / n;
        gmn += rm[i] / n;
    }
    LM Kc = K;
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < n; j++)
            Kc[i][j] += gmn - rm[i] - rm[j];
    std::vector<L> ev = jacobi(Kc);
    L u = 4 * EPS<T> * (n + 8);
    // entries of the centred matrix are known to err; eigenvalues move by at most n times that
    L err = (pre ? 0 : kern_err<T>(c, gamma, nrm, p)) * 4 + u * big, d = n * err;
    L l0 = std::max(fabsl(ev[0]), fabsl(ev[n - 1]));
    int solver = c.solver;
    if (solver == 0)
        solver = c.nc > 0 && c.nc * 10 < n && n > 500 ? 2 : 1;
    bool approx = solver == 2 && (c.nc + c.over < n || (c.norm == 2 && c.power != 0));
    // refusal for negative eigenvalues: large ones must be refused, rounding must not
    bool dbl = sizeof(T) == 8;
    L pos = (dbl ? 1e-12L : 2e-7L) * ev[0], negr = (dbl ? 1e-5L : 5e-3L) * ev[0], nega = dbl ? 1e-10L : 1e-6L;
    if (st == da_status_numerical_difficulties) {
        // the ridge is too small for the rounding of the kernel matrix of the scores
        if (c.fit && (c.kernel == 3 || (c.kernel == 1 && !(c.coef0 >= 0)) || 4 * n * kern_err<T>(c, gamma, std::max<L>(0, ev[0]) + d, p) > 0.1L * c.alpha))
            return;
        bool negative = ev[n - 1] < -std::min(nega, std::max<L>(0, negr)) + d;
        // positive semi-definite kernels have no negative eigenvalues but for rounding
        bool psd = c.kernel == 0 || c.kernel == 2 || (c.kernel == 1 && c.coef0 >= 0 && gamma >= 0) || ev[n - 1] >= -d;
        REQUIRE(!(psd && std::max(nega, negr) > 4 * d), "refused", "%s: refused, though the eigenvalues run from %.6Lg to %.6Lg", what, ev[0], ev[n - 1]);
        REQUIRE(negative || psd || c.fit, "refused", "%s: refused, though the eigenvalues run from %.6Lg to %.6Lg", what, ev[0], ev[n - 1]);
        g.label("refused");
        return;
    }
    if (st == da_status_invalid_array_dimension && c.fit && ev[0] <= 2 * d)
        return; // no component is left to learn the inverse from
    if (st == da_status_internal_error && solver == 2 && c.norm == 2 && c.power != 0)
        return; // the unnormalized iteration overflowed
    REQUIRE(st == da_status_success, "compute", "%s: compute gives %d", what, (int)st);
    if (!approx && c.nc == 0)
        REQUIRE(!(ev[n - 1] < -2 * std::max(nega, negr) - 2 * d), "accepted", "%s: accepted, though the smallest eigenvalue is %.6Lg (largest %.6Lg)", what, ev[n - 1], ev[0]);
    da_int one = 1, k = -1;
    OK(da_handle_get_result_int(h, da_kernel_pca_n_components, &one, &k));
    if (c.nc && !c.zero)
        REQUIRE(k == c.nc, "count", "%s: %d components", what, (int)k);
    else if (!approx) {
        da_int lo = 0, hi = 0;
        for (da_int i = 0; i < n; i++)
            lo += ev[i] > 2 * std::max(pos, (L)0) + d, hi += ev[i] > -d;
        if (c.nc)
            lo = std::min(lo, c.nc), hi = std::min(hi, c.nc);
        REQUIRE(k >= lo && k <= hi, "count", "%s: %d components, expected %d to %d", what, (int)k, (int)lo, (int)hi);
    } else
        REQUIRE(k >= 0 && k <= c.nc, "count", "%s: %d components", what, (int)k);
    Guarded<T> info(2), gm(1), lam(k);
    OK(fetch(h, da_rinfo, info, w));
    REQUIRE(info[0] == (T)n && info[1] == (T)p, "info", "%s: info %g %g", what, (double)info[0], (double)info[1]);
    OK(fetch(h, da_kernel_pca_gamma, gm, w));
    REQUIRE(fabsl(gm[0] - gamma) <= 4 * EPS<T> * gamma, "gamma", "%s: gamma %g", what, (double)gm[0]);
    if (k == 0)
        return;
    OK(fetch(h, da_kernel_pca_eigenvalues, lam, w));
    if (lam[0] != lam[0] && solver == 2 && c.norm == 2 && c.power != 0)
        return; // overflowed
    Res<T> V(n, k, o), S(n, k, o), W(n, p, o), F(n, p, o);
    OK(fetch(h, da_kernel_pca_eigenvectors, V.v, w));
    OK(fetch(h, da_kernel_pca_scores, S.v, w));
    OK(fetch(h, da_kernel_pca_X_fit, F.v, w));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            REQUIRE(F(i, j) == (L)A(i, j), "data", "%s: the stored data differ at %d,%d", what, (int)i, (int)j);
    for (da_int i = 0; i < k; i++) {
        REQUIRE(lam[i] >= 0 && (i == 0 || lam[i] <= lam[i - 1] * (1 + 8 * EPS<T>)), "order", "%s: eigenvalue %d is %.17g", what, (int)i, (double)lam[i]);
        L want = std::max<L>(0, ev[i]);
        if (!approx)
            REQUIRE(fabsl(lam[i] - want) <= 4 * d + 2 * std::max<L>(pos, 0), "eigenvalue", "%s: eigenvalue %d is %.17g, expected %.17Lg", what, (int)i, (double)lam[i], want);
        else
            REQUIRE(lam[i] <= want + 4 * d, "eigenvalue", "%s: approximate eigenvalue %d is %.17g, above %.17Lg", what, (int)i, (double)lam[i], want);
        L best = 0, neg = 0;
        for (da_int l = 0; l < n; l++) {
            best = std::max(best, V(l, i)), neg = std::max(neg, -V(l, i));
            L t = V(l, i) * sqrtl(lam[i]);
            REQUIRE(fabsl(S(l, i) - t) <= 8 * EPS<T> * fabsl(t) + 8 * (L)std::numeric_limits<T>::min(), "scores", "%s: score %d,%d is %.17Lg, expected %.17Lg", what, (int)l, (int)i, S(l, i), t);
            if (!approx) {
                L r = 0;
                for (da_int j = 0; j < n; j++)
                    r += Kc[l][j] * V(j, i);
                REQUIRE(fabsl(r - std::max<L>(lam[i], std::min<L>(0, ev[i])) * V(l, i)) <= 8 * d + 2 * std::max<L>(pos, 0) + (lam[i] == 0 ? std::max(nega, fabsl(negr)) + std::max<L>(0, -ev[i]) : 0), "eigenvector", "%s: K v - lambda v is %.6Lg at %d,%d (largest eigenvalue %.6Lg)", what, r - lam[i] * V(l, i), (int)l, (int)i, l0);
            }
        }
        REQUIRE(best >= neg, "sign", "%s: the largest element of eigenvector %d is negative", what, (int)i);
        for (da_int j = 0; j <= i; j++) {
            L t = 0;
            for (da_int l = 0; l < n; l++)
                t += V(l, i) * V(l, j);
            REQUIRE(fabsl(t - (i == j)) <= 10 * u, "orthonormal", "%s: eigenvectors %d and %d have product %.17Lg", what, (int)i, (int)j, t);
        }
    }
    // transform
    da_int q = (da_int)g.size(1, 6), fw = pre ? n : p;
    Mat<T> X = gen_mat<T>(g, q, fw, o, 1), Y(q, k, o, gen_extra(g));
    bool same = g.chance(1, 3);
    if (same)
        X = A, q = n, Y = Mat<T>(q, k, o, gen_extra(g));
    OK(DA(T, da_kernel_pca_transform, h, q, fw, X.v.data(), X.ld, Y.v.data(), Y.ld));
    REQUIRE(Y.pad_ok(), "beyond", "%s: transform wrote outside its result", what);
    L xn = nrm, kb = big;
    for (da_int i = 0; i < q && !pre; i++) {
        L t = 0;
        for (da_int l = 0; l < p; l++)
            t += (L)X(i, l) * X(i, l);
        xn = std::max(xn, t);
    }
    LM C(q, std::vector<L>(n));
    for (da_int i = 0; i < q; i++) {
        L m = 0;
        for (da_int j = 0; j < n; j++) {
            C[i][j] = pre ? (L)X(i, j) : kern<T>(c, gamma, row(X, i), row(A, j), p);
            kb = std::max(kb, fabsl(C[i][j])), m += C[i][j] / n;
        }
        for (da_int j = 0; j < n; j++)
            C[i][j] += gmn - m - rm[j];
    }
    L terr = ((pre ? 0 : kern_err<T>(c, gamma, xn, p)) * 4 + u * kb) * 4 * n;
    for (da_int i = 0; i < q; i++)
        for (da_int j = 0; j < k; j++) {
            L t = 0;
            for (da_int l = 0; l < n; l++)
                t += C[i][l] * V(l, j);
            L f = lam[j] > 0 ? 1 / sqrtl(lam[j]) : 0;
            REQUIRE(fabsl(Y(i, j) - t * f) <= terr * f + 8 * EPS<T> * fabsl(t * f), "transform", "%s: transform of row %d, component %d is %.17g, expected %.17Lg", what, (int)i, (int)j, (double)Y(i, j), t * f);
        }
    da_status s = fetch(h, da_kernel_pca_dual_coef, W.v, w);
    REQUIRE(s == (c.fit ? da_status_success : da_status_no_data), "dual", "%s: dual coefficients give %d", what, (int)s);
    if (g.flip())
        for (da_int i = 0; i < q; i++)
            for (da_int j = 0; j < k; j++)
                Y(i, j) = (T)g.range(-2, 2);
    Mat<T> B(q, p, o, gen_extra(g));
    s = DA(T, da_kernel_pca_inverse_transform, h, q, k, Y.v.data(), Y.ld, B.v.data(), B.ld);
    REQUIRE(s == (c.fit ? da_status_success : pre ? da_status_invalid_input : da_status_no_data), "inverse", "%s: the inverse transform gives %d", what, (int)s);
    if (c.fit) {
        REQUIRE(B.pad_ok(), "beyond", "%s: the inverse transform wrote outside its result", what);
        L zn = 0, yn = 0, wmax = 0, amax = 0;
        for (da_int i = 0; i < n; i++) {
            L t = 0;
            for (da_int l = 0; l < k; l++)
                t += S(i, l) * S(i, l);
            zn = std::max(zn, t);
            for (da_int l = 0; l < p; l++)
                wmax = std::max(wmax, fabsl(W(i, l))), amax = std::max<L>(amax, fabsl(A(i, l)));
        }
        auto srow = [&](da_int i) { return [&S, i](da_int l) -> L { return S(i, l); }; };
        LM Kz(n, std::vector<L>(n));
        L kzb = 0;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < n; j++)
                Kz[i][j] = kern<T>(c, gamma, srow(i), srow(j), k), kzb = std::max(kzb, fabsl(Kz[i][j]));
        L ke = kern_err<T>(c, gamma, zn, k) * 4 + u * (kzb + c.alpha);
        for (da_int i = 0; i < n; i++)
            for (da_int l = 0; l < p; l++) {
                L t = c.alpha * W(i, l) - A(i, l);
                for (da_int j = 0; j < n; j++)
                    t += Kz[i][j] * W(j, l);
                REQUIRE(fabsl(t) <= 8 * n * (ke * wmax + u * amax), "dual", "%s: (K + alpha I) W - A is %.6Lg at %d,%d", what, t, (int)i, (int)l);
            }
        for (da_int i = 0; i < q; i++) {
            L t = 0;
            for (da_int l = 0; l < k; l++)
                t += (L)Y(i, l) * Y(i, l);
            yn = std::max(yn, t);
        }
        for (da_int i = 0; i < q; i++)
            for (da_int l = 0; l < p; l++) {
                L t = 0, mag = 0;
                for (da_int j = 0; j < n; j++) {
                    L kk = kern<T>(c, gamma, row(Y, i), srow(j), k);
                    t += kk * W(j, l), mag += fabsl(kk * W(j, l));
                }
                L te = n * wmax * kern_err<T>(c, gamma, std::max(yn, zn), k) * 4 + u * mag * 4;
                REQUIRE(fabsl(B(i, l) - t) <= te, "inverse", "%s: inverse transform of row %d, feature %d is %.17g, expected %.17Lg", what, (int)i, (int)l, (double)B(i, l), t);
            }
    }
    g.label(KERN[c.kernel]);
    g.nontrivial(n > 2 && l0 > 10 * d);
}
template <class T> static void kpca_case(Gen &g, da_int n, da_int p, int times) {
    Threads th(gen_threads(g));
    perturb(g);
    OK(da_debug_set("pca.qr_block_size_override", "1000000"));
    bool pre = g.chance(1, 5);
    da_order o = gen_order(g);
    Mat<T> A = gen_mat<T>(g, n, p, o, g.pick({0, 1, 2, 3, 4}));
    if (pre) { // a Gram matrix, or any symmetric one
        Mat<T> M(n, n, o, gen_extra(g));
        bool psd = g.chance(3, 4);
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j <= i; j++) {
                L t = 0;
                if (psd)
                    for (da_int l = 0; l < p; l++)
                        t += (L)A(i, l) * A(j, l);
                else
                    t = A(i, j % p);
                M(i, j) = M(j, i) = (T)t;
            }
        A = M, p = n;
    }
    Mat<T> back = A;
    Handle h;
    init<T>(h, da_handle_kernel_pca);
    opt_order(h, o);
    opt_s(h, "copy data", g.flip() ? "yes" : "no");
    OK(DA(T, da_kernel_pca_set_data, h, n, p, A.v.data(), A.ld));
    g.note("%s %d x %d", on(o), (int)n, (int)p);
    for (int t = 0; t < times; t++) {
        KConf<T> c = gen_kconf<T>(g, n, p);
        if (pre)
            c.kernel = 4, c.fit = g.chance(1, 10);
        std::string w = std::string(t ? "again, " : "") + c.str() + " " + on(o) + " " + std::to_string(n) + "x" + std::to_string(p);
        g.note(" %s;", c.str().c_str());
        c.apply(h);
        da_status s = DA(T, da_kernel_pca_compute, h);
        if ((c.solver == 2 && c.nc == 0) || (pre && c.fit)) {
            REQUIRE(s == da_status_invalid_input, "refuse", "%s: compute gives %d", w.c_str(), (int)s);
            continue;
        }
        REQUIRE(!memcmp(A.v.data(), back.v.data(), A.v.size() * sizeof(T)), "input", "%s: the data were changed", w.c_str());
        kcheck<T>(g, h, A, c, s, w);
        if (s == da_status_success && g.chance(1, 4)) { // changed kernel options are noticed
            KConf<T> e = c;
            int how = (int)g.below(3);
            how == 0 ? void(e.kernel = (c.kernel + 1) % 4) : how == 1 ? void(e.degree++) : void(e.coef0 += 1);
            e.apply(h);
            Mat<T> Y(n, n, o, 0);
            s = DA(T, da_kernel_pca_transform, h, n, p, A.v.data(), A.ld, Y.v.data(), Y.ld);
            REQUIRE(s == da_status_incompatible_options, "options", "%s: transform after changing the kernel options gives %d", w.c_str(), (int)s);
        }
    }
}
PROPERTY(C13, kernel_pca, 12000, 60000, "more than two rows, eigenvalues above rounding") {
    da_int n = (da_int)g.size(1, 22), p = (da_int)g.size(1, 8);
    if (g.flip())
        kpca_case<double>(g, n, p, (int)g.range(1, 3));
    else
        kpca_case<float>(g, n, p, (int)g.range(1, 3));
}
