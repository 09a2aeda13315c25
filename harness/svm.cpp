// C16: support vector machines: optimality of the dual solution, and what the model answers.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
typedef std::vector<L> LV;

template <class T> struct Data {
    Mat<T> X;
    std::vector<T> y;
    int K;
};
template <class T> Data<T> gen_data(Gen &g, da_order o, bool cls, int K, da_int n, da_int p) {
    Data<T> d;
    d.K = K;
    d.X = Mat<T>(n, p, o, gen_extra(g));
    d.y.resize(n);
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    double sc = s.pick({1.0, 1.0, 0.3, 3.0}), sep = s.pick({0.0, 1.0, 2.0, 4.0}), of = s.chance(1, 4) ? 1.5 : 0;
    bool grid = s.chance(1, 5);
    std::vector<double> c(K * p);
    for (double &v : c)
        v = s.normal();
    for (da_int i = 0; i < n; i++) {
        int k = cls ? (i < 2 * K ? (int)(i % K) : (int)s.below(K)) : 0;
        double t = 0;
        for (da_int j = 0; j < p; j++) {
            double v = s.normal() + of + (cls ? sep * c[k * p + j] : 0);
            if (grid)
                v = std::round(v);
            d.X(i, j) = (T)(sc * v);
            t += c[j] * v;
        }
        d.y[i] = cls ? (T)k : (T)(t + std::sin(3 * t) + 0.3 * s.normal());
    }
    if (cls)
        for (da_int i = n - 1; i > 0; i--) { // mix the classes
            da_int k = (da_int)s.below(i + 1);
            for (da_int j = 0; j < p; j++)
                std::swap(d.X(i, j), d.X(k, j));
            std::swap(d.y[i], d.y[k]);
        }
    g.note("n %d p %d K %d scale %g sep %g offset %g grid %d", (int)n, (int)p, K, sc, sep, of, grid);
    return d;
}
enum { RBF, LIN, POLY, SIG };
struct Par {
    int kernel = RBF, degree = 3, max_iter = 2000, proba = 0, folds = 5, seed = 0, ws = -1;
    bool mixed = false;
    double C = 1, eps = 0.1, nu = 0.5, tol = 1e-3, gamma = -1, coef0 = 0;
};
template <class T> struct Fit { // what the handle tells about the model
    da_int n_sv = 0, nc = 0, K = 0;
    std::vector<T> coef, bias, sv, A, B;
    std::vector<da_int> idx, per, iter;
    Par q;
    L gamma;
    int mod;
    std::vector<std::pair<int, int>> pairs;
};
template <class T, class U, class V> L kern(const Fit<T> &f, const U &a, da_int i, const V &b, da_int j, L *mag = nullptr) {
    L s = 0, m = 0;
    da_int p = a.p;
    if (f.q.kernel == RBF) {
        L na = 0;
        for (da_int k = 0; k < p; k++) {
            L d = (L)a(i, k) - (L)b(j, k);
            s += d * d;
            na += (L)a(i, k) * a(i, k) + (L)b(j, k) * b(j, k);
        }
        L v = expl(-f.gamma * s);
        if (mag)
            *mag = v * (1 + f.gamma * na);
        return v;
    }
    for (da_int k = 0; k < p; k++)
        s += (L)a(i, k) * b(j, k), m += fabsl((L)a(i, k) * b(j, k));
    L v = s;
    if (f.q.kernel == POLY) {
        v = powl(f.gamma * s + f.q.coef0, f.q.degree);
        m = powl(f.gamma * m + fabsl(f.q.coef0), f.q.degree) * f.q.degree;
    } else if (f.q.kernel == SIG) {
        v = tanhl(f.gamma * s + f.q.coef0);
        m = 1 + f.gamma * m;
    }
    if (mag)
        *mag = m + fabsl(v);
    return v;
}
// the coefficient of support vector s (of class c) in the problem of classes a and b
template <class T> L coef(const Fit<T> &f, da_order o, da_int s, int c, int a, int b) {
    int rows = f.nc == 1 ? 1 : (int)f.K - 1, r = 0;
    if (f.nc > 1) {
        if (c == a)
            r = b - 1;
        else if (c == b)
            r = a;
        else
            return 0;
    }
    return f.coef[rc(o, rows, f.n_sv, r, s)];
}
template <class T> std::vector<LV> decisions(const Fit<T> &f, const Data<T> &d, const Mat<T> &Z, std::vector<LV> *mag) {
    std::vector<LV> r(f.nc, LV(Z.n, 0));
    if (mag)
        mag->assign(f.nc, LV(Z.n, 0));
    for (da_int i = 0; i < Z.n; i++)
        for (da_int s = 0; s < f.n_sv; s++) {
            da_int t = f.idx[s];
            int c = f.nc > 1 ? (int)d.y[t] : 0;
            L m, v = kern(f, d.X, t, Z, i, &m);
            for (int k = 0; k < (int)f.nc; k++) {
                L w = coef(f, d.X.order, s, c, f.pairs[k].first, f.pairs[k].second);
                r[k][i] += w * v;
                if (mag)
                    (*mag)[k][i] += fabsl(w) * m;
            }
        }
    for (int k = 0; k < (int)f.nc; k++)
        for (da_int i = 0; i < Z.n; i++) {
            r[k][i] += f.bias[k];
            if (mag)
                (*mag)[k][i] += fabsl((L)f.bias[k]);
        }
    return r;
}
template <class T> void set_options(da_handle h, const Par &q) {
    static const char *kn[] = {"rbf", "linear", "polynomial", "sigmoid"};
    opt_s(h, "kernel", kn[q.kernel]);
    opt_i(h, "degree", q.degree);
    opt_i(h, "max_iter", q.max_iter);
    opt_i(h, "predict probabilities", q.proba);
    opt_i(h, "n_folds", q.folds);
    opt_i(h, "seed", q.seed);
    opt_r<T>(h, "c", (T)q.C);
    opt_r<T>(h, "epsilon", (T)q.eps);
    opt_r<T>(h, "nu", (T)q.nu);
    opt_r<T>(h, "tolerance", (T)q.tol);
    opt_r<T>(h, "gamma", (T)q.gamma);
    opt_r<T>(h, "coef0", (T)q.coef0);
}
template <class T> void gen_par(Gen &g, Par &q, bool cls, int K) {
    q.kernel = (int)g.pick({RBF, RBF, LIN, POLY, SIG});
    q.C = (T)g.pick({1.0, 0.1, 10.0, 100.0});
    q.eps = (T)g.pick({0.1, 0.0, 0.5, 0.01});
    q.nu = (T)g.pick({0.5, 0.1, 0.3, 0.8, 1.0});
    q.tol = (T)g.pick({1e-3, 1e-3, 1e-2, 1e-4});
    q.gamma = g.chance(1, 3) ? -1 : (T)g.pick({0.5, 0.1, 1.0, 3.0});
    q.coef0 = (T)g.pick({0.0, 1.0, 0.5, 0.3, 0.0, -0.5});
    q.degree = (int)g.range(1, 4);
    q.max_iter = g.chance(1, 12) ? (int)g.range(1, 8) : (q.kernel == RBF ? 200 : 60) / (sizeof(T) == 4 ? 4 : 1);
    q.proba = cls && g.chance(1, 4);
    q.folds = (int)g.range(2, 5);
    q.seed = (int)g.below(50);
    (void)K;
    g.note("kernel %d C %g eps %g nu %g tol %g gamma %g coef0 %g degree %d max_iter %d proba %d/%d", q.kernel, q.C, q.eps, q.nu, q.tol,
           q.gamma, q.coef0, q.degree, q.max_iter, q.proba, q.folds);
}
template <class T> Fit<T> read(da_handle h, const Data<T> &d, const Par &q, int mod) {
    Fit<T> f;
    f.q = q;
    f.mod = mod;
    bool cls = mod == svc || mod == nusvc;
    da_int p = d.X.p, n = d.X.n, dim = 1;
    f.K = cls ? d.K : 2;
    f.nc = f.K * (f.K - 1) / 2;
    for (int a = 0; a < (int)f.K; a++)
        for (int b = a + 1; b < (int)f.K; b++)
            f.pairs.push_back({a, b});
    std::vector<T> info(100);
    dim = 100;
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info.data()));
    REQUIRE(info[0] == (T)n && info[1] == (T)p && info[2] == (T)f.K, "rinfo", "info %g %g %g", (double)info[0], (double)info[1], (double)info[2]);
    dim = 1;
    OK(da_handle_get_result_int(h, da_svm_n_support_vectors, &dim, &f.n_sv));
    REQUIRE(f.n_sv >= 0 && f.n_sv <= n, "n_sv", "%d support vectors of %d samples", (int)f.n_sv, (int)n);
    if (!f.n_sv)
        return f;
    auto geti = [&](da_result r, da_int sz) {
        Guarded<da_int> v(sz);
        da_int dm = sz;
        OK(da_handle_get_result_int(h, r, &dm, v.data()));
        REQUIRE(v.ok(), "result-size", "result %d wrote behind %d elements", (int)r, (int)sz);
        return std::vector<da_int>(v.v.begin(), v.v.begin() + sz);
    };
    auto getr = [&](da_result r, da_int sz) {
        Guarded<T> v(sz);
        da_int dm = sz;
        OK(DA(T, da_handle_get_result, h, r, &dm, v.data()));
        REQUIRE(v.ok(), "result-size", "result %d wrote behind %d elements", (int)r, (int)sz);
        return std::vector<T>(v.v.begin(), v.v.begin() + sz);
    };
    f.idx = geti(da_svm_idx_support_vectors, f.n_sv);
    f.per = geti(da_svm_n_support_vectors_per_class, cls ? f.K : 1);
    f.iter = geti(da_svm_n_iterations, f.nc);
    f.coef = getr(da_svm_dual_coef, (f.K - 1) * f.n_sv);
    f.bias = getr(da_svm_bias, f.nc);
    f.sv = getr(da_svm_support_vectors, f.n_sv * p);
    if (q.proba)
        f.A = getr(da_svm_probaA, f.nc), f.B = getr(da_svm_probaB, f.nc);
    std::vector<da_int> cnt(f.K, 0);
    std::vector<char> seen(n, 0);
    for (da_int s = 0; s < f.n_sv; s++) {
        da_int t = f.idx[s];
        REQUIRE(t >= 0 && t < n && !seen[t], "sv-index", "index %d of support vector %d is out of range or repeated", (int)t, (int)s);
        seen[t] = 1;
        for (da_int j = 0; j < p; j++)
            REQUIRE(f.sv[rc(d.X.order, f.n_sv, p, s, j)] == d.X(t, j), "sv-row", "support vector %d is not row %d of the data", (int)s, (int)t);
        if (cls)
            cnt[(int)d.y[t]]++;
    }
    if (cls)
        for (int k = 0; k < (int)f.K; k++)
            REQUIRE(cnt[k] == f.per[k], "per-class", "%d support vectors of class %d, reported %d", (int)cnt[k], k, (int)f.per[k]);
    else
        REQUIRE(f.per[0] == f.n_sv, "per-class", "%d support vectors, reported %d", (int)f.n_sv, (int)f.per[0]);
    f.gamma = q.gamma;
    if (q.gamma < 0) {
        L m = 0, v = 0;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                m += d.X(i, j);
        m /= n * p;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                v += (d.X(i, j) - m) * (d.X(i, j) - m);
        f.gamma = 1 / (p * (v / (n * p)));
    }
    return f;
}
// Karush-Kuhn-Tucker conditions of each problem; true if they were judged for all
template <class T> bool kkt(Gen &g, const Fit<T> &f, const Data<T> &d) {
    std::vector<LV> mag, dec = decisions(f, d, d.X, &mag);
    bool psd = f.q.kernel != SIG && (f.q.kernel != POLY || f.q.coef0 >= 0);
    bool all = true, cls = f.mod == svc || f.mod == nusvc;
    da_int n = d.X.n;
    L eps = EPS<T>, C = (T)f.q.C, eps_s = f.q.mixed ? EPS<float> : EPS<T>;
    for (int k = 0; k < (int)f.nc; k++) {
        int a = f.pairs[k].first, b = f.pairs[k].second;
        std::vector<da_int> rows;
        std::vector<L> w(n, 0); // signed coefficients
        for (da_int s = 0; s < f.n_sv; s++)
            w[f.idx[s]] = coef(f, d.X.order, s, cls ? (int)d.y[f.idx[s]] : 0, a, b);
        L sum = 0, pos = 0, neg = 0, abs = 0, big = 0, M = 0;
        da_int np = 0, nn = 0;
        L kmax = 0;
        for (da_int i = 0; i < n; i++) {
            if (cls && d.y[i] != a && d.y[i] != b)
                continue;
            rows.push_back(i);
            if (f.q.kernel != RBF)
                kmax = std::max(kmax, fabsl(kern(f, d.X, i, d.X, i)));
            bool p = cls && (f.nc == 1 ? d.y[i] == 1 : d.y[i] == a);
            (p ? np : nn)++;
            sum += w[i];
            abs += fabsl(w[i]);
            (p ? pos : neg) += fabsl(w[i]);
            big = std::max(big, fabsl(w[i]));
            M = std::max(M, mag[k][i]);
            if (f.mod == svc)
                REQUIRE(fabsl(w[i]) <= 64 * eps_s * C || (w[i] > 0) == p, "sign", "coefficient %Lg of row %d of class %g", w[i], (int)i, (double)d.y[i]);
        }
        REQUIRE(std::isfinite((double)abs) && std::isfinite((double)f.bias[k]), "finite", "coefficients or bias %g are not finite", (double)f.bias[k]);
        if (f.mod == nusvc || f.mod == nusvr) { // known finding nu-stale-set: the working set cannot be filled
            da_int m = (da_int)rows.size(), size = cls ? m : 2 * m, ws = 1;
            while (2 * ws <= size)
                ws *= 2;
            if (size < 4)
                ws = size;
            ws = std::min<da_int>(ws, f.q.ws >= 0 ? std::max<da_int>(f.q.ws, 4) : 1024);
            if (3 * (cls ? std::min(np, nn) : m) < 2 * ws + 3) {
                all = false;
                continue;
            }
        }
        L upper = C, r = 1;
        da_int m = (da_int)rows.size();
        L nu = (T)f.q.nu;
        if (f.mod == nusvc) {
            if (std::min(np, nn) < nu * m / 2) { // infeasible
                all = false;
                continue;
            }
            if (pos <= 0)
                fail("nu-sum", "no coefficients in a nu problem");
            r = nu * m / 2 / pos;
            upper = 1 / r;
            if (r < f.q.tol || !psd || f.iter[k] >= f.q.max_iter || kmax > 1000) { // the margin vanishes: rounding decides
                all = false;
                continue;
            }
            for (da_int i : rows)
                REQUIRE(fabsl(w[i]) <= 64 * eps_s * upper || (w[i] > 0) == (f.nc == 1 ? d.y[i] == 1 : d.y[i] == a), "sign", "coefficient %Lg of row %d of class %g", w[i], (int)i,
                        (double)d.y[i]);
        }
        REQUIRE(big <= upper * (1 + 64 * eps_s * m), "box", "coefficient %Lg above the bound %Lg", big, upper);
        bool limit = f.iter[k] >= f.q.max_iter;
        if (kmax <= 1000)
            REQUIRE(fabsl(sum) <= 32768 * eps_s * (abs + upper) * (1 + sqrtl((L)m)), "sum", "coefficients add up to %Lg (size %Lg)", sum, abs);
        if (f.mod == nusvr)
            REQUIRE(abs <= C * nu * m * (1 + 64 * eps_s * m), "nu-sum", "coefficients have size %Lg, at most %Lg", abs, C * nu * m);
        if (limit) {
            all = false;
            continue;
        }
        L delta = 1.25L * f.q.tol / r + 0.01L + eps * 64 * M * (1 + sqrtl((L)f.iter[k]));
        // tiny working sets stop when the violation has not changed for a few iterations
        if ((f.q.ws >= 0 && f.q.ws <= 16 && m * (cls ? 1 : 2) > std::max(f.q.ws, 2)) || !psd || kmax * C > 300 || delta > 0.5L * (cls ? 1 : std::max<L>(f.q.eps, 0.2L))) {
            all = false;
            continue;
        }
        L tiny = upper * 4 * eps_s, lo = 0, hi = 1e30L;
        for (da_int i : rows) {
            L z = dec[k][i], al = fabsl(w[i]);
            bool zero = al == 0, atb = al >= upper * (1 - 16 * eps_s) - tiny;
            if (cls) {
                bool p = f.nc == 1 ? d.y[i] == 1 : d.y[i] == a;
                L t = p ? z : -z;
                if (!atb)
                    REQUIRE(t >= 1 - delta, "kkt-margin", "pair %d,%d row %d alpha %Lg of %Lg: margin %Lg below 1 (allowed %Lg)", a, b, (int)i, al, upper, t, delta);
                if (!zero && al > tiny)
                    REQUIRE(t <= 1 + delta, "kkt-sv", "pair %d,%d row %d alpha %Lg of %Lg: margin %Lg above 1 (allowed %Lg)", a, b, (int)i, al, upper, t, delta);
            } else {
                L e = (L)d.y[i] - z;
                if (f.mod == svr) {
                    L ep = (T)f.q.eps;
                    if (!atb)
                        REQUIRE(fabsl(e) <= ep + delta || (al > tiny && (e > 0) == (w[i] > 0) && fabsl(e) <= ep + delta), "kkt-tube",
                                "row %d coefficient %Lg of %Lg: residual %Lg outside of the tube %Lg (allowed %Lg)", (int)i, w[i], upper, e, ep, delta);
                    if (al > tiny)
                        REQUIRE((w[i] > 0 ? e : -e) >= ep - delta, "kkt-sv", "row %d coefficient %Lg of %Lg: residual %Lg inside of the tube %Lg (allowed %Lg)",
                                (int)i, w[i], upper, e, ep, delta);
                } else {
                    if (!atb)
                        lo = std::max(lo, fabsl(e));
                    if (al > tiny)
                        hi = std::min(hi, w[i] > 0 ? e : -e);
                }
            }
        }
        if (f.mod == nusvr) {
            REQUIRE(lo <= std::max<L>(hi, 0) + 2 * delta, "kkt-nu", "residual %Lg of a row with a coefficient off the bound, %Lg of one with a coefficient (allowed %Lg)", lo, hi, delta);
            if (abs < C * nu * m * 0.98L)
                REQUIRE(lo <= 2 * delta, "kkt-nu-slack", "coefficients of size %Lg of %Lg, though the tube has width %Lg", abs, C * nu * m, lo);
        }
    }
    (void)g;
    return all;
}
// the coupling of pairwise probabilities as published by Wu, Lin and Weng (second method)
static LV couple(int K, const std::vector<LV> &r) {
    std::vector<LV> Q(K, LV(K));
    for (int t = 0; t < K; t++)
        for (int j = 0; j < K; j++) {
            if (j != t)
                Q[t][j] = -r[j][t] * r[t][j];
            else
                for (int i = 0; i < K; i++)
                    if (i != t)
                        Q[t][t] += r[i][t] * r[i][t];
        }
    // minimize p'Qp with sum p = 1
    int N = K + 1;
    std::vector<LV> S(N, LV(N + 1, 0));
    for (int t = 0; t < K; t++) {
        for (int j = 0; j < K; j++)
            S[t][j] = Q[t][j];
        S[t][K] = S[K][t] = 1;
    }
    S[K][N] = 1;
    for (int c = 0; c < N; c++) {
        int b = c;
        for (int i = c; i < N; i++)
            if (fabsl(S[i][c]) > fabsl(S[b][c]))
                b = i;
        std::swap(S[b], S[c]);
        for (int i = 0; i < N; i++)
            if (i != c) {
                L q = S[i][c] / S[c][c];
                for (int j = c; j <= N; j++)
                    S[i][j] -= q * S[c][j];
            }
    }
    LV p(K);
    for (int t = 0; t < K; t++)
        p[t] = S[t][N] / S[t][t];
    return p;
}
template <class T> void answers(Gen &g, da_handle h, const Fit<T> &f, const Data<T> &d, const Mat<T> &Z) {
    da_int q = Z.n, p = Z.p;
    bool cls = f.mod == svc || f.mod == nusvc;
    std::vector<LV> mag, dec = decisions(f, d, Z, &mag);
    L eps = EPS<T>;
    auto tol = [&](int k, da_int i) { return 64 * eps * mag[k][i] * (1 + sqrtl((L)p)) + 1e-30L; };
    Guarded<T> pr(q);
    OK(DA(T, da_svm_predict, h, q, p, Z.data(), Z.ld, pr.data()));
    REQUIRE(pr.ok(), "predict-size", "predict wrote too much");
    std::vector<int> votes(q * f.K, 0), unsure(q, 0);
    for (da_int i = 0; i < q; i++) {
        if (!cls) {
            REQUIRE(fabsl(pr[i] - dec[0][i]) <= tol(0, i), "predict", "prediction %d is %.9g, the model gives %.9Lg (allowed %Lg)", (int)i, (double)pr[i], dec[0][i], tol(0, i));
            continue;
        }
        for (int k = 0; k < (int)f.nc; k++) {
            if (fabsl(dec[k][i]) <= tol(k, i))
                unsure[i] = 1;
            votes[i * f.K + (dec[k][i] > 0 ? f.pairs[k].first : f.pairs[k].second)]++;
        }
        int best = 0;
        for (int c = 1; c < (int)f.K; c++)
            if (votes[i * f.K + c] > votes[i * f.K + best])
                best = c;
        if (f.nc == 1)
            best = dec[0][i] > 0;
        REQUIRE(unsure[i] || pr[i] == (T)best, "predict", "prediction %d is %g, the model gives %d (decision %Lg)", (int)i, (double)pr[i], best, dec[0][i]);
    }
    // score
    std::vector<T> yt(q);
    L mean = 0, rss = 0, tss = 0, hit = 0;
    for (da_int i = 0; i < q; i++) {
        yt[i] = cls ? (g.flip() ? pr[i] : (T)g.below(f.K)) : (T)(pr[i] + (g.flip() ? 0.3 * g.normal() : 0));
        hit += yt[i] == pr[i];
        mean += yt[i];
    }
    mean /= q;
    for (da_int i = 0; i < q; i++) {
        rss += ((L)yt[i] - pr[i]) * ((L)yt[i] - pr[i]);
        tss += (yt[i] - mean) * (yt[i] - mean);
    }
    T sc = -5;
    OK(DA(T, da_svm_score, h, q, p, Z.data(), Z.ld, yt.data(), &sc));
    L want = cls ? hit / q : (rss == 0 ? 1 : tss == 0 ? 0 : 1 - rss / tss);
    // the mean of nearly equal values is rounded
    L amp = 0;
    for (da_int i = 0; i < q; i++)
        amp = std::max(amp, fabsl((L)yt[i]));
    if (cls || tss > 1e3L * eps * amp * amp)
        REQUIRE(fabsl(sc - want) <= 64 * eps * (1 + fabsl(want)) * (cls ? 1 : q + 10), "score", "score %.9g, expected %.9Lg", (double)sc, want);
    if (!cls) {
        T x;
        REQUIRE(DA(T, da_svm_decision_function, h, q, p, Z.data(), Z.ld, ovo, &x, q) != da_status_success, "regression-decision", "decision function of a regression");
        return;
    }
    for (auto shape : {ovo, ovr}) {
        da_int nc = f.nc == 1 || shape == ovo ? f.nc : f.K;
        Mat<T> D(q, nc, Z.order, gen_extra(g));
        OK(DA(T, da_svm_decision_function, h, q, p, Z.data(), Z.ld, shape, D.data(), D.ld));
        if (f.nc == 1 && Z.order == row_major && D.ld > 1) { // two classes: a vector, whatever ldd
            for (da_int i = q; i < (da_int)D.v.size(); i++)
                REQUIRE(D.v[i] == D.pad(), "decision-pad", "decision function wrote behind the values");
            for (da_int i = q - 1; i >= 0; i--) {
                T v = D.v[i];
                if (i)
                    D.v[i] = D.pad();
                D(i, 0) = v;
            }
        }
        REQUIRE(D.pad_ok(), "decision-pad", "decision function wrote into the padding");
        for (da_int i = 0; i < q; i++)
            for (int k = 0; k < (int)nc; k++) {
                L v = dec[k < (int)f.nc ? k : 0][i], t = 0;
                if (nc == f.nc && (shape == ovo || f.nc == 1))
                    t = tol(k, i);
                else {
                    if (unsure[i])
                        continue;
                    L c = 0, tc = 0;
                    for (int m = 0; m < (int)f.nc; m++)
                        if (f.pairs[m].first == k || f.pairs[m].second == k)
                            c += f.pairs[m].first == k ? dec[m][i] : -dec[m][i], tc += tol(m, i);
                    v = votes[i * f.K + k] + c / (3 * (fabsl(c) + 1));
                    t = tc + 32 * eps * f.K;
                }
                REQUIRE(fabsl(D(i, k) - v) <= t, "decision", "%s decision value (%d,%d) is %.9g, the model gives %.9Lg (allowed %Lg)",
                        shape == ovo ? "ovo" : "ovr", (int)i, k, (double)D(i, k), v, t);
            }
    }
    Mat<T> P(q, f.K, Z.order, gen_extra(g)), LP(q, f.K, Z.order, gen_extra(g));
    da_status s1 = DA(T, da_svm_predict_proba, h, q, p, Z.data(), Z.ld, P.data(), P.ld);
    da_status s2 = DA(T, da_svm_predict_log_proba, h, q, p, Z.data(), Z.ld, LP.data(), LP.ld);
    if (!f.q.proba) {
        REQUIRE(s1 != da_status_success && s2 != da_status_success, "proba-off", "probabilities though the option is off");
        return;
    }
    REQUIRE(s1 == 0 && s2 == 0, "proba-status", "probabilities: status %d and %d", (int)s1, (int)s2);
    REQUIRE(P.pad_ok() && LP.pad_ok(), "proba-pad", "probabilities written into the padding");
    for (da_int i = 0; i < q; i++) {
        L sum = 0;
        std::vector<LV> r(f.K, LV(f.K, 0));
        L slack = 0;
        for (int k = 0; k < (int)f.nc; k++) {
            int a = f.pairs[k].first, b = f.pairs[k].second;
            L v = f.nc == 1 ? -dec[k][i] : dec[k][i], z = f.A[k] * v + f.B[k];
            r[a][b] = std::min<L>(std::max<L>(1 / (1 + expl(z)), 1e-7L), 1 - 1e-7L);
            r[b][a] = 1 - r[a][b];
            slack += fabsl((L)f.A[k]) * tol(k, i);
        }
        LV w = couple((int)f.K, r);
        for (int c = 0; c < (int)f.K; c++) {
            sum += P(i, c);
            REQUIRE(P(i, c) >= 0 && P(i, c) <= 1 + 8 * eps, "proba-range", "probability %g", (double)P(i, c));
            L t = 0.02L + slack;
            REQUIRE(fabsl(P(i, c) - w[c]) <= t, "proba", "probability (%d,%d) is %g, coupling the pairs gives %Lg", (int)i, c, (double)P(i, c), w[c]);
            REQUIRE(fabsl(LP(i, c) - logl((L)P(i, c))) <= 64 * eps * (1 + fabsl(logl((L)P(i, c)))) || (P(i, c) == 0 && std::isinf((double)LP(i, c))), "log-proba",
                    "log probability %g of %g", (double)LP(i, c), (double)P(i, c));
        }
        REQUIRE(fabsl(sum - 1) <= 64 * eps * f.K, "proba-sum", "probabilities add up to %.9Lg", sum);
    }
}
template <class T> void run(Gen &g) {
    int threads = gen_threads(g);
    Threads th(threads);
    perturb(g);
    Handle h;
    init<T>(h, da_handle_svm);
    int mod = (int)g.pick({(int)svc, (int)svc, (int)nusvc, (int)svr, (int)nusvr});
    bool cls = mod == svc || mod == nusvc;
    int fits = (int)g.pick({1, 1, 2, 3});
    Data<T> d;
    bool judged = true;
    int ok = 0;
    Par q;
    static const char *mn[] = {"undefined", "svc", "svr", "nusvc", "nusvr"};
    (void)mn;
    OK(DA(T, da_svm_select_model, h, (da_svm_model)mod));
    for (int f = 0; f < fits; f++) {
        bool newdata = f == 0 || g.chance(1, 3);
        if (newdata) {
            if (f && g.chance(1, 2)) {
                mod = (int)g.pick({(int)svc, (int)nusvc, (int)svr, (int)nusvr});
                cls = mod == svc || mod == nusvc;
                OK(DA(T, da_svm_select_model, h, (da_svm_model)mod));
            }
            da_order o = gen_order(g);
            int K = cls ? (int)g.pick({2, 2, 3, 4}) : 2;
            da_int n = g.chance(1, 10) ? (da_int)g.range(60, g.thorough ? 400 : 200) : (da_int)g.range(g.chance(1, 3) ? K : 2 * K, 40), p = (da_int)g.range(1, 6);
            d = gen_data<T>(g, o, cls, K, n, p);
            opt_order(h, o);
            OK(DA(T, da_svm_set_data, h, n, p, d.X.data(), d.X.ld, d.y.data()));
            // the leading dimension, or a copy of the data, keeps it readable
        }
        if (newdata || g.flip())
            gen_par<T>(g, q, cls, d.K), q.proba = q.proba && cls;
        q.proba = q.proba && cls;
        set_options<T>(h, q);
        double cache = g.chance(1, 4) ? g.pick({0.0, 0.001, 0.01, 1.0}) : -1;
        da_int ws = g.chance(1, 4) ? (da_int)g.pick({4, 16, 64, 1024, 0, 1, 2, 3}) : -1;
        q.ws = (int)ws;
        q.mixed = std::is_same_v<T, double> && g.chance(1, 6);
        g.note("cache %g working set %d mixed %d", cache, (int)ws, (int)q.mixed);
        opt_r<T>(h, "cache size", (T)cache);
        opt_i(h, "max_ws_size", ws);
        opt_s(h, "mixed precision", q.mixed ? "yes" : "no");
        if (q.mixed)
            opt_i(h, "low precision max_iter", 200);
        g.note("fit %d model %d order %s threads %d", f, mod, on(d.X.order), threads);
        da_status s = DA(T, da_svm_compute, h);
        if (s != da_status_success) {
            g.note("status %d", (int)s);
            Guarded<T> pr(1);
            REQUIRE(s == da_status_invalid_input || s == da_status_numerical_difficulties, "status", "compute returned %d", (int)s);
            continue;
        }
        Fit<T> r = read(h, d, q, mod);
        if (!r.n_sv)
            continue;
        ok++;
        judged = kkt(g, r, d) && judged;
        Gen sgen;
        sgen.rng = g.below(1u << 30) * 77777 + 11;
        Mat<T> Z(g.chance(1, 12) ? (da_int)g.range(190, 400) : (da_int)g.range(1, 20), d.X.p, d.X.order, gen_extra(g));
        for (da_int i = 0; i < Z.n; i++) {
            da_int t = (da_int)sgen.below(d.X.n);
            for (da_int j = 0; j < Z.p; j++)
                Z(i, j) = d.X(t, j) + (sgen.flip() ? 0 : (T)(0.5 * sgen.normal()));
        }
        answers(g, h, r, d, Z);
        g.label(judged ? "judged" : "feasibility only");
    }
    static const char *names[] = {"?", "svc", "nusvc", "svr", "nusvr"};
    (void)names;
    g.label("model " + std::to_string(mod));
    g.label("kernel " + std::to_string(q.kernel));
    g.nontrivial(ok > 0);
}
// a nu problem with two samples of class 1: the free support vectors of a class lie on its margin
static double nu_margin_error(int seed) {
    const da_int n = 6 + seed % 14, few = 1 + seed % 4;
    const double nu = std::min(0.8, 1.9 * few / n);
    pbt::Gen s;
    s.rng = seed * 77777 + 5;
    std::vector<double> X(2 * n), y(n), d(n), co(n);
    for (da_int i = 0; i < n; i++)
        y[i] = i < few, X[i] = s.normal(), X[n + i] = s.normal() + 2 * y[i];
    da_handle h = nullptr;
    double worst = -1;
    if (da_handle_init_d(&h, da_handle_svm) == 0 && da_svm_select_model_d(h, nusvc) == 0 && da_options_set_real_d(h, "nu", nu) == 0 &&
        da_options_set_real_d(h, "gamma", 0.5) == 0 && da_svm_set_data_d(h, n, 2, X.data(), n, y.data()) == 0 && da_svm_compute_d(h) == 0 &&
        da_svm_decision_function_d(h, n, 2, X.data(), n, ovr, d.data(), n) == 0) {
        da_int one = 1, k = 0;
        da_handle_get_result_int(h, da_svm_n_support_vectors, &one, &k);
        std::vector<da_int> ix(k + 1);
        std::vector<double> co(k + 1);
        da_int dk = k, dc = k;
        if (k > 0 && k <= n && da_handle_get_result_int(h, da_svm_idx_support_vectors, &dk, ix.data()) == 0 && da_handle_get_result_d(h, da_svm_dual_coef, &dc, co.data()) == 0) {
            double up = 0;
            for (da_int i = 0; i < k; i++)
                up = std::max(up, std::fabs(co[i]));
            worst = 0;
            for (da_int i = 0; i < k; i++)
                if (std::fabs(co[i]) < 0.999 * up)
                    worst = std::max(worst, std::fabs(std::fabs(d[ix[i]]) - 1));
        }
    }
    da_handle_destroy(&h);
    return worst;
}
static bool probe_nu_stale() {
    if (getenv("DBG"))
        for (int i = 0; i < 3000; i++)
            fprintf(stderr, "%d: %g\n", i, nu_margin_error(i));
    return nu_margin_error(1032) > 0.1;
}
static pbt::FReg reg_nu_stale({"C16", "nu-stale-set", "nu problems whose smaller class does not fill its part of the working set are trained with samples repeated in it and may stop before the solution (16 points, 1 of class 1, nu 0.119, rbf: support vectors off the margin; tests/unit_tests/svm holds present values)", probe_nu_stale});

PROPERTY(C16, fit, 5000, 50000, "a model was fitted and has support vectors") { g.flip() ? run<double>(g) : run<float>(g); }
