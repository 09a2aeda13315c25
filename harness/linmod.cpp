// C14: least squares, ridge, lasso and elastic net against the minimum of the documented cost.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
typedef std::vector<L> LV;

// 1/(2n) |y - b0 - Xb|^2 + sum_j l1 w_j |b_j| + l2/2 w_j^2 b_j^2, with b0 free when there is an intercept
struct Cost {
    int n, p;
    bool ic;
    std::vector<LV> x; // columns, centred when there is an intercept
    LV y, mx, w;
    L my = 0, l1 = 0, l2 = 0, sy = 0;
    mutable int rank = 0; // of the data and the penalty together, to the precision of the arithmetic
    L eps = 1e-16L;
    L f(const LV &b) const {
        L s = 0, r = 0;
        for (int i = 0; i < n; i++) {
            L e = y[i];
            for (int j = 0; j < p; j++)
                e -= x[j][i] * b[j];
            s += e * e;
        }
        for (int j = 0; j < p; j++)
            r += l1 * w[j] * fabsl(b[j]) + l2 / 2 * w[j] * w[j] * b[j] * b[j];
        return s / (2 * n) + r;
    }
    L zero() const { return f(LV(p, 0)); }
    // lower bound of the cost: coordinate descent followed by the value itself, with the certificate of the dual
    bool minimum(L &best, LV &b, L &kappa) const {
        // smallest and largest eigenvalue estimates come from the QR below; the solver is exact for l1 = 0
        b.assign(p, 0);
        kappa = 1;
        if (l1 == 0) {
            // Householder-free: modified Gram-Schmidt with pivoting on [X/sqrt n; sqrt(l2) w]
            int m = n + p;
            std::vector<LV> a(p, LV(m, 0));
            LV r(m, 0);
            for (int i = 0; i < n; i++)
                r[i] = y[i] / sqrtl(n);
            for (int j = 0; j < p; j++) {
                for (int i = 0; i < n; i++)
                    a[j][i] = x[j][i] / sqrtl(n);
                a[j][n + j] = sqrtl(l2) * w[j];
            }
            L first = 0, last = 0;
            std::vector<char> used(p, 0);
            for (int s = 0; s < p; s++) {
                int q = -1;
                L big = -1;
                for (int j = 0; j < p; j++)
                    if (!used[j]) {
                        L d = 0;
                        for (int i = 0; i < m; i++)
                            d += a[j][i] * a[j][i];
                        if (d > big)
                            big = d, q = j;
                    }
                if (s == 0)
                    first = big;
                if (big <= first * 1e-32L || big == 0)
                    break;
                last = big;
                if (big > first * eps * eps * 1e4L)
                    rank = s + 1;
                used[q] = 1;
                for (int rep = 0; rep < 2; rep++)
                    for (int j = 0; j <= p; j++) {
                        LV &v = j == p ? r : a[j];
                        if (j < p && used[j])
                            continue;
                        L d = 0;
                        for (int i = 0; i < m; i++)
                            d += v[i] * a[q][i];
                        d /= big;
                        for (int i = 0; i < m; i++)
                            v[i] -= d * a[q][i];
                    }
            }
            kappa = last > 0 ? first / last : 1;
            best = 0;
            for (L v : r)
                best += v * v / 2;
            return true;
        }
        LV e = y, d(p);
        for (int j = 0; j < p; j++) {
            d[j] = 0;
            for (int i = 0; i < n; i++)
                d[j] += x[j][i] * x[j][i] / n;
        }
        bool done = false;
        for (int it = 0; it < 30000 && !done; it++) {
            L mv = 0, mb = 0;
            for (int j = 0; j < p; j++) {
                L q = d[j] + l2 * w[j] * w[j];
                if (q == 0)
                    continue;
                L g = d[j] * b[j];
                for (int i = 0; i < n; i++)
                    g += x[j][i] * e[i] / n;
                L t = l1 * w[j], nb = g > t ? (g - t) / q : g < -t ? (g + t) / q : 0, df = nb - b[j];
                if (df != 0)
                    for (int i = 0; i < n; i++)
                        e[i] -= df * x[j][i];
                b[j] = nb;
                mv = std::max(mv, df * df * q), mb = std::max(mb, nb * nb * q);
            }
            done = mv <= mb * 1e-30L;
        }
        best = f(b);
        return done;
    }
};
enum Scale { S_AUTO, S_NONE, S_CENTER, S_SCALE, S_STD };
static const char *scale_name[] = {"auto", "none", "centering", "scale only", "standardize"};

template <class T> struct Prob {
    Mat<T> X;
    std::vector<T> y;
};
template <class T> Prob<T> gen_prob(Gen &g, da_order o, da_int n, da_int p, bool plain) {
    Prob<T> r;
    r.X = Mat<T>(n, p, o, (o == row_major ? p : n) + gen_extra(g));
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    bool wide = g.chance(1, 3);
    int offs = (int)g.below(3);
    std::vector<double> beta(p);
    for (da_int j = 0; j < p; j++) {
        double sc = wide ? pow(10, s.uniform(-1, 1)) : 1, of = offs == 0 ? 0 : offs == 1 ? s.normal() : s.normal() * 5;
        int how = plain ? 0 : (int)s.below(24);
        beta[j] = s.chance(1, 3) ? 0 : s.normal() / sc;
        bool ints = s.chance(1, 6);
        for (da_int i = 0; i < n; i++) {
            double v = ints ? (double)s.range(-2, 2) : s.normal();
            if (how == 1 && j > 0)
                v = r.X(i, j - 1);
            else if (how == 2)
                v = 1;
            else if (how == 3)
                v = 0;
            else if (how >= 4 && how < 9 && j > 0)
                v = v * 0.4 + r.X(i, 0);
            r.X(i, j) = (T)(how == 1 && j > 0 ? v : how == 3 ? 0 : how == 2 ? sc : v * sc + of * sc);
        }
    }
    double noise = s.pick({0.0, 0.1, 1.0, 3.0}), yo = offs == 0 ? 0 : s.normal() * 4, ys = wide ? pow(10, s.uniform(-2, 2)) : 1;
    int yk = plain ? 0 : (int)s.below(30);
    r.y.resize(n);
    for (da_int i = 0; i < n; i++) {
        double v = yo + noise * s.normal();
        for (da_int j = 0; j < p; j++)
            v += r.X(i, j) * beta[j];
        r.y[i] = (T)(yk == 1 ? 0 : yk == 2 ? 3 : yk == 3 ? std::round(v) : v * ys);
    }
    g.note("n %d p %d offsets %d wide %d y %d", (int)n, (int)p, offs, wide, yk);
    return r;
}
template <class T> Cost cost(const Prob<T> &d, bool ic, Scale sc, double alpha, double lambda) {
    Cost c;
    c.n = (int)d.X.n, c.p = (int)d.X.p, c.ic = ic, c.eps = EPS<T>;
    c.x.assign(c.p, LV(c.n));
    c.mx.assign(c.p, 0);
    c.w.assign(c.p, 1);
    c.y.assign(d.y.begin(), d.y.end());
    for (int j = 0; j < c.p; j++) {
        L m = 0, v = 0;
        for (int i = 0; i < c.n; i++)
            m += c.x[j][i] = d.X(i, j);
        m /= c.n;
        for (int i = 0; i < c.n; i++)
            v += (c.x[j][i] - m) * (c.x[j][i] - m);
        if (sc == S_STD)
            c.w[j] = sqrtl(v / c.n);
        if (ic) {
            c.mx[j] = m;
            for (int i = 0; i < c.n; i++)
                c.x[j][i] -= m;
        }
    }
    if (ic) {
        for (L v : c.y)
            c.my += v;
        c.my /= c.n;
        for (L &v : c.y)
            v -= c.my;
    }
    for (L v : c.y)
        c.sy += v * v;
    c.sy = sqrtl(c.sy / c.n);
    if (lambda == 0)
        return c;
    if (alpha == 0)
        c.l2 = sc == S_STD ? lambda / c.sy : lambda / c.n;
    else
        c.l1 = lambda * alpha, c.l2 = lambda * (1 - alpha) / (sc == S_STD || sc == S_SCALE ? c.sy : 1);
    return c;
}
static bool refused(const std::string &m, bool well, bool ic, Scale sc, double alpha, double lambda) {
    if (m == "auto")
        return refused(alpha == 0 ? "cholesky" : "coord", well, ic, sc, alpha, lambda);
    if (m != "coord" && alpha > 0 && lambda != 0)
        return true;
    if (m == "qr" && lambda != 0)
        return true;
    if (!well && sc == S_NONE && ic && m != "lbfgs")
        return true;
    if ((m == "qr" || m == "svd") && sc == S_NONE && ic)
        return true;
    return m == "qr" && !well && (ic || sc == S_STD);
}
struct Case {
    std::string m;
    Scale sc;
    bool ic, mixed = false;
    double alpha, lambda;
};
template <class T> void apply(Gen &g, da_handle h, const Case &c) {
    opt_s(h, "optim method", c.m.c_str());
    opt_s(h, "scaling", scale_name[c.sc]);
    opt_i(h, "intercept", c.ic);
    opt_r<T>(h, "alpha", (T)c.alpha);
    opt_r<T>(h, "lambda", (T)c.lambda);
    opt_s(h, "mixed precision", c.mixed ? "yes" : "no");
    bool d = std::is_same_v<T, double>;
    opt_r<T>(h, "optim convergence tol", (T)(d ? 1e-9 : 1e-5));
    opt_r<T>(h, "optim dual gap tol", (T)(d ? 1e-9 : 1e-5));
    opt_r<T>(h, "optim progress factor", (T)0.01);
    opt_i(h, "optim iteration limit", 100000);
    if (getenv("PL"))
        opt_i(h, "print level", 5);
}
template <class T> Case gen_case(Gen &g, int kind) { // 0 direct, 1 elastic net, 2 any
    Case c;
    static const char *ms[] = {"auto", "cholesky", "svd", "qr", "cg", "lbfgs", "coord"};
    c.m = kind == 1 ? (g.chance(1, 6) ? "auto" : "coord") : ms[g.below(7)];
    c.sc = (Scale)g.below(5);
    c.ic = g.flip();
    c.lambda = (c.m == "qr" ? g.chance(1, 8) : kind == 1 || g.chance(2, 3)) ? pow(10, g.uniform(-3, 1)) : 0;
    c.alpha = kind == 1 ? (g.chance(1, 3) ? 1 : g.uniform(0.05, 0.95)) : 0;
    c.lambda = (double)(T)c.lambda, c.alpha = (double)(T)c.alpha;
    return c;
}
template <class T> void judge(Gen &g, da_handle h, const Prob<T> &d, const Case &c, const char *what, const std::vector<T> *start = nullptr) {
    Cost k = cost(d, c.ic, c.sc, c.alpha, c.lambda);
    bool iter = c.m == "cg" || c.m == "lbfgs" || c.m == "coord" || (c.m == "auto" && c.alpha > 0);
    da_int nc = k.p + c.ic, dim = nc;
    std::vector<T> co(nc);
    OK(DA(T, da_handle_get_result, h, da_linmod_coef, &dim, co.data()));
    T info[100];
    dim = 100;
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
    LV b(co.begin(), co.begin() + k.p), ref;
    L best, kap;
    for (T v : co)
        REQUIRE(std::isfinite(v), "finite", "%s %s coefficient %g scaling %s ic %d n %d p %d lambda %g alpha %g sy %Lg", what, c.m.c_str(), (double)v, scale_name[c.sc], c.ic, k.n, k.p, c.lambda, c.alpha, k.sy);
    if (!k.minimum(best, ref, kap))
        throw pbt::Discard();
    // iterations that stopped short; conjugate gradients also lose their way in singular systems
    if (info[2] >= (T)99999 || (c.m == "cg" && (k.rank < k.p || kap > 0.01L / EPS<T>)))
        return; // not judged
    // coordinate descent in single precision that converges slowly accumulates the rounding of its residual
    bool cd = c.m == "coord" || (c.m == "auto" && c.alpha != 0);
    if (cd && !std::is_same_v<T, double> && info[2] >= (T)1000)
        return;
    if ((c.m == "cholesky" || (c.m == "auto" && c.alpha == 0)) && c.lambda == 0) { // wants full rank, or a failure it notices
        int zero = 0;
        for (int j = 0; j < k.p; j++) {
            bool all = true;
            for (int i = 0; i < k.n; i++)
                all = all && d.X(i, j) == 0;
            zero += all;
        }
        if (k.rank < std::min(k.n < k.p + c.ic ? k.p : k.p - zero, k.n - c.ic) || kap > 0.03L / EPS<T>)
            return;
    }
    L z = k.f(LV(k.p, 0)), fb = k.f(b), ys = k.my * k.my, from = 0;
    if (start && !start->empty()) { // the accuracy is relative to what the iterations started from
        for (T v : *start)
            from += fabsl(v);
        L size = 1;
        for (int j = 0; j < k.p; j++)
            for (L v : k.x[j])
                size = std::max(size, fabsl(v) + fabsl(k.mx[j]));
        from *= size;
        z += from * from;
    }
    // the arithmetic of a solver that forms X'X loses the square of the condition of the data
    L cond = 1;
    for (int j = 0; j < k.p; j++) {
        L v = 0;
        for (L q : k.x[j])
            v += q * q;
        v /= k.n;
        if (v > 0)
            cond = std::max(cond, 1 + k.mx[j] * k.mx[j] / v);
    }
    // the intercept and features far from zero are nearly collinear: coordinate descent crawls
    if (cd && c.ic && c.sc == S_NONE && cond > 30)
        return;
    if (iter)
        z = std::max<L>(z, 1e-3L); // their tolerances are partly absolute
    L tol = iter ? (std::is_same_v<T, double> ? 1e-7L : 1e-2L) : EPS<T> * 200 * (L)(k.n + k.p);
    L lim = best + tol * (z + (c.m == "lbfgs" ? ys : 0)) * (iter ? std::max<L>(1, kap / 5) : 1) + (iter && c.sc == S_NONE ? (std::is_same_v<T, double> ? 1e-10L : 1e-3L) * ys : 0) + (L)EPS<T> * 50 * std::min<L>(kap * cond, 1 / sqrtl(EPS<T>)) * (z + ys);
    if (getenv("DBG"))
        fprintf(stderr, "%s %s sc %s ic %d n %d p %d la %g al %g: cost %Lg best %Lg zero %Lg kap %Lg cond %Lg gap/z %Lg iters %g\n", what, c.m.c_str(), scale_name[c.sc], c.ic, k.n, k.p, c.lambda, c.alpha, fb, best, z, kap, cond, (fb - best) / z, (double)info[2]);
    if (getenv("DUMP")) {
        FILE *f = fopen("/tmp/dump.txt", "w");
        for (int i = 0; i < k.n; i++) {
            for (int j = 0; j < k.p; j++)
                fprintf(f, "%.17g ", (double)d.X(i, j));
            fprintf(f, "%.17g\n", (double)d.y[i]);
        }
        fclose(f);
    }
    REQUIRE(fb <= lim, "cost", "%s %s scaling %s intercept %d n %d p %d lambda %g alpha %g: cost %Lg, %Lg is possible (cost without model %Lg) kappa %Lg", what, c.m.c_str(), scale_name[c.sc], c.ic, k.n, k.p, c.lambda, c.alpha, fb, best, z, kap);
    if (c.ic) {
        L want = k.my;
        L mag = fabsl(k.my) + k.sy + from;
        for (int j = 0; j < k.p; j++)
            want -= k.mx[j] * b[j], mag += fabsl(k.mx[j] * b[j]);
        L t = iter ? (std::is_same_v<T, double> ? (c.sc == S_NONE ? 1e-3L : 1e-5L) : c.sc == S_NONE ? 5e-2L : 1e-2L) : EPS<T> * 100 * (k.n + std::min<L>(kap * cond, 1 / EPS<T> / 1000));
        REQUIRE(fabsl(want - co[k.p]) <= t * mag, "intercept", "%s %s scaling %s n %d p %d lambda %g alpha %g: intercept %g, expected %Lg", what, c.m.c_str(), scale_name[c.sc], k.n, k.p, c.lambda, c.alpha, (double)co[k.p], want);
    }
    bool well = k.n >= k.p + c.ic;
    REQUIRE(info[10] == k.n && info[11] == k.p && info[13] == 1 && info[14] == nc && (info[15] != 0) == well, "info",
            "sizes reported: %g %g %g %g %g for n %d p %d coefficients %d", (double)info[10], (double)info[11], (double)info[13], (double)info[14], (double)info[15], k.n, k.p, (int)nc);
}
// a usable problem for the scaling of the case: the standard deviations are divisors
template <class T> bool divisible(const Prob<T> &d, const Case &c) {
    if (c.sc != S_SCALE && c.sc != S_STD)
        return true;
    Cost s = cost(d, c.ic, S_STD, 0, 0);
    if (s.sy < 1e-3)
        return false;
    for (int j = 0; j < s.p; j++)
        if (s.w[j] < 1e-3)
            return false;
    return true;
}
template <class T> da_status fit(da_handle h, const Prob<T> &d) {
    OK(DA(T, da_linmod_define_features, h, d.X.n, d.X.p, d.X.v.data(), d.X.ld, d.y.data()));
    return DA(T, da_linmod_fit, h);
}
static void sizes(Gen &g, da_int &n, da_int &p) {
    if (g.chance(1, 12))
        n = g.range(50, g.thorough ? 800 : 300), p = g.range(1, g.thorough ? 40 : 20);
    else if (g.chance(1, 4))
        n = g.range(1, 8), p = g.range(1, 14);
    else
        n = g.range(2, 40), p = g.range(1, 8);
}
template <class T> void one(Gen &g, int kind) {
    da_order o = gen_order(g);
    Threads th(gen_threads(g));
    perturb(g);
    da_int n, p;
    sizes(g, n, p);
    Case c = gen_case<T>(g, kind);
    auto d = gen_prob<T>(g, o, n, p, false);
    if (!divisible(d, c))
        throw pbt::Discard();
    Cost k = cost(d, c.ic, c.sc, c.alpha, c.lambda);
    Handle h;
    init<T>(h, da_handle_linmod);
    opt_order(h, o);
    OK(DA(T, da_linmod_select_model, h, linmod_model_mse));
    apply<T>(g, h, c);
    bool ref = refused(c.m, n >= p + c.ic, c.ic, c.sc, c.alpha, c.lambda);
    auto copy = d;
    da_status st = fit<T>(h, d);
    g.note("%s %s scaling %s ic %d lambda %g alpha %g %s", tn<T>(), c.m.c_str(), scale_name[c.sc], c.ic, c.lambda, c.alpha, on(o));
    if (ref) {
        REQUIRE(st == da_status_incompatible_options, "refusal", "%s scaling %s ic %d n %d p %d lambda %g alpha %g gave %d", c.m.c_str(), scale_name[c.sc], c.ic, (int)n, (int)p, c.lambda, c.alpha, (int)st);
        return;
    }
    if (c.m == "qr") { // wants data of full rank
        L best, kap;
        LV b;
        k.minimum(best, b, kap);
        if (k.rank < std::min(k.n, k.p))
            throw pbt::Discard();
    }
    REQUIRE(st == da_status_success, "fit", "%s scaling %s ic %d n %d p %d lambda %g alpha %g gave %d", c.m.c_str(), scale_name[c.sc], c.ic, (int)n, (int)p, c.lambda, c.alpha, (int)st);
    REQUIRE(!memcmp(copy.y.data(), d.y.data(), n * sizeof(T)) && !memcmp(copy.X.v.data(), d.X.v.data(), d.X.v.size() * sizeof(T)), "input", "%s changed the user's data", c.m.c_str());
    if (n > 1 && k.sy > 0)
        g.nontrivial();
    g.label(c.m + " " + scale_name[c.sc]);
    judge<T>(g, h, d, c, "fit");
}

// data of full rank with moderate condition, for which every method must come to the same answer
template <class T> bool sound(const Prob<T> &d, const Case &c) {
    if (!divisible(d, c))
        return false;
    Cost k = cost(d, c.ic, c.sc, 0, 0);
    L best, kap;
    LV b;
    k.minimum(best, b, kap);
    return k.rank >= std::min(k.n - c.ic, k.p) && kap < 0.001L / EPS<T>;
}
template <class T> void evaluate(Gen &g, da_handle h, const Prob<T> &d, const Case &c, da_order o, const std::vector<T> &start) {
    da_int p = d.X.p, nc = p + c.ic, dim = nc, m = g.range(1, 12);
    std::vector<T> co(nc);
    OK(DA(T, da_handle_get_result, h, da_linmod_coef, &dim, co.data()));
    Mat<T> E(m, p, o, (o == row_major ? p : m) + gen_extra(g));
    Guarded<T> pred(m);
    std::vector<T> obs(m);
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    for (da_int i = 0; i < m; i++) {
        obs[i] = (T)s.normal();
        for (da_int j = 0; j < p; j++)
            E(i, j) = (T)(s.normal() * (j + 1));
    }
    bool want = g.flip();
    T loss = 0;
    OK(DA(T, da_linmod_evaluate_model, h, m, p, E.v.data(), E.ld, pred.data(), want ? obs.data() : nullptr, want ? &loss : nullptr));
    L l = 0, lm = 0;
    for (da_int i = 0; i < m; i++) {
        L v = c.ic ? co[p] : 0, mag = fabsl(v);
        for (da_int j = 0; j < p; j++)
            v += (L)E(i, j) * co[j], mag += fabsl((L)E(i, j) * co[j]);
        REQUIRE(fabsl(pred.data()[i] - v) <= EPS<T> * 10 * (p + 2) * mag, "prediction", "row %d of %d features %d: %g, expected %Lg", (int)i, (int)m, (int)p, (double)pred.data()[i], v);
        l += (v - obs[i]) * (v - obs[i]) / (2 * m);
        lm += (mag + fabsl(obs[i])) * (mag + fabsl(obs[i])) / (2 * m);
    }
    if (want && c.lambda == 0)
        REQUIRE(fabsl(loss - l) <= EPS<T> * 50 * (p + m) * lm, "loss", "loss %g, expected %Lg", (double)loss, l);
    if (c.lambda == 0) {
        T info[100];
        dim = 100;
        OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
        Cost k = cost(d, false, c.sc, 0, 0);
        L f = 0, fm = 0, from = 1e-18L;
        for (T v : start)
            for (int j = 0; j < k.p; j++)
                for (L q : k.x[j])
                    from = std::max(from, fabsl(v * q) + fabsl(v));
        for (int i = 0; i < k.n; i++) {
            L v = c.ic ? co[p] : 0, mag = fabsl(v) + fabsl(k.y[i]);
            for (da_int j = 0; j < p; j++)
                v += k.x[j][i] * co[j], mag += fabsl(k.x[j][i] * co[j]);
            f += (v - k.y[i]) * (v - k.y[i]) / (2 * k.n), fm += mag * mag / (2 * k.n);
        }
        if (c.m == "coord" && !std::is_same_v<T, double> && info[2] >= (T)1000)
            return;
        REQUIRE(fabsl(info[0] - f) <= EPS<T> * 50 * (k.n + p) * (fm + from * from) + 1e-4L * f, "objective", "%s scaling %s ic %d n %d p %d: the reported cost is %g, the coefficients give %Lg", c.m.c_str(), scale_name[c.sc], c.ic, k.n, k.p, (double)info[0], f);
    }
}
template <class T> void life(Gen &g) {
    da_order o = gen_order(g);
    Handle h;
    init<T>(h, da_handle_linmod);
    opt_order(h, o);
    OK(DA(T, da_linmod_select_model, h, linmod_model_mse));
    bool first = true, data = false, trained = false;
    Case c;
    Prob<T> d;
    std::vector<T> used; // start of the fit that counts
    da_int n = 0, p = 0;
    int steps = (int)g.range(2, 6);
    for (int s = 0; s < steps; s++) {
        int what = first ? 0 : (int)g.below(6);
        if (what == 0 || what == 1) {
            c = gen_case<T>(g, g.flip());
            c.mixed = std::is_same_v<T, double> && g.chance(1, 6) && (c.m == "cg" || c.m == "lbfgs" || c.m == "coord");
            apply<T>(g, h, c);
            trained = false;
        }
        if (what == 0 || what == 2 || what == 3) {
            sizes(g, n, p);
            n = std::min<da_int>(n, 60), p = std::min<da_int>(p, 10);
            d = gen_prob<T>(g, o, n, p, !g.chance(1, 4));
            OK(DA(T, da_linmod_define_features, h, n, p, d.X.v.data(), d.X.ld, d.y.data()));
            data = true, trained = false;
        }
        if (what == 4) {
            c.ic = !c.ic;
            opt_i(h, "intercept", c.ic);
            trained = false;
        }
        if (what == 5 && g.flip()) { // another model in between
            OK(DA(T, da_linmod_select_model, h, linmod_model_logistic));
            if (g.flip())
                DA(T, da_linmod_fit, h);
            OK(DA(T, da_linmod_select_model, h, linmod_model_mse));
            trained = false;
        }
        first = false;
        g.note("step %d: %s scaling %s ic %d lambda %g alpha %g mixed %d %s n %d p %d;", what, c.m.c_str(), scale_name[c.sc], c.ic, c.lambda, c.alpha, c.mixed, tn<T>(), (int)n, (int)p);
        if (!data || !divisible(d, c))
            throw pbt::Discard();
        std::vector<T> start;
        bool dual = c.m == "cg" && n < p + c.ic;
        da_int nc = p + c.ic;
        if (!c.mixed && g.chance(1, 3)) {
            start.resize(g.flip() ? (dual ? n : nc) : g.range(1, nc + 3));
            for (T &v : start)
                v = (T)g.normal();
        }
        da_status st = start.empty() ? DA(T, da_linmod_fit, h) : DA(T, da_linmod_fit_start, h, (da_int)start.size(), start.data());
        if (trained) {
            REQUIRE(st == da_status_success, "refit", "fitting a fitted model gave %d", (int)st);
        } else if (refused(c.m, n >= p + c.ic, c.ic, c.sc, c.alpha, c.lambda)) {
            REQUIRE(st == da_status_incompatible_options, "refusal", "%s scaling %s ic %d n %d p %d lambda %g alpha %g gave %d", c.m.c_str(), scale_name[c.sc], c.ic, (int)n, (int)p, c.lambda, c.alpha, (int)st);
            std::vector<T> co(nc);
            REQUIRE(DA(T, da_handle_get_result, h, da_linmod_coef, &nc, co.data()) != da_status_success, "stale", "coefficients after a refused fit");
            continue;
        } else {
            if (c.m == "qr" && !sound(d, c))
                throw pbt::Discard();
            REQUIRE(st == da_status_success, "fit", "%s scaling %s ic %d n %d p %d lambda %g alpha %g start %d mixed %d gave %d", c.m.c_str(), scale_name[c.sc], c.ic, (int)n, (int)p, c.lambda, c.alpha, (int)start.size(), c.mixed, (int)st);
        }
        if (!trained)
            used = start;
        trained = true;
        g.nontrivial(s > 0);
        judge<T>(g, h, d, c, s ? "later fit" : "fit", &used);
        evaluate<T>(g, h, d, c, o, used);
    }
}
PROPERTY(C14, life, 3000*5, 30000, "more than one fit with one handle") {
    g.flip() ? life<double>(g) : life<float>(g);
}
PROPERTY(C14, direct, 3000*5, 30000, "at least two samples with different responses") {
    g.flip() ? one<double>(g, 0) : one<float>(g, 0);
}
PROPERTY(C14, elastic_net, 1500*5, 15000, "at least two samples with different responses") {
    g.flip() ? one<double>(g, 1) : one<float>(g, 1);
}
