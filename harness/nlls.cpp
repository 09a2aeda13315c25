// C19: nonlinear least squares solves judged against the residuals, gradients and bounds of
// the problem, recomputed in extended precision.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
typedef std::vector<L> LV;

namespace {
template <class T> struct Prob {
    da_int n, m;
    da_order order = column_major;
    std::vector<T> A, B, D, c, q, y; // r_i = A_i x + c_i sin(B_i x) + q_i (D_i x)^2 - y_i
    std::vector<T> lo, up, w;
    bool has_lo = false, has_up = false, has_w = false;
    T sigma = 0;
    int power = 2;
    // what the callbacks saw
    da_int nf = 0, ng = 0, nh = 0, nhp = 0;
    da_int fail_f = -1, fail_g = -1, fail_h = -1; // this call and all later ones fail
    bool failed = false;
    da_int once = 0; // number of failing calls
    void *self = this;
    bool outside = false, bad_args = false;

    L dot(const std::vector<T> &M, da_int i, const T *x) const {
        L s = 0;
        for (da_int j = 0; j < n; j++)
            s += (L)M[i * n + j] * x[j];
        return s;
    }
    L res(da_int i, const T *x, L *mag = nullptr) const {
        L b = c[i] != 0 ? (L)c[i] * sinl(dot(B, i, x)) : 0, d = q[i] != 0 ? dot(D, i, x) : 0;
        L v = dot(A, i, x) + b + q[i] * d * d - y[i];
        if (mag) {
            L s = fabsl((L)y[i]) + fabsl((L)c[i]);
            for (da_int j = 0; j < n; j++)
                s += fabsl((L)A[i * n + j] * x[j]) + fabsl((L)c[i] * B[i * n + j] * x[j]) + 2 * fabsl((L)q[i] * d * D[i * n + j] * x[j]);
            *mag = s;
        }
        return v;
    }
    L jac(da_int i, da_int j, const T *x) const {
        L v = A[i * n + j];
        if (c[i] != 0)
            v += (L)c[i] * cosl(dot(B, i, x)) * B[i * n + j];
        if (q[i] != 0)
            v += 2 * (L)q[i] * dot(D, i, x) * D[i * n + j];
        return v;
    }
    L hes(da_int i, da_int j, da_int k, const T *x) const {
        L v = 0;
        if (c[i] != 0)
            v -= (L)c[i] * sinl(dot(B, i, x)) * B[i * n + j] * B[i * n + k];
        if (q[i] != 0)
            v += 2 * (L)q[i] * D[i * n + j] * D[i * n + k];
        return v;
    }
    L objective(const T *x, L *err = nullptr) const {
        L s = 0, e = 0, xx = 0;
        for (da_int i = 0; i < m; i++) {
            L mg, v = res(i, x, &mg), wi = has_w ? (L)w[i] : 1;
            s += wi * wi * v * v;
            e += wi * wi * (fabsl(v) * mg * 16 + EPS<T> * mg * mg * 64) * EPS<T>;
        }
        for (da_int j = 0; j < n; j++)
            xx += (L)x[j] * x[j];
        L reg = sigma > 0 ? (L)sigma / power * powl(xx, power / 2.0L) : 0;
        if (err)
            *err = e * (1 + n) + (s + reg) * EPS<T> * (16 + m);
        return s / 2 + reg;
    }
    LV gradient(const T *x, L *size = nullptr) const {
        LV g(n, 0);
        L xx = 0, sz = 0;
        for (da_int j = 0; j < n; j++)
            xx += (L)x[j] * x[j];
        for (da_int i = 0; i < m; i++) {
            L mg, v = res(i, x, &mg), wi = has_w ? (L)w[i] : 1;
            for (da_int j = 0; j < n; j++) {
                L d = jac(i, j, x);
                g[j] += wi * wi * v * d;
                sz += wi * wi * (mg * (fabsl(d) + fabsl((L)A[i * n + j])) + fabsl(v) * (mg + 1) * (fabsl((L)B[i * n + j]) + fabsl((L)D[i * n + j])));
            }
        }
        for (da_int j = 0; j < n && sigma > 0; j++) {
            L t = (L)sigma * (power == 3 ? sqrtl(xx) : 1) * x[j];
            g[j] += t;
            sz += fabsl(t);
        }
        if (size)
            *size = sz;
        return g;
    }
    bool inside(const T *x) const {
        for (da_int j = 0; j < n; j++)
            if ((has_lo && lo[j] > -1e20 && x[j] < lo[j]) || (has_up && up[j] < 1e20 && x[j] > up[j]))
                return false;
        return true;
    }
    bool box() const { return has_lo || has_up; }
};
template <class T> Prob<T> *self(void *d) { return (Prob<T> *)d; }
static void *current = nullptr; // da_reshp_t gets the data too; kept for the argument check

template <class T> da_int f_cb(da_int n, da_int m, void *d, const T *x, T *r) {
    auto *P = self<T>(d);
    P->bad_args |= d != current || n != P->n || m != P->m;
    da_int k = P->nf++;
    if (P->fail_f >= 0 && k >= P->fail_f) {
        P->failed = true;
        return 1 + k % 3;
    }
    P->outside |= !P->inside(x);
    for (da_int i = 0; i < m; i++)
        r[i] = (T)P->res(i, x);
    return 0;
}
template <class T> da_int g_cb(da_int n, da_int m, void *d, const T *x, T *J) {
    auto *P = self<T>(d);
    P->bad_args |= d != current || n != P->n || m != P->m;
    da_int k = P->ng++;
    if (P->fail_g >= 0 && k >= P->fail_g) {
        P->failed = true;
        return -1 - k % 3;
    }
    P->outside |= !P->inside(x);
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < n; j++)
            J[P->order == column_major ? j * m + i : i * n + j] = (T)P->jac(i, j, x);
    return 0;
}
template <class T> da_int h_cb(da_int n, da_int m, void *d, const T *x, const T *wr, T *H) {
    auto *P = self<T>(d);
    P->bad_args |= d != current || n != P->n || m != P->m;
    da_int k = P->nh++;
    if (P->fail_h >= 0 && k >= P->fail_h) {
        P->failed = true;
        return 7;
    }
    for (da_int j = 0; j < n; j++)
        for (da_int l = 0; l < n; l++) {
            L s = 0;
            for (da_int i = 0; i < m; i++)
                s += (L)wr[i] * P->hes(i, j, l, x);
            H[j * n + l] = (T)s;
        }
    return 0;
}
template <class T> da_int hp_cb(da_int n, da_int m, const T *x, const T *v, T *hp, void *d) {
    auto *P = self<T>(d);
    P->bad_args |= d != current || n != P->n || m != P->m;
    P->nhp++;
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < n; j++) {
            L s = 0;
            for (da_int l = 0; l < n; l++)
                s += P->hes(i, j, l, x) * v[l];
            hp[P->order == column_major ? i * n + j : j * m + i] = (T)s;
        }
    return 0;
}

template <class T> void run(Gen &g) {
    Prob<T> P;
    P.n = g.size(1, 8);
    P.m = g.chance(1, 8) ? g.range(1, (int)P.n) : P.n + g.size(0, 24);
    da_int n = P.n, m = P.m;
    P.order = gen_order(g);
    int kind = (int)g.below(4); // linear, sine, quadratic, all
    L cs = kind == 0 || kind == 2 ? 0 : g.pick({0.3, 1.0, 3.0}), qs = kind < 2 ? 0 : g.pick({0.05, 0.3, 1.0}), scale = g.pick({1.0, 1.0, 0.1, 10.0});
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    auto fill = [&](std::vector<T> &v, size_t k, L f) {
        v.resize(k);
        for (auto &e : v)
            e = (T)(f * (2 * s.unit() - 1));
    };
    fill(P.A, n * m, 1);
    fill(P.B, n * m, 1);
    fill(P.D, n * m, 1);
    fill(P.c, m, cs);
    fill(P.q, m, qs);
    bool exact = g.chance(1, 3); // residuals vanish somewhere
    std::vector<T> xs(n), x(n);
    for (auto &e : xs)
        e = (T)(2 * s.unit() - 1);
    P.y.assign(m, 0);
    for (da_int i = 0; i < m; i++)
        P.y[i] = (T)(P.res(i, xs.data()) + (exact ? 0 : scale * s.normal()));
    if (g.chance(1, 8))
        for (da_int i = 0; i < m; i++) // a column without influence
            P.A[i * n] = P.B[i * n] = P.D[i * n] = 0;
    for (auto &e : x)
        e = (T)(g.pick({0.0, 1.0, 3.0}) * (2 * s.unit() - 1));
    if (g.chance(1, 3)) {
        P.has_w = true;
        P.w.resize(m);
        for (auto &e : P.w)
            e = (T)(0.1 + 2 * s.unit());
    }
    P.lo.assign(n, (T)-1e21);
    P.up.assign(n, (T)1e21);
    bool badb = false;
    if (g.chance(2, 5)) {
        P.has_lo = g.chance(2, 3);
        P.has_up = !P.has_lo || g.flip();
        for (da_int j = 0; j < n; j++) {
            int k = (int)g.below(5);
            T a = (T)(xs[j] + (k == 3 ? 0.3 : -0.7) * s.unit()), b = (T)(a + s.unit());
            if (k == 0)
                continue;
            if (k == 1)
                b = a;
            if (P.has_lo)
                P.lo[j] = a;
            if (P.has_up)
                P.up[j] = b;
        }
        if (g.chance(1, 12) && P.has_lo && P.has_up) {
            P.lo[0] = 1;
            P.up[0] = (T)0.5;
            badb = true;
        }
    }
    int model = (int)g.below(4), method = (int)g.below(4), glob = g.chance(1, 4), reg = g.chance(1, 4) ? 1 + (int)g.below(2) : 0;
    static const char *mn[] = {"gauss-newton", "quasi-newton", "hybrid", "tensor-newton"}, *sn[] = {"powell-dogleg", "aint", "more-sorensen", "galahad"};
    if (g.chance(1, 3))
        model = 2, method = 3;
    bool fd = g.chance(1, 5), hes = g.chance(model == 3 ? 7 : 2, 8), hp = model == 3 && g.flip();
    if (reg && method == 0) // the dogleg and tensor models ignore the regularization: not judged
        method = 3;
    if (reg && model == 3)
        model = 2;
    if (reg) {
        P.sigma = (T)g.pick({0.01, 0.5, 3.0});
        P.power = reg + 1;
    }
    Handle h;
    init<T>(h, da_handle_nlls);
    opt_order(h, P.order);
    opt_i(h, "print level", getenv("DBG") ? 5 : 0);
    opt_s(h, "ralfit model", mn[model]);
    opt_s(h, "ralfit nlls method", sn[method]);
    opt_s(h, "ralfit globalization method", glob ? "reg" : "tr");
    if (reg) {
        opt_r<T>(h, "regularization term", P.sigma);
        opt_s(h, "regularization power", reg == 2 ? "cubic" : "quadratic");
    }
    L dt = 10.0L / 21 * sqrtl(2 * (L)EPS<T>), tg_a = 500 * sqrtl(2 * (L)EPS<T>), tg_r = dt, tf_a = dt, tf_r = dt;
    if (g.chance(1, 3)) {
        L t = g.pick({1e-2, 1e-4, 1e-6});
        opt_r<T>(h, "ralfit convergence abs tol grd", (T)t);
        tg_a = (T)t;
    }
    if (g.chance(1, 4)) {
        L t = g.pick({1e-1, 1e-3, 1e-6});
        opt_r<T>(h, "ralfit convergence abs tol fun", (T)t);
        tf_a = (T)t;
    }
    if (g.chance(1, 6)) {
        L t = g.pick({1e-1, 1e-3});
        opt_r<T>(h, "ralfit convergence rel tol grd", (T)t);
        tg_r = (T)t;
        t = g.pick({1e-1, 1e-3});
        opt_r<T>(h, "ralfit convergence rel tol fun", (T)t);
        tf_r = (T)t;
    }
    da_int maxit = g.chance(1, 5) ? g.range(1, 8) : model == 3 ? (sizeof(T) == 4 ? 5 : 30) : 200;
    opt_i(h, "ralfit iteration limit", maxit);
    bool chk = g.chance(1, 12);
    if (chk) {
        opt_s(h, "check derivatives", "yes");
        opt_r<T>(h, "derivative test tol", (T)(sizeof(T) == 4 ? 5 : 0.5));
    }
    int fits = g.chance(1, 3) ? 2 : 1;
    g.note("n %d m %d %s c %g q %g scale %g exact %d weights %d lower %d upper %d model %s method %s glob %d sigma %g power %d fd %d hes %d hp %d maxit %d check %d",
           (int)n, (int)m, on(P.order), (double)cs, (double)qs, (double)scale, (int)exact, (int)P.has_w, (int)P.has_lo, (int)P.has_up, mn[model], sn[method], glob,
           (double)P.sigma, P.power, (int)fd, (int)hes, (int)hp, (int)maxit, (int)chk);
    current = &P;
    for (int fit = 0; fit < fits; fit++) {
        P.fail_f = P.fail_g = P.fail_h = -1;
        if (g.chance(1, 6)) {
            (g.flip() ? P.fail_f : g.flip() || !hes ? P.fail_g : P.fail_h) = g.range(0, 12);
            g.note("fail %d %d %d", (int)P.fail_f, (int)P.fail_g, (int)P.fail_h);
        }
        if (fit && g.flip()) { // bounds and weights can be taken away again
            OK(DA(T, da_nlls_define_bounds, h, 0, nullptr, nullptr));
            P.has_lo = P.has_up = badb = false;
            P.lo.assign(n, (T)-1e21);
            P.up.assign(n, (T)1e21);
            OK(DA(T, da_nlls_define_weights, h, 0, nullptr));
            P.has_w = false;
            g.note("no bounds or weights");
        }
        P.nf = P.ng = P.nh = P.nhp = 0;
        P.failed = P.outside = P.bad_args = false;
        OK(DA(T, da_nlls_define_residuals, h, n, m, f_cb<T>, fd ? nullptr : g_cb<T>, hes ? h_cb<T> : nullptr, hp ? hp_cb<T> : nullptr));
        if (P.box())
            OK(DA(T, da_nlls_define_bounds, h, n, P.has_lo ? P.lo.data() : nullptr, P.has_up ? P.up.data() : nullptr));
        if (P.has_w)
            OK(DA(T, da_nlls_define_weights, h, m, P.w.data()));
        bool zero = g.chance(1, 10);
        std::vector<T> x0(zero ? std::vector<T>(n, 0) : x), x1(x0), lo0(P.lo), up0(P.up), w0(P.w);
        da_status st = DA(T, da_nlls_fit, h, n, x1.data(), &P);
        REQUIRE(P.lo == lo0 && P.up == up0 && P.w == w0, "inputs", "the bounds or weights were changed");
        REQUIRE(!P.bad_args, "arguments", "a callback got other sizes or data than defined");
        g.label(std::string("status ") + std::to_string((int)st));
        std::vector<T> info(100, -1);
        da_int ni = 100;
        da_status si = DA(T, da_handle_get_result, h, da_rinfo, &ni, info.data());
        bool warn = st == da_status_maxit || st == da_status_optimization_usrstop || st == da_status_numerical_difficulties || st == da_status_maxtime;
        if (st != da_status_success && !warn) {
            REQUIRE(st == da_status_invalid_option || st == da_status_operation_failed || st == da_status_option_invalid_bounds || st == da_status_bad_derivatives,
                    "status", "fit returned %d", (int)st);
            REQUIRE(badb ? st == da_status_option_invalid_bounds || st == da_status_invalid_option : st != da_status_option_invalid_bounds, "bounds-status", "status %d, the bounds are %s", (int)st, badb ? "wrong" : "right");
            if (st == da_status_operation_failed)
                REQUIRE(P.failed && (P.fail_f == 0 || (fd && P.fail_f >= 0 && P.fail_f <= n) || P.fail_g == 0 || P.fail_h == 0), "start-status", "the start was refused though it can be evaluated");
            if (st == da_status_invalid_option)
                REQUIRE(model == 3 || glob || method != 3 || reg, "option-status", "default methods were refused");
            REQUIRE(st != da_status_bad_derivatives || chk, "check-status", "derivatives were judged without being asked to");
            REQUIRE(x1 == x0, "error-coef", "the coefficients were changed by a fit that failed");
            g.nontrivial(st != da_status_invalid_option);
            continue;
        }
        REQUIRE(!badb, "bounds", "lower bound above upper accepted");
        OK(si);
        bool fin = true;
        for (T v : x1)
            fin = fin && std::isfinite((double)v);
        REQUIRE(fin, "finite", "coefficients are not finite (status %d)", (int)st);
        for (da_int j = 0; j < n; j++)
            REQUIRE((!P.has_lo || P.lo[j] < -1e20 || x1[j] >= P.lo[j] - 4 * EPS<T> * (std::fabs(P.lo[j]) + 1)) && (!P.has_up || P.up[j] > 1e20 || x1[j] <= P.up[j] + 4 * EPS<T> * (std::fabs(P.up[j]) + 1)), "feasible",
                    "coefficient %d is %.9g, outside of its bounds [%.9g, %.9g] (start %.9g, status %d)", (int)j, (double)x1[j], (double)P.lo[j], (double)P.up[j], (double)x0[j], (int)st);
        if (st == da_status_optimization_usrstop)
            REQUIRE(P.failed, "usrstop", "the solver stopped for callbacks that did not fail");
        if (st == da_status_maxit)
            REQUIRE(info[info_iter] >= maxit, "maxit", "the limit %d is reported after %g iterations", (int)maxit, (double)info[info_iter]);
        REQUIRE(info[info_iter] <= maxit && info[info_iter] >= 0, "iterations", "%g iterations, limit %d", (double)info[info_iter], (int)maxit);
        // the books
        REQUIRE(info[info_nevalf] == P.nf - (T)0 || info[info_nevalf] + info[info_nevalfd] == P.nf, "count-f", "%g residual evaluations (%g for derivatives), counted %d",
                (double)info[info_nevalf], (double)info[info_nevalfd], (int)P.nf);
        if (!fd)
            REQUIRE(info[info_nevalg] == P.ng, "count-g", "%g Jacobian evaluations, counted %d", (double)info[info_nevalg], (int)P.ng);
        if (!fd && !chk)
            REQUIRE(info[info_nevalfd] == 0, "count-fd", "%g evaluations for derivatives that are given", (double)info[info_nevalfd]);
        L e0, e1, f1 = P.objective(x1.data(), &e1);
        std::vector<T> p0(x0); // the start is moved into the box
        for (da_int j = 0; j < n; j++) {
            if (P.has_lo && p0[j] < P.lo[j])
                p0[j] = P.lo[j];
            if (P.has_up && p0[j] > P.up[j])
                p0[j] = P.up[j];
        }
        L f0 = P.objective(p0.data(), &e0);
        if (!reg || st == da_status_success) // the fallback to the dogleg may increase a regularized objective for some iterations
            REQUIRE(f1 <= f0 + e0 + e1 + 200 * EPS<T>, "descent", "objective %Lg at the end, %Lg at the start (status %d)", f1, f0, (int)st);
        if (!P.failed) {
            REQUIRE(fabsl(info[info_objective] - f1) <= 8 * e1, "objective", "objective reported %.9g, is %.9Lg (allowed %Lg, status %d)", (double)info[info_objective], f1, 8 * e1, (int)st);
            L sz, rn = 0;
            LV gr = P.gradient(x1.data(), &sz);
            for (da_int j = 0; j < n; j++) {
                L v = -gr[j];
                if (P.box()) {
                    L a = x1[j] + v;
                    if (P.has_lo && P.lo[j] > -1e20)
                        a = std::max(a, (L)P.lo[j]);
                    if (P.has_up && P.up[j] < 1e20)
                        a = std::min(a, (L)P.up[j]);
                    v = a - x1[j];
                }
                rn += v * v;
            }
            rn = sqrtl(rn);
            L eg = (64 + 8 * n) * EPS<T> * (sz + 1);
            L fdn = fd ? 200 * sqrtl((L)EPS<T>) * (sz + 1) * (1 + cs + qs) * (1 + n) : 0;
            REQUIRE(fabsl(info[info_grad_norm] - rn) <= eg + fdn, "gradient", "gradient norm reported %.9g, is %.9Lg (allowed %Lg, status %d)", (double)info[info_grad_norm], rn,
                    eg + fdn, (int)st);
            L nf1 = sqrtl(2 * f1), nf0 = sqrtl(2 * f0);
            if (st == da_status_success && !fd && method >= 2) { // dogleg and aint can fail on singular problems and stay where they are
                LV g0 = P.gradient(p0.data());
                L r0 = 0;
                for (da_int j = 0; j < n; j++)
                    r0 += g0[j] * g0[j];
                r0 = sqrtl(r0);
                bool small = nf1 <= 1.01L * std::max(tf_a, tf_r * nf0) + sqrtl(2 * e1);
                // the solve also ends when its steps become too small to make progress
                bool flat = rn <= 1.01L * std::max(tg_a, std::max(tg_r, 1e-3L) * (nf0 > 0 ? r0 / nf0 : 0)) * nf1 + eg;
                REQUIRE(sizeof(T) == 4 || P.has_lo || P.has_up || (glob && model != 0) || small || flat, "stationary", "success with norm %Lg (start %Lg) and gradient %Lg (start %Lg)", nf1, nf0, rn, r0);
            }
        }
        if (st == da_status_success || st == da_status_maxit)
            g.nontrivial(P.nf > 2);
        x = x1;
        if (g.flip())
            for (auto &e : x)
                e += (T)(s.unit() - 0.5);
    }
}
} // namespace

PROPERTY(C19, solve, 12000, 150000, "a solve that took steps, or was refused for its bounds, start or callbacks") {
    if (g.chance(2, 3))
        run<double>(g);
    else
        run<float>(g);
}
