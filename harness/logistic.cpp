// C15: logistic regression: the cost at the fitted coefficients, and the labels predicted from them.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
typedef std::vector<L> LV;
template <class T> struct Prob {
    Mat<T> X;
    std::vector<T> y;
    int K;
};
template <class T> Prob<T> gen_prob(Gen &g, da_order o, da_int n, da_int p, int K) {
    Prob<T> r;
    r.K = K;
    r.X = Mat<T>(n, p, o, (o == row_major ? p : n) + gen_extra(g));
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    double sc = s.pick({1.0, 1.0, 0.2, 5.0}), noise = s.pick({0.3, 1.0, 3.0, 0.0}), of = s.chance(1, 3) ? 2 : 0;
    std::vector<double> w(K * (p + 1));
    for (double &v : w)
        v = s.normal();
    r.y.resize(n);
    for (da_int i = 0; i < n; i++) {
        for (da_int j = 0; j < p; j++)
            r.X(i, j) = (T)(sc * (s.normal() + of));
        int c = 0;
        double best = -1e300;
        for (int k = 0; k < K; k++) {
            double v = w[k * (p + 1) + p] + noise * s.normal();
            for (da_int j = 0; j < p; j++)
                v += r.X(i, j) / sc * w[k * (p + 1) + j];
            if (v > best)
                best = v, c = k;
        }
        r.y[i] = (T)c;
    }
    r.y[s.below(n)] = (T)(K - 1); // the largest label defines the number of classes
    g.note("n %d p %d K %d scale %g noise %g", (int)n, (int)p, K, sc, noise);
    return r;
}
// parameters b[k][j], j = p is the intercept; rsc: the last class has none
struct Model {
    int rows, K, p;
    bool ic, rsc;
    L lambda;
    int nv() const { return rows * (p + ic); }
};
template <class T> L value(const Model &m, const Prob<T> &d, const LV &b, LV *grad, std::vector<LV> *hess) {
    int q = m.p + m.ic, n = (int)d.X.n, nv = m.nv();
    L f = 0;
    if (grad)
        grad->assign(nv, 0);
    if (hess)
        hess->assign(nv, LV(nv, 0));
    LV s(m.K), x(q);
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < m.p; j++)
            x[j] = d.X(i, j);
        if (m.ic)
            x[m.p] = 1;
        int base = 0; // two classes: one row, for class 1 against class 0
        L mx = 0;
        for (int k = 0; k < m.K; k++)
            s[k] = 0;
        for (int r = 0; r < m.rows; r++) {
            L v = 0;
            for (int j = 0; j < q; j++)
                v += b[r * q + j] * x[j];
            s[m.K == 2 ? 1 : r] = v;
        }
        mx = *std::max_element(s.begin(), s.end());
        L z = 0;
        for (L v : s)
            z += expl(v - mx);
        int c = (int)std::lround((double)d.y[i]);
        f += mx + logl(z) - s[c];
        (void)base;
        if (grad || hess)
            for (int r = 0; r < m.rows; r++) {
                int k = m.K == 2 ? 1 : r;
                L pk = expl(s[k] - mx) / z;
                if (grad)
                    for (int j = 0; j < q; j++)
                        (*grad)[r * q + j] += (pk - (c == k)) * x[j];
                if (hess)
                    for (int t = 0; t < m.rows; t++) {
                        int l = m.K == 2 ? 1 : t;
                        L pl = expl(s[l] - mx) / z, h = pk * ((k == l) - pl);
                        for (int j = 0; j < q; j++)
                            for (int e = 0; e < q; e++)
                                (*hess)[r * q + j][t * q + e] += h * x[j] * x[e];
                    }
            }
    }
    // the recorded finding: only the first class is penalized with the reference-class constraint
    int pen = m.rsc && m.K > 2 ? 1 : m.rows;
    for (int r = 0; r < pen; r++)
        for (int j = 0; j < m.p; j++) {
            f += m.lambda / 2 * b[r * q + j] * b[r * q + j];
            if (grad)
                (*grad)[r * q + j] += m.lambda * b[r * q + j];
            if (hess)
                (*hess)[r * q + j][r * q + j] += m.lambda;
        }
    return f;
}
static bool solve(std::vector<LV> a, LV r, LV &x) { // symmetric positive semi-definite, slightly damped
    int n = (int)r.size();
    L mx = 0;
    for (int i = 0; i < n; i++)
        mx = std::max(mx, a[i][i]);
    for (int i = 0; i < n; i++)
        a[i][i] += mx * 1e-14L + 1e-30L;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j <= i; j++) {
            L v = a[i][j];
            for (int k = 0; k < j; k++)
                v -= a[i][k] * a[j][k];
            if (i == j) {
                if (v <= 0)
                    return false;
                a[i][i] = sqrtl(v);
            } else
                a[i][j] = v / a[j][j];
        }
    }
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < i; k++)
            r[i] -= a[i][k] * r[k];
        r[i] /= a[i][i];
    }
    for (int i = n - 1; i >= 0; i--) {
        for (int k = i + 1; k < n; k++)
            r[i] -= a[k][i] * r[k];
        r[i] /= a[i][i];
    }
    x = r;
    return true;
}
// the minimum by Newton's method; false when it is not attained (separable classes)
template <class T> bool minimum(const Model &m, const Prob<T> &d, L &best, L &size) {
    LV b(m.nv(), 0), g, st;
    std::vector<LV> h;
    L f = value(m, d, b, &g, &h);
    for (int it = 0; it < 60; it++) {
        if (!solve(h, g, st))
            return false;
        L dec = 0;
        for (int i = 0; i < m.nv(); i++)
            dec += st[i] * g[i];
        if (dec < 1e-14L * (1 + f)) {
            best = f, size = 0;
            for (L v : b)
                size = std::max(size, fabsl(v));
            return size < 30;
        }
        L t = 1;
        for (int q = 0; q < 40; q++, t /= 2) {
            LV c = b;
            for (int i = 0; i < m.nv(); i++)
                c[i] -= t * st[i];
            L fc = value<T>(m, d, c, nullptr, nullptr);
            if (fc <= f - 1e-4L * t * dec) {
                b = c;
                break;
            }
        }
        f = value(m, d, b, &g, &h);
    }
    return false;
}
struct Case {
    bool rsc, ic;
    double lambda;
    bool mixed;
};
template <class T> void apply(da_handle h, const Case &c) {
    opt_s(h, "logistic constraint", c.rsc ? "rsc" : "ssc");
    opt_i(h, "intercept", c.ic);
    opt_r<T>(h, "lambda", (T)c.lambda);
    opt_r<T>(h, "alpha", (T)0);
    opt_s(h, "mixed precision", c.mixed ? "yes" : "no");
    bool d = std::is_same_v<T, double>;
    opt_r<T>(h, "optim convergence tol", (T)(d ? 1e-7 : 1e-4));
    opt_r<T>(h, "optim progress factor", (T)(d ? 10 : 1));
    opt_i(h, "optim iteration limit", 20000);
}
// the coefficients as rows of the model, from the way they are handed out (see the recorded finding for rsc)
template <class T> LV decode(const Model &m, da_order o, const std::vector<T> &co) {
    int q = m.p + m.ic;
    LV flat(co.begin(), co.end()), b(m.nv());
    if (m.K == 2)
        return flat;
    if (o == row_major) { // undo the transposition of a column-major rows x q array
        LV t(flat);
        for (int r = 0; r < m.rows; r++)
            for (int j = 0; j < q; j++)
                t[r + j * m.rows] = flat[r * q + j];
        flat = t;
    }
    for (int r = 0; r < m.rows; r++)
        for (int j = 0; j < q; j++)
            b[r * q + j] = m.rsc ? flat[r * q + j] : flat[r + j * m.rows];
    return b;
}
template <class T> void judge(Gen &g, da_handle h, const Prob<T> &d, const Case &c, da_order o, std::vector<T> &co, const std::vector<T> &start) {
    Model m{c.rsc || d.K == 2 ? d.K - 1 : d.K, d.K, (int)d.X.p, c.ic, c.rsc, (L)(T)c.lambda};
    L big = 0;
    da_int nc = m.nv(), dim = nc;
    co.assign(nc, 0);
    OK(DA(T, da_handle_get_result, h, da_linmod_coef, &dim, co.data()));
    REQUIRE(dim == nc, "count", "%d coefficients, expected %d", (int)dim, (int)nc);
    T info[100];
    dim = 100;
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
    REQUIRE(info[10] == d.X.n && info[11] == d.X.p && info[12] == d.K && info[13] == m.rows && info[14] == m.p + m.ic, "info", "sizes reported: %g %g %g %g %g", (double)info[10], (double)info[11], (double)info[12], (double)info[13], (double)info[14]);
    for (T v : co)
        REQUIRE(std::isfinite(v), "finite", "a coefficient is %g", (double)v);
    LV b = decode(m, o, co);
    L f = value<T>(m, d, b, nullptr, nullptr), z = value<T>(m, d, LV(m.nv(), 0), nullptr, nullptr), best = 0, size = 0;
    bool dbl = std::is_same_v<T, double>;
    L mag = 0; // size of the terms of the scores: what the working precision loses
    for (int i = 0; i < d.X.n; i++)
        for (int r = 0; r < m.rows; r++)
            for (int j = 0; j < m.p + m.ic; j++)
                mag += fabsl(b[r * (m.p + m.ic) + j] * (j < m.p ? (L)d.X(i, j) : 1));
    for (T v : start)
        big = std::max(big, fabsl(v));
    REQUIRE(fabsl(f - info[0]) <= (dbl ? 1e-9L : 1e-3L) * (f + z) + EPS<T> * 30 * mag, "objective", "the reported cost is %g, the coefficients give %Lg", (double)info[0], f);
    REQUIRE(f <= z * (1 + (dbl ? 1e-9L : 1e-3L)) + EPS<T> * 30 * mag + (big > 20 ? 1e30L : 0), "descent", "the cost %Lg is above the one without a model %Lg", f, z);
    bool has = minimum(m, d, best, size);
    if (getenv("DBG"))
        fprintf(stderr, "%s rsc %d ic %d la %g K %d n %d p %d: f %Lg best %Lg z %Lg gap/z %Lg iters %g size %Lg\n", tn<T>(), c.rsc, c.ic, c.lambda, d.K, (int)d.X.n, (int)d.X.p, f, best, z, (f - best) / z, (double)info[2], size);
    if (has && (dbl || big < 20) && info[2] < (T)19999) {
        g.label(c.rsc ? "minimum rsc" : "minimum ssc");
        REQUIRE(f - best <= (dbl ? 1e-6L : 2e-2L) * (1 + z), "cost", "%s rsc %d intercept %d lambda %g K %d n %d p %d: cost %Lg, %Lg is possible (no model %Lg)", tn<T>(), c.rsc, c.ic, c.lambda, d.K, (int)d.X.n, (int)d.X.p, f, best, z);
    } else
        g.label("no minimum");
}
template <class T> void predict(Gen &g, da_handle h, const Prob<T> &d, const Case &c, da_order o, const std::vector<T> &co) {
    Model m{c.rsc || d.K == 2 ? d.K - 1 : d.K, d.K, (int)d.X.p, c.ic, c.rsc, (L)(T)c.lambda};
    LV b = decode(m, o, co);
    da_int n = g.range(1, 40), p = d.X.p;
    Mat<T> Z(n, p, o, (o == row_major ? p : n) + gen_extra(g));
    Gen s;
    s.rng = g.below(1u << 30) * 77777 + 5;
    bool far = s.chance(1, 4); // scores large enough to overflow the exponential
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            Z(i, j) = i < d.X.n && !far ? d.X(i, j) : (T)(s.normal() * (far ? 300 : 3));
    std::vector<T> pr(n, -5), ob(n);
    for (T &v : ob)
        v = (T)s.below(d.K);
    bool score = g.flip();
    T loss = -1;
    auto zc = Z;
    OK(DA(T, da_linmod_evaluate_model, h, n, p, Z.data(), Z.ld, pr.data(), score ? ob.data() : nullptr, score ? &loss : nullptr));
    REQUIRE(!memcmp(zc.data(), Z.data(), Z.v.size() * sizeof(T)), "input", "evaluate changed its input");
    int q = m.p + m.ic;
    da_int hit = 0;
    for (da_int i = 0; i < n; i++) {
        LV sc(m.K, 0), mag(m.K, 0);
        for (int r = 0; r < m.rows; r++)
            for (int j = 0; j < q; j++) {
                L t = b[r * q + j] * (j < m.p ? (L)Z(i, j) : 1);
                sc[m.K == 2 ? 1 : r] += t, mag[m.K == 2 ? 1 : r] += fabsl(t);
            }
        L top = *std::max_element(sc.begin(), sc.end()), big = *std::max_element(mag.begin(), mag.end());
        int k = (int)pr[i];
        REQUIRE(k == pr[i] && k >= 0 && k < m.K, "label", "prediction %g", (double)pr[i]);
        REQUIRE(sc[k] >= top - EPS<T> * 40 * (p + 2) * (big + 1), "argmax", "%s rsc %d K %d p %d: class %d with score %Lg predicted, the largest score is %Lg%s", tn<T>(), c.rsc, d.K, (int)p, k, sc[k], top, far ? " (far)" : "");
        hit += pr[i] == ob[i];
    }
    if (score)
        REQUIRE(fabsl(loss - (L)hit / n) <= EPS<T> * 4, "score", "score %g, %d of %d labels are right", (double)loss, (int)hit, (int)n);
    g.label(far ? "far points" : "near points");
}
template <class T> void run(Gen &g) {
    da_order o = gen_order(g);
    Handle h;
    init<T>(h, da_handle_linmod);
    opt_order(h, o);
    OK(DA(T, da_linmod_select_model, h, linmod_model_logistic));
    int steps = (int)g.range(1, 4);
    Prob<T> d;
    Case c{};
    std::vector<T> co;
    bool same = false;
    for (int s = 0; s < steps; s++) {
        int what = s == 0 ? 0 : (int)g.below(4);
        if (what == 0) {
            int K = g.chance(1, 3) ? 2 : (int)g.range(3, 5);
            da_int n = g.range(2, g.thorough ? 300 : 120), p = g.range(1, 7);
            d = gen_prob<T>(g, o, n, p, K);
            OK(DA(T, da_linmod_define_features, h, n, p, d.X.data(), d.X.ld, d.y.data()));
            same = false;
        }
        if (what <= 1) {
            c.rsc = g.flip(), c.ic = g.flip();
            c.lambda = g.chance(1, 5) ? 0 : (double)(T)pow(10, g.uniform(-2, 1.5));
            c.mixed = std::is_same_v<T, double> && g.chance(1, 8);
            same = false;
        }
        if (what == 2) // the regularization only
            c.lambda = (double)(T)pow(10, g.uniform(-2, 1.5));
        apply<T>(h, c);
        g.note("%s step %d rsc %d ic %d lambda %g mixed %d %s", tn<T>(), what, c.rsc, c.ic, c.lambda, c.mixed, on(o));
        auto copy = d;
        std::vector<T> start;
        if (same && g.chance(2, 3)) {
            start = co;
            g.note("warm start");
            OK(DA(T, da_linmod_fit_start, h, (da_int)co.size(), co.data()));
        } else
            OK(DA(T, da_linmod_fit, h));
        REQUIRE(!memcmp(copy.X.data(), d.X.data(), d.X.v.size() * sizeof(T)) && copy.y == d.y, "input", "the fit changed its data");
        judge(g, h, d, c, o, co, start);
        predict(g, h, d, c, o, co);
        same = true;
    }
    std::set<double> u(d.y.begin(), d.y.end());
    g.nontrivial(u.size() > 1);
}
PROPERTY(C15, fit, 8000, 60000, "at least two classes are present") {
    if (g.chance(2, 3))
        run<double>(g);
    else
        run<float>(g);
}
// what is refused, and what a fit that cannot be done leaves
PROPERTY(C15, refused, 600, 3000, "the request is one that cannot be served") {
    da_order o = gen_order(g);
    Handle h;
    init<double>(h, da_handle_linmod);
    opt_order(h, o);
    OK(da_linmod_select_model_d(h, linmod_model_logistic));
    da_int n = g.range(2, 20), p = g.range(1, 4);
    auto d = gen_prob<double>(g, o, n, p, 2);
    int what = (int)g.below(3);
    if (what == 0)
        for (double &v : d.y)
            v = 0;
    OK(da_linmod_define_features_d(h, n, p, d.X.data(), d.X.ld, d.y.data()));
    if (what == 1) {
        opt_r<double>(h, "lambda", 0.5);
        opt_r<double>(h, "alpha", 0.5);
    }
    static const char *ms[] = {"cholesky", "svd", "qr", "cg", "coord"};
    if (what == 2)
        opt_s(h, "optim method", ms[g.below(5)]);
    g.note("what %d", what);
    da_status st = da_linmod_fit_d(h);
    REQUIRE(what == 0 ? st == da_status_invalid_input : st == da_status_incompatible_options || st == da_status_not_implemented, "status", "request %d gave %d", what, (int)st);
    std::vector<double> pr(n);
    REQUIRE(da_linmod_evaluate_model_d(h, n, p, d.X.data(), d.X.ld, pr.data(), nullptr, nullptr) != da_status_success, "untrained", "a model that was not fitted predicts");
    g.nontrivial(true);
}
static bool rsc_case(std::vector<double> &co, double X[12], double y[6], double lambda) {
    double x[12] = {1, 2, 3, 4, 5, 6, 1, 3, 5, 8, 7, 9}, t[6] = {0, 1, 0, 1, 2, 2};
    memcpy(X, x, sizeof x), memcpy(y, t, sizeof t);
    Handle h;
    init<double>(h, da_handle_linmod);
    OK(da_linmod_select_model_d(h, linmod_model_logistic));
    OK(da_linmod_define_features_d(h, 6, 2, X, 6, y));
    opt_s(h, "logistic constraint", "rsc");
    opt_i(h, "intercept", 1);
    opt_r<double>(h, "lambda", lambda);
    opt_r<double>(h, "optim convergence tol", 1e-8);
    OK(da_linmod_fit_d(h));
    da_int dim = 6;
    co.resize(6);
    OK(da_handle_get_result_d(h, da_linmod_coef, &dim, co.data()));
    return true;
}
static double rsc_cost(const std::vector<double> &co, const double *X, const double *y, double lambda, bool documented, double pen) {
    double f = 0;
    for (int i = 0; i < 6; i++) {
        double s[3] = {0, 0, 0}, z = 0;
        for (int k = 0; k < 2; k++)
            for (int j = 0; j < 3; j++)
                s[k] += (documented ? co[k + 2 * j] : co[3 * k + j]) * (j < 2 ? X[i + 6 * j] : 1);
        double m = std::max({s[0], s[1], s[2]});
        for (double v : s)
            z += exp(v - m);
        f += m + log(z) - s[(int)y[i]];
    }
    for (int k = 0; k < 2; k++)
        for (int j = 0; j < 2; j++)
            f += (k == 0 ? 1 : pen) * lambda / 2 * pow(documented ? co[k + 2 * j] : co[3 * k + j], 2);
    return f;
}
static bool probe_rsc_penalty() {
    std::vector<double> co;
    double X[12], y[6];
    rsc_case(co, X, y, 1);
    return std::min(rsc_cost(co, X, y, 1, false, 1), rsc_cost(co, X, y, 1, true, 1)) > 6 * log(3.0);
}
static bool probe_rsc_layout() {
    std::vector<double> co;
    double X[12], y[6];
    rsc_case(co, X, y, 1);
    return rsc_cost(co, X, y, 1, true, 0) > rsc_cost(co, X, y, 1, false, 0) * 1.01;
}
static pbt::FReg reg_rsc_penalty({"C15", "rsc-penalty", "with the reference-class constraint and more than two classes only the coefficients of class 0 are penalized (6 points, 3 classes, lambda 1: the cost is above the one of the zero model; python_interface/tests/linmod_test.py holds the present values)", probe_rsc_penalty});
static pbt::FReg reg_rsc_layout({"C15", "rsc-layout", "with the reference-class constraint and more than two classes the coefficients are not the (classes - 1) x (features + intercept) array they are announced as: the rows of class k follow one another in column-major order and are scrambled in row-major order (same 6 points)", probe_rsc_layout});
