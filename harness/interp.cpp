// C20: cubic spline interpolation, driven as a history of calls on one handle against a
// model that keeps the current sites, values, derivatives and boundary conditions and
// solves the spline equations in long double with a componentwise error bound.
#include "da.hpp"
#include "pbt_main.cpp"

typedef long double L;
enum Kind { NATURAL, CLAMPED, CUSTOM, HERMITE };
static const char *KINDS[] = {"natural", "clamped zero", "custom", "hermite"};

// row-wise (tridiagonal) solve without pivoting; all our systems are diagonally dominant
static void thomas(std::vector<L> lo, std::vector<L> d, std::vector<L> up, std::vector<L> &r) {
    size_t n = d.size();
    for (size_t i = 1; i < n; i++) {
        L w = lo[i] / d[i - 1];
        d[i] -= w * up[i - 1];
        r[i] -= w * r[i - 1];
    }
    r[n - 1] /= d[n - 1];
    for (size_t i = n - 1; i-- > 0;)
        r[i] = (r[i] - up[i] * r[i + 1]) / d[i];
}

struct Coef {
    L c[4], e[4]; // a, b, c, d and their error bounds
};

template <class T> struct Model {
    da_int n = 0;
    bool uniform = false;
    T x0 = 0, x1 = 0;
    std::vector<T> xs; // sites as given (non-uniform)
    Mat<T> y, yp;
    bool has_sites = false, has_y = false, has_yp = false, has_bc = false;
    int lo = 0, ro = 0;
    std::vector<T> lv, rv;
    int kind = NATURAL;

    L site(da_int i) const { return uniform ? (L)x0 + ((L)x1 - (L)x0) * i / (n - 1) : (L)xs[i]; }
    L slack() const { return uniform ? 4 * EPS<T> * std::max(std::fabs((L)x0), std::fabs((L)x1)) : 0; }
    da_status ready() const {
        if (!has_sites || !has_y)
            return da_status_out_of_date;
        if (kind == CUSTOM && (!has_bc || (da_int)lv.size() != y.p))
            return da_status_out_of_date;
        if (kind == HERMITE && (!has_yp || yp.p != y.p))
            return da_status_out_of_date;
        return da_status_success;
    }
    // the spline of dimension d
    std::vector<Coef> solve(da_int d) const {
        std::vector<Coef> r(n - 1);
        const L eps = EPS<T>;
        std::vector<L> h(n - 1), s(n - 1), es(n - 1); // widths, slopes, slope errors
        for (da_int i = 0; i < n - 1; i++) {
            h[i] = site(i + 1) - site(i);
            s[i] = ((L)y(i + 1, d) - (L)y(i, d)) / h[i];
            es[i] = 8 * eps * std::fabs(s[i]) + 1e-300L;
        }
        if (kind == HERMITE) {
            for (da_int i = 0; i < n - 1; i++) {
                L a = yp(i, d), b = yp(i + 1, d), D = y(i + 1, d) - (L)y(i, d);
                Coef &c = r[i];
                c.c[0] = y(i, d);
                c.c[1] = a;
                c.c[2] = 3 * s[i] / h[i] - (2 * a + b) / h[i];
                c.c[3] = -2 * s[i] / (h[i] * h[i]) + (a + b) / (h[i] * h[i]);
                (void)D;
                c.e[0] = c.e[1] = 0;
                L m = std::fabs(s[i]) + std::fabs(a) + std::fabs(b);
                c.e[2] = 30 * eps * m / h[i];
                c.e[3] = 40 * eps * m / (h[i] * h[i]);
            }
            return r;
        }
        // unknowns: second derivatives at the sites
        std::vector<L> lo_(n), di(n), up(n), z(n), ez(n);
        for (da_int i = 1; i < n - 1; i++) {
            lo_[i] = h[i - 1];
            di[i] = 2 * (h[i - 1] + h[i]);
            up[i] = h[i];
            z[i] = 6 * (s[i] - s[i - 1]);
            ez[i] = 6 * (es[i] + es[i - 1]) + 8 * eps * (6 * std::fabs(s[i]) + 6 * std::fabs(s[i - 1]));
        }
        auto bc = [&](bool left, int order, L v) {
            da_int i = left ? 0 : n - 1, k = left ? 0 : n - 2;
            if (order == 2) {
                di[i] = 1;
                (left ? up : lo_)[i] = 0;
                z[i] = v;
                ez[i] = 0;
            } else {
                di[i] = 2 * h[k];
                (left ? up : lo_)[i] = h[k];
                z[i] = left ? 6 * (s[k] - v) : 6 * (v - s[k]);
                ez[i] = 6 * es[k] + 8 * eps * (6 * std::fabs(s[k]) + 6 * std::fabs(v));
            }
        };
        bc(true, kind == NATURAL ? 2 : kind == CLAMPED ? 1 : lo, kind == CUSTOM ? (L)lv[d] : 0);
        bc(false, kind == NATURAL ? 2 : kind == CLAMPED ? 1 : ro, kind == CUSTOM ? (L)rv[d] : 0);
        thomas(lo_, di, up, z);
        // |error| <= (comparison matrix)^-1 (perturbation of right-hand side and matrix)
        std::vector<L> nlo(lo_), nup(up);
        L hmax = *std::max_element(h.begin(), h.end()), zmax = 0;
        for (L v : z)
            zmax = std::max(zmax, std::fabs(v));
        for (da_int i = 0; i < n; i++) {
            ez[i] += 16 * eps * (di[i] * std::fabs(z[i]) + (i ? lo_[i] * std::fabs(z[i - 1]) : 0) +
                                 (i < n - 1 ? up[i] * std::fabs(z[i + 1]) : 0));
            // a prescribed second derivative is an equation of scale 1 among equations of
            // scale h: elimination with pivoting is accurate relative to the larger scale
            if (kind == CUSTOM && ((i == 0 && lo == 2) || (i == n - 1 && ro == 2)))
                ez[i] += 64 * eps * hmax * zmax;
            nlo[i] = -lo_[i];
            nup[i] = -up[i];
        }
        thomas(nlo, di, nup, ez);
        for (da_int i = 0; i < n - 1; i++) {
            Coef &c = r[i];
            c.c[0] = y(i, d);
            c.c[1] = s[i] - h[i] * z[i + 1] / 6 - h[i] * z[i] / 3;
            c.c[2] = z[i] / 2;
            c.c[3] = (z[i + 1] - z[i]) / (6 * h[i]);
            c.e[0] = 0;
            c.e[1] = es[i] + h[i] * (ez[i + 1] + 2 * ez[i]) / 3 + 10 * eps * (std::fabs(s[i]) + h[i] * (std::fabs(z[i]) + std::fabs(z[i + 1])));
            c.e[2] = ez[i];
            c.e[3] = (ez[i] + ez[i + 1] + 10 * eps * (std::fabs(z[i]) + std::fabs(z[i + 1]))) / (3 * h[i]);
        }
        return r;
    }
    bool contains(da_int j, L x) const { // is cell j a right answer for x?
        L s = slack();
        if (j < 0 || j > n - 2)
            return false;
        return (j == 0 || x >= site(j) - s) && (j == n - 2 || x <= site(j + 1) + s);
    }
};

template <class T> static L poly(const T *c, L h, int ord, L &mag) {
    L a = c[0], b = c[1], q = c[2], t = c[3], f = std::fabs(h);
    switch (ord) {
    case 0: mag = std::fabs(a) + f * (std::fabs(b) + f * (std::fabs(q) + f * std::fabs(t))); return a + h * (b + h * (q + h * t));
    case 1: mag = std::fabs(b) + f * (2 * std::fabs(q) + 3 * f * std::fabs(t)); return b + h * (2 * q + 3 * h * t);
    case 2: mag = 2 * std::fabs(q) + 6 * f * std::fabs(t); return 2 * q + 6 * h * t;
    case 3: mag = 6 * std::fabs(t); return 6 * t;
    default: mag = 0; return 0;
    }
}

template <class T> static std::vector<T> gen_sites(Gen &g, da_int n) {
    std::vector<T> x(n);
    int k = (int)g.below(6);
    T cur = k == 4 ? (T)g.range(-1000, 1000) : (T)g.range(-5, 5);
    double ratio = std::pow(10.0, g.uniform(0, 3.5)), gap = 1;
    if (k == 5)
        cur = (T)(g.flip() ? 0.1 : -7.3), gap = g.pick({0.1, 0.3, 0.01, 1e-3});
    for (da_int i = 0; i < n; i++) {
        x[i] = cur;
        double w;
        switch (k) {
        case 0: w = (double)g.range(1, 4); break;               // small integers
        case 1: w = 0.01 + g.unit(); break;                     // uneven
        case 2: w = g.chance(1, 5) ? 1.0 : 1.0 / ratio; break;  // clusters
        case 3: w = gap; gap = std::min(50.0, gap * 1.07); break; // growing
        case 4: w = 1 + g.unit() * 1e-3; break;                 // nearly even, off the origin
        default: w = gap; break;                                // an even grid with rounding
        }
        T next = (T)(cur + (T)w);
        if (!(next > cur))
            next = std::nextafter(cur, std::numeric_limits<T>::infinity());
        cur = next;
    }
    return x;
}

template <class T> struct Run {
    Gen &g;
    Handle h;
    Model<T> m;
    bool trained = false, was = false;
    da_order opt = column_major;
    // Arrays handed to the library are kept alive in these
    std::vector<std::vector<T>> keep;
    std::vector<std::vector<T>> all;
    explicit Run(Gen &g_) : g(g_) {}

    Mat<T> values(da_int dim) {
        da_order o = gen_order(g);
        if (o != opt) {
            opt_order(h, o);
            opt = o;
            trained = false; // an option change may or may not invalidate the model
            was = false;
        }
        return gen_mat<T>(g, m.n, dim, o);
    }
    da_int dim() { return m.has_y && !g.chance(1, 6) ? m.y.p : (da_int)g.size(1, 5); }
    void set_sites() {
        if (!m.uniform) {
            // a list out of order is refused without effect
            if (g.chance(1, 5)) {
                std::vector<T> bad = m.xs;
                da_int i = (da_int)g.below(m.n - 1);
                switch (g.below(3)) {
                case 0: bad[i + 1] = bad[i]; break;
                case 1: std::swap(bad[i], bad[i + 1]); break;
                default: bad.push_back(bad.back()); break;
                }
                g.note("bad sites");
                da_status s = DA(T, da_interpolation_set_sites, h, (da_int)bad.size(), bad.data());
                REQUIRE(s == da_status_invalid_input, "sites-status", "unsorted sites gave status %d", (int)s);
            }
            OK(DA(T, da_interpolation_set_sites, h, m.n, m.xs.data()));
        } else
            OK(DA(T, da_interpolation_set_sites_uniform, h, m.n, m.x0, m.x1));
        m.has_sites = true;
        da_status s = DA(T, da_interpolation_set_sites, h, m.n, m.uniform ? (const T *)all[0].data() : m.xs.data());
        REQUIRE(s == da_status_invalid_input, "sites-status", "setting sites twice gave status %d", (int)s);
        trained = false;
    }
    void set_values(bool deriv, da_int p) {
        Mat<T> v = values(p);
        if (!deriv && g.chance(1, 5)) { // a cubic
            double c[4] = {(double)g.range(-3, 3), (double)g.range(-3, 3), (double)g.range(-2, 2), (double)g.range(-1, 1)};
            for (da_int i = 0; i < v.n; i++)
                for (da_int j = 0; j < p; j++)
                    v(i, j) = (T)(c[0] + (double)m.site(i) * (c[1] + (double)m.site(i) * (c[2] + c[3] * (double)m.site(i))));
        }
        g.note("%s(%dx%d %s ld%d)", deriv ? "derivs" : "values", (int)v.n, (int)p, on(v.order), (int)v.ld);
        keep.push_back(v.v);
        OK(DA(T, da_interpolation_set_values, h, m.n, p, keep.back().data(), v.ld, deriv ? 1 : 0));
        if (deriv)
            m.yp = v, m.has_yp = true;
        else
            m.y = v, m.has_y = true;
        trained = false;
    }
    void set_bc() {
        da_int p = dim();
        if (m.has_y && p != m.y.p) {
            std::vector<T> z(p, (T)1);
            da_status s = DA(T, da_interpolation_set_boundary_conditions, h, p, 1, z.data(), 1, z.data());
            REQUIRE(s == da_status_invalid_input, "bc-status", "boundary conditions of the wrong dimension gave status %d", (int)s);
            return;
        }
        m.lo = (int)g.range(1, 2);
        m.ro = (int)g.range(1, 2);
        m.lv.resize(p);
        m.rv.resize(p);
        for (da_int i = 0; i < p; i++)
            m.lv[i] = (T)g.range(-6, 6), m.rv[i] = (T)g.normal();
        g.note("bc(%d,%d)", m.lo, m.ro);
        OK(DA(T, da_interpolation_set_boundary_conditions, h, p, m.lo, m.lv.data(), m.ro, m.rv.data()));
        m.has_bc = true;
        m.kind = CUSTOM;
        trained = false;
    }
    void set_kind(int k) {
        g.note("%s", KINDS[k]);
        opt_s(h, "cubic spline type", KINDS[k]);
        if (m.kind != k)
            trained = was = false;
        else
            was = false;
        m.kind = k;
    }
    void interpolate() {
        da_status want = m.ready(), got = DA(T, da_interpolation_interpolate, h);
        REQUIRE(want == got, "interpolate-status", "interpolate returned %d, expected %d", (int)got, (int)want);
        trained = was = want == da_status_success;
        if (trained)
            check();
    }
    T query() {
        da_int i = (da_int)g.below(m.n);
        T a = (T)m.site(i);
        const T inf = std::numeric_limits<T>::infinity();
        L w = m.site(m.n - 1) - m.site(0);
        switch (g.below(7)) {
        case 0: return a;
        case 1: return std::nextafter(a, inf);
        case 2: return std::nextafter(a, -inf);
        case 3: return (T)(m.site(0) - w * (L)g.unit());
        case 4: return (T)(m.site(m.n - 1) + w * (L)g.unit());
        default: return (T)(m.site(0) + w * (L)g.unit());
        }
    }
    void search() {
        if (!m.has_sites) {
            T x = 0;
            da_int c;
            da_status s = DA(T, da_interpolation_search_cells, h, 1, &x, &c);
            REQUIRE(s == da_status_invalid_input, "search-status", "search without sites returned %d", (int)s);
            return;
        }
        da_int q = (da_int)g.size(1, 40);
        std::vector<T> x(q);
        for (auto &v : x) {
            v = query();
            if (g.chance(1, 12))
                v = (T)(g.flip() ? 1 : -1) * (T)g.pick({1e10, 1e20, 1e30, 3e38});
        }
        Guarded<da_int> c(q);
        OK(DA(T, da_interpolation_search_cells, h, q, x.data(), c.data()));
        for (da_int i = 0; i < q; i++)
            REQUIRE(m.contains(c[i], x[i]), "cell", "search placed %.17g in cell %d of %d [%.17g,%.17g]%s", (double)x[i], (int)c[i], (int)m.n - 1,
                    (double)m.site(std::clamp<da_int>(c[i], 0, m.n - 2)), (double)m.site(std::clamp<da_int>(c[i], 0, m.n - 2) + 1), m.uniform ? " (uniform)" : "");
        REQUIRE(c.ok(), "guard", "cells written beyond the end");
    }
    void evaluate() {
        da_int q = (da_int)g.size(1, 30);
        std::vector<T> x(q);
        for (auto &v : x)
            v = query();
        std::vector<da_int> ord;
        int mask = (int)g.range(1, 15);
        for (int k = 0; k < 4; k++)
            if (mask >> k & 1)
                ord.push_back(k);
        if (g.chance(1, 4)) // results come in increasing order of derivative, whatever the order of the request
            std::reverse(ord.begin(), ord.end());
        if (!was) {
            if (!trained && g.chance(1, 2)) {
                Mat<T> none;
                std::vector<T> out(ord.size() * q * 5);
                if (!ever) {
                    da_status s = DA(T, da_interpolation_evaluate, h, q, x.data(), out.data(), (da_int)ord.size(), ord.data());
                    REQUIRE(s == da_status_out_of_date, "evaluate-status", "evaluate before interpolate returned %d", (int)s);
                }
            }
            return;
        }
        if (!trained) { // values or conditions changed since
            std::vector<T> out(ord.size() * q * 5);
            da_status s = DA(T, da_interpolation_evaluate, h, q, x.data(), out.data(), (da_int)ord.size(), ord.data());
            REQUIRE(s == da_status_out_of_date, "evaluate-status", "evaluate with data newer than the spline returned %d", (int)s);
            return;
        }
        da_int p = m.y.p;
        if (g.chance(1, 8)) {
            da_int bad[2] = {0, (da_int)g.pick({4, -1, 9})};
            std::vector<T> out(2 * q * p);
            da_status s = DA(T, da_interpolation_evaluate, h, q, x.data(), out.data(), 2, bad);
            REQUIRE(s == da_status_invalid_input, "evaluate-status", "derivative order %d returned %d", (int)bad[1], (int)s);
        }
        Guarded<T> out(ord.size() * q * p);
        OK(DA(T, da_interpolation_evaluate, h, q, x.data(), out.data(), (da_int)ord.size(), ord.data()));
        REQUIRE(out.ok(), "guard", "evaluate wrote beyond the end");
        std::vector<da_int> so(ord);
        std::sort(so.begin(), so.end());
        for (size_t k = 0; k < so.size(); k++)
            for (da_int d = 0; d < p; d++)
                for (da_int i = 0; i < q; i++) {
                    T got = out[(k * p + d) * q + i];
                    bool ok = false;
                    L want = 0, tol = 0;
                    for (da_int j = 0; j < m.n - 1 && !ok; j++) {
                        if (!m.contains(j, x[i]))
                            continue;
                        L mag, mag1;
                        L hx = (L)x[i] - m.site(j);
                        const T *c = &coef[(d * (m.n - 1) + j) * 4];
                        want = poly<T>(c, hx, (int)so[k], mag);
                        poly<T>(c, hx, (int)so[k] + 1, mag1);
                        tol = 12 * EPS<T> * mag + mag1 * m.slack() + 100 * (L)std::numeric_limits<T>::min();
                        ok = std::fabs((L)got - want) <= tol;
                    }
                    REQUIRE(ok, "evaluate", "derivative %d of dimension %d at %.17g is %.17g, the coefficients give %.17g", (int)so[k], (int)d, (double)x[i],
                            (double)got, (double)want);
                }
    }
    bool ever = false;
    std::vector<T> coef;
    void check() {
        ever = true;
        da_int p = m.y.p, len = 4 * (m.n - 1) * p;
        if (g.chance(1, 4)) {
            std::vector<T> r(len);
            da_int small = (da_int)g.below(len);
            da_status s = DA(T, da_handle_get_result, h, da_cubic_spline_coefficients, &small, r.data());
            REQUIRE(s == da_status_invalid_array_dimension && small == len, "result-size", "a small result array gave status %d and size %d, not %d", (int)s, (int)small, (int)len);
        }
        Guarded<T> c(len);
        da_int dim = len;
        OK(DA(T, da_handle_get_result, h, da_cubic_spline_coefficients, &dim, c.data()));
        REQUIRE(c.ok(), "guard", "coefficients written beyond the end");
        coef.assign(c.v.begin(), c.v.begin() + len);
        da_int one = 1, tr = -1;
        OK(da_handle_get_result_int(h, da_trained, &one, &tr));
        REQUIRE(tr == 1, "trained", "trained flag is %d after interpolate", (int)tr);
        T ri[8];
        da_int rn = 8;
        OK(DA(T, da_handle_get_result, h, da_rinfo, &rn, ri));
        REQUIRE(ri[0] == (T)m.n, "rinfo", "rinfo reports %g sites, not %d", (double)ri[0], (int)m.n);
        for (da_int d = 0; d < p; d++) {
            std::vector<Coef> w = m.solve(d);
            for (da_int i = 0; i < m.n - 1; i++)
                for (int k = 0; k < 4; k++) {
                    T got = coef[(d * (m.n - 1) + i) * 4 + k];
                    L tol = 4 * w[i].e[k] + 4 * EPS<T> * std::fabs(w[i].c[k]) + 1e-30L;
                    REQUIRE(std::fabs((L)got - w[i].c[k]) <= tol, "coefficients", "%s: coefficient %d of interval %d, dimension %d is %.17g, should be %.17g (tolerance %.3g)",
                            KINDS[m.kind], k, (int)i, (int)d, (double)got, (double)w[i].c[k], (double)tol);
                }
        }
        g.label(KINDS[m.kind]);
        g.nontrivial(m.n >= 3);
    }
};

template <class T> static void history(Gen &g) {
    Run<T> r(g);
    init<T>(r.h, da_handle_interpolation);
    auto &m = r.m;
    if (g.chance(1, 6)) {
        T x[2] = {0, 1};
        da_status s = DA(T, da_interpolation_set_sites, r.h, 2, x);
        REQUIRE(s == da_status_invalid_input, "model-status", "sites without a model gave status %d", (int)s);
        s = DA(T, da_interpolation_select_model, r.h, interpolation_unset);
        REQUIRE(s == da_status_invalid_input, "model-status", "selecting no model gave status %d", (int)s);
        s = DA(T, da_interpolation_select_model, r.h, (da_interpolation_model)7);
        REQUIRE(s == da_status_invalid_input, "model-status", "selecting an unknown model gave status %d", (int)s);
    }
    OK(DA(T, da_interpolation_select_model, r.h, interpolation_cubic_spline));
    m.n = (da_int)(g.chance(1, 12) ? g.range(60, g.thorough ? 2000 : 300) : g.size(2, 40));
    m.uniform = g.chance(1, 3);
    if (m.uniform) {
        m.x0 = (T)(g.flip() ? (double)g.range(-20, 20) * 0.25 : g.normal());
        double w = g.flip() ? (m.n - 1) * (double)g.range(1, 16) / 8 : 0.1 + 10 * g.unit();
        m.x1 = (T)(m.x0 + w);
        r.all.push_back(gen_sites<T>(g, m.n));
    } else
        m.xs = gen_sites<T>(g, m.n);
    g.note("%s n=%d %s", tn<T>(), (int)m.n, m.uniform ? "uniform" : "sites");
    r.keep.reserve(64);
    bool first = g.flip();
    if (first)
        r.set_sites();
    else
        r.search();
    int steps = (int)g.size(4, 16);
    for (int s = 0; s < steps; s++) {
        switch (g.below(9)) {
        case 0: r.set_values(false, r.dim()); break;
        case 1: r.set_values(true, r.dim()); break;
        case 2: r.set_bc(); break;
        case 3: r.set_kind((int)g.below(4)); break;
        case 4: r.search(); break;
        case 5: r.evaluate(); break;
        case 6:
            if (!m.has_sites) {
                r.set_sites();
                break;
            }
            [[fallthrough]];
        default: r.interpolate(); break;
        }
    }
    if (!m.has_sites)
        r.set_sites();
    if (!m.has_y)
        r.set_values(false, r.dim());
    if (m.kind == CUSTOM && m.ready() != da_status_success) {
        do
            r.set_bc();
        while (m.ready() != da_status_success);
    } else if (m.kind == HERMITE && m.ready() != da_status_success)
        r.set_values(true, m.y.p);
    r.interpolate();
    r.search();
    r.evaluate();
}

PROPERTY(C20, splines, 200000, 4000000,
         "A history of calls on one handle: sites (given, or uniform), values and derivatives in either layout with padding, boundary conditions, spline type, interpolate, cell search, evaluation; coefficients against the equations of the spline solved in long double, evaluation against the coefficients, cells against the sites; non-trivial when a spline over 3 or more sites was computed") {
    if (g.flip())
        history<float>(g);
    else
        history<double>(g);
}
