// C12: DBSCAN against a reference that joins core points by union-find.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;

struct Metric {
    const char *name;
    int kind; // 0 Euclidean, 1 squared, 2 Manhattan, 3 Minkowski, 4 cosine
    bool tree;
};
static const Metric METS[] = {{"euclidean", 0, true}, {"l2", 0, true}, {"sqeuclidean", 1, false}, {"manhattan", 2, true}, {"l1", 2, true}, {"cityblock", 2, true}, {"cosine", 4, false}, {"minkowski", 3, true}};
static const char *ALG[] = {"brute", "kd tree", "ball tree", "auto"};

template <class T> struct Conf {
    Metric m;
    double p = 2;
    int alg = 0;
    da_int leaf = 30, mins = 5;
    T eps = 1;
    da_order o = column_major;
    void apply(da_handle h) const {
        opt_s(h, "metric", m.name);
        opt_s(h, "algorithm", ALG[alg]);
        opt_r<T>(h, "power", (T)p);
        opt_r<T>(h, "eps", eps);
        opt_i(h, "leaf size", leaf);
        opt_i(h, "min samples", mins);
        opt_order(h, o);
    }
    bool tree() const { return alg == 1 || alg == 2; }
    bool refused() const { return tree() && (!m.tree || (m.kind == 3 && p < 1)); }
};
template <class T> static Conf<T> gen_conf(Gen &g, bool wild = false) {
    Conf<T> c;
    do {
        c.m = METS[g.below(8)];
        c.alg = (int)g.below(4);
        c.p = c.m.kind == 3 ? g.pick({2.0, 3.0, 1.0, 1.5, 0.5}) : g.pick({2.0, 0.5});
    } while (!wild && c.refused());
    c.leaf = g.flip() ? (da_int)g.range(1, 4) : (da_int)g.range(1, 40);
    c.mins = g.chance(1, 12) ? 1 : g.chance(1, 4) ? (da_int)g.range(2, 12) : (da_int)g.range(2, 5);
    return c;
}
// shapes of data: blobs, a chain, a grid, plain
template <class T> static Mat<T> gen_data(Gen &g, da_int n, bool &exact) {
    da_int p = g.chance(1, 12) ? (da_int)g.range(14, 18) : (da_int)g.size(1, 5);
    int shape = (int)g.below(5);
    Mat<T> X(n, p, column_major, 0);
    exact = false;
    bool big = (int64_t)n * p > 1500;
    Gen s;
    if (big)
        s.rng = g.below(1u << 30) * 77777 + 5;
    Gen &r = big ? s : g;
    if (shape == 0) {
        exact = true;
        int w = (int)g.range(2, n > 100 ? 25 : 8);
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                X(i, j) = (T)r.range(-w, w);
    } else if (shape == 1) { // a chain visited in a scattered order, with gaps
        exact = true;
        da_int step = 1 + 2 * (da_int)g.below(20);
        while (std::__gcd(step, n) != 1)
            step++;
        int gap = (int)g.range(0, 9);
        da_int x = 0;
        std::vector<da_int> at(n);
        for (da_int i = 0; i < n; i++)
            at[i] = x, x += gap && r.below(12) == 0 ? 1 + gap : 1;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < p; j++)
                X(i, j) = j == 0 ? (T)at[(int64_t)i * step % n] : j == 1 ? (T)(r.below(3) == 0) : (T)1;
    } else if (shape < 4) {
        int nb = (int)g.range(1, n > 100 ? 20 : 6);
        std::vector<double> cen(nb * p);
        for (auto &c : cen)
            c = (T)(g.normal() * 4);
        for (da_int i = 0; i < n; i++) {
            int b = (int)r.below(nb);
            double sd = r.below(8) == 0 ? 3 : 0.7;
            for (da_int j = 0; j < p; j++)
                X(i, j) = (T)(cen[b * p + j] + sd * r.normal());
        }
    } else {
        X = gen_mat<T>(g, n, p, column_major, (int)g.below(5)).as(column_major, 0);
    }
    if (n > 3 && g.chance(1, 4))
        for (da_int j = 0; j < p; j++)
            X(n / 2, j) = X(0, j), X(n - 1, j) = X(0, j);
    return X;
}
template <class T> struct Ref {
    std::vector<L> d, tol; // strictly lower triangle
    da_int n;
    size_t id(da_int i, da_int j) const { return i > j ? (size_t)i * (i - 1) / 2 + j : (size_t)j * (j - 1) / 2 + i; }
    Ref(const Conf<T> &c, const Mat<T> &X, bool exact) : n(X.n) {
        d.resize((size_t)n * (n - 1) / 2), tol.resize(d.size());
        L dmax = 0;
        L u = 6 * EPS<T> * (X.p + 8);
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < i; j++) {
                L l2 = 0, l1 = 0, nx = 0, ny = 0, dot = 0, lp = 0, r, t;
                for (da_int l = 0; l < X.p; l++) {
                    L x = X(i, l), y = X(j, l), e = std::fabs(x - y);
                    l2 += e * e, l1 += e, nx += x * x, ny += y * y, dot += x * y;
                    if (c.m.kind == 3)
                        lp += c.p == 2 ? e * e : c.p == 1 ? e : powl(e, c.p);
                }
                switch (c.m.kind) {
                case 0: {
                    r = sqrtl(l2);
                    L e = u * (nx + ny);
                    t = std::min(sqrtl(e), r > 0 ? e / r : sqrtl(e)) + u * r;
                    break;
                }
                case 1: r = l2, t = u * (nx + ny); break;
                case 2: r = l1, t = u * l1; break;
                case 3:
                    r = powl(lp, 1 / (L)c.p), t = 4 * u * (1 + 1 / c.p) * r;
                    if (c.p == 2) {
                        L e = u * (nx + ny);
                        t += std::min(sqrtl(e), r > 0 ? e / r : sqrtl(e));
                    }
                    break;
                default: r = 1 - (nx == 0 || ny == 0 ? 0 : dot / sqrtl(nx * ny)), t = u;
                }
                if (exact && c.alg != 2 && (c.m.kind <= 2 || (c.m.kind == 3 && c.p == 1)) && c.alg != 3)
                    t = 0; // integers: sums and products are exact, and so is the root of a square
                d[id(i, j)] = r, tol[id(i, j)] = t;
                dmax = std::max(dmax, r);
            }
        if (c.alg == 2)
            for (auto &t : tol)
                t += u * dmax;
    }
};
// eps between (or, for exact distances, at) two of the distances
template <class T> static T gen_eps(Gen &g, const Ref<T> &r, da_int mins) {
    if (r.d.empty())
        return g.flip() ? (T)0 : (T)1;
    // aim at a typical distance to the neighbour that decides whether a point is a core point
    da_int i = (da_int)g.below(r.n);
    std::vector<L> v;
    for (da_int j = 0; j < r.n; j++)
        if (j != i)
            v.push_back(r.d[r.id(i, j)]);
    std::sort(v.begin(), v.end());
    size_t k = std::min<size_t>(v.size() - 1, (size_t)std::max<da_int>(0, mins - 2 + (da_int)g.range(-1, 2)));
    if (g.chance(1, 10))
        k = g.below(v.size());
    L e = v[k];
    L next = e;
    for (L x : v)
        if (x > e) {
            next = x;
            break;
        }
    int how = (int)g.below(4);
    L t = r.tol[0];
    for (da_int j = 0; j < r.n; j++)
        if (j != i)
            t = std::max(t, r.tol[r.id(i, j)]);
    if (how == 0 && t == 0)
        return (T)std::max<L>(0, e);
    if (how < 2 || next == e)
        return (T)(e + std::max<L>(0, e) * (L)0.001 + 2 * t);
    return (T)std::max<L>(0, e + (next - e) * (L)g.unit());
}
struct Want {
    std::vector<da_int> label, core;
    da_int ncl = 0, border = 0, noise = 0;
};
template <class T> static Want want(const Ref<T> &r, const Conf<T> &c, const std::string &what) {
    da_int n = r.n;
    Want w;
    std::vector<std::vector<da_int>> nb(n);
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < i; j++) {
            L d = r.d[r.id(i, j)], t = r.tol[r.id(i, j)];
            L gap = std::fabs(d - (L)c.eps);
            if (t > 0 ? gap <= t + 4 * EPS<T> * c.eps : (gap != 0 && gap <= 4 * EPS<T> * c.eps))
                throw pbt::Discard(); // decided by rounding
            if (d <= (L)c.eps)
                nb[i].push_back(j), nb[j].push_back(i);
        }
    std::vector<da_int> par(n);
    std::vector<char> core(n);
    for (da_int i = 0; i < n; i++) {
        par[i] = i;
        core[i] = (da_int)nb[i].size() + 1 >= c.mins;
        if (core[i])
            w.core.push_back(i);
    }
    auto root = [&](da_int i) {
        while (par[i] != i)
            i = par[i] = par[par[i]];
        return i;
    };
    for (da_int i = 0; i < n; i++)
        for (da_int j : nb[i])
            if (core[i] && core[j]) {
                da_int a = root(i), b = root(j);
                par[std::max(a, b)] = std::min(a, b);
            }
    w.label.assign(n, -1);
    std::vector<da_int> num(n, -1);
    for (da_int i = 0; i < n; i++)
        if (core[i] && root(i) == i)
            num[i] = w.ncl++;
    for (da_int i = 0; i < n; i++) {
        if (core[i]) {
            w.label[i] = num[root(i)];
            continue;
        }
        for (da_int j : nb[i])
            if (core[j]) {
                da_int l = num[root(j)];
                w.label[i] = w.label[i] < 0 ? l : std::min(w.label[i], l);
            }
        (w.label[i] < 0 ? w.noise : w.border)++;
    }
    return w;
}
template <class T> static void check(da_handle h, const Want &w, const Conf<T> &c, const Mat<T> &X, const std::string &what) {
    da_int n = X.n;
    da_int one = 1, ncl = -5, nco = -5;
    OK(da_handle_get_result_int(h, da_dbscan_n_clusters, &one, &ncl));
    OK(da_handle_get_result_int(h, da_dbscan_n_core_samples, &one, &nco));
    REQUIRE(nco == (da_int)w.core.size(), "core count", "%s: %d core samples, expected %d", what.c_str(), (int)nco, (int)w.core.size());
    da_int dim = nco;
    Guarded<da_int> core(nco);
    if (nco > 0) {
        OK(da_handle_get_result_int(h, da_dbscan_core_sample_indices, &dim, core.data()));
        for (da_int i = 0; i < nco; i++)
            REQUIRE(core[i] == w.core[i], "core samples", "%s: core sample %d is point %d, expected %d", what.c_str(), (int)i, (int)core[i], (int)w.core[i]);
        REQUIRE(core.ok(), "beyond", "%s: wrote beyond the core samples", what.c_str());
    }
    Guarded<da_int> lab(n);
    dim = n;
    OK(da_handle_get_result_int(h, da_dbscan_labels, &dim, lab.data()));
    REQUIRE(lab.ok(), "beyond", "%s: wrote beyond the labels", what.c_str());
    // the partition of the core points, then the border points, then the numbering
    REQUIRE(ncl == w.ncl, "clusters", "%s: %d clusters, expected %d", what.c_str(), (int)ncl, (int)w.ncl);
    for (da_int i = 0; i < n; i++)
        REQUIRE(lab[i] == w.label[i], "labels", "%s: point %d has label %d, expected %d", what.c_str(), (int)i, (int)lab[i], (int)w.label[i]);
    T info[9];
    dim = 9;
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
    REQUIRE(info[0] == X.n && info[1] == X.p && info[2] == X.ld && info[3] == c.eps && info[4] == (T)c.mins && info[5] == (T)c.leaf && info[6] == (T)c.p && info[7] == (T)nco && info[8] == (T)ncl, "rinfo", "%s: rinfo is %g %g %g %g %g %g %g %g %g", what.c_str(), (double)info[0], (double)info[1], (double)info[2], (double)info[3], (double)info[4], (double)info[5], (double)info[6], (double)info[7], (double)info[8]);
    // arrays that are too small are refused with the size needed
    if (n > 1) {
        dim = n - 1;
        Guarded<da_int> s(n - 1);
        da_status st = da_handle_get_result_int(h, da_dbscan_labels, &dim, s.data());
        REQUIRE(st == da_status_invalid_array_dimension && dim == n && s[0] == -777, "small array", "%s: labels in a small array: status %d, dimension %d", what.c_str(), (int)st, (int)dim);
    }
}

template <class T> static void one(Gen &g, Handle &h, bool fresh) {
    bool exact = false;
    bool big = g.chance(1, g.thorough ? 12 : 25);
    da_int n = big ? (da_int)g.range(150, 620) : (da_int)g.size(1, 40);
    Mat<T> C0 = gen_data<T>(g, n, exact);
    if (g.chance(1, 6))
        exact = false; // same data, decided with tolerances only
    Conf<T> c = gen_conf<T>(g);
    c.o = gen_order(g);
    Mat<T> X = C0.as(c.o, gen_extra(g));
    Ref<T> r(c, X, exact);
    c.eps = gen_eps<T>(g, r, c.mins);
    int nt = gen_threads(g) > 1 || big ? (int)g.range(1, 6) : 1;
    std::string what = std::string(tn<T>()) + " n=" + std::to_string(n) + " p=" + std::to_string(X.p) + " " + on(c.o) + " " + c.m.name + " " + ALG[c.alg] + " power=" + std::to_string(c.p) + " eps=" + std::to_string((double)c.eps) + " min=" + std::to_string(c.mins) + " leaf=" + std::to_string(c.leaf) + " threads=" + std::to_string(nt) + (fresh ? "" : " reused");
    g.note("%s %s", what.c_str(), show(X, 4).c_str());
    Want w = want(r, c, what);
    g.label(c.m.name), g.label(ALG[c.alg]);
    g.label(w.ncl == 0 ? "no cluster" : w.ncl == 1 ? "one cluster" : "clusters");
    if (w.border)
        g.label("border points");
    if (w.ncl >= 2 || (w.ncl && w.noise && w.border))
        g.nontrivial();
    Threads t(nt);
    c.apply(h);
    OK(DA(T, da_dbscan_set_data, h, X.n, X.p, X.data(), X.ld));
    da_status s = DA(T, da_dbscan_compute, h);
    REQUIRE(s == da_status_success, "status", "%s: compute returned %d", what.c_str(), (int)s);
    check(h, w, c, X, what);
    REQUIRE(X.pad_ok(), "padding", "%s: the padding of the data was changed", what.c_str());
    // the same data with another algorithm, and again
    if (g.chance(1, 2)) {
        Conf<T> c2 = c;
        do
            c2.alg = (int)g.below(4);
        while (c2.refused());
        c2.leaf = (da_int)g.range(1, 10);
        Ref<T> r2(c2, X, exact);
        Want w2 = want(r2, c2, what);
        Threads t2((int)g.range(1, 4));
        c2.apply(h);
        da_status s2 = DA(T, da_dbscan_compute, h);
        REQUIRE(s2 == da_status_success, "status", "%s: second compute with %s returned %d", what.c_str(), ALG[c2.alg], (int)s2);
        check(h, w2, c2, X, what + " then " + ALG[c2.alg] + " leaf=" + std::to_string(c2.leaf) + " threads=" + std::to_string(omp_get_max_threads()));
    }
}
template <class T> static void clusters(Gen &g) {
    perturb(g);
    Handle h;
    init<T>(h, da_handle_dbscan);
    int rounds = g.chance(1, 4) ? 2 : 1;
    for (int i = 0; i < rounds; i++)
        one<T>(g, h, i == 0);
}
PROPERTY(C12, clusters, 9000, 90000, "at least two clusters, or one with border points and noise") {
    g.flip() ? clusters<double>(g) : clusters<float>(g);
}

// chains of core points joined in any order of discovery, with many threads
template <class T> static void chain(Gen &g) {
    da_int n = (da_int)g.range(200, g.thorough ? 6000 : 1500);
    Gen r;
    r.rng = g.below(1u << 30) * 77777 + 5;
    // positions on a line: runs of unit steps, a border point bridging some of the gaps
    std::vector<T> x;
    std::vector<int> kind; // run number, or -1 for a bridge, -2 for noise
    T pos = 0;
    int run = 0, brk = (int)g.pick({30, 100, 400});
    while ((da_int)x.size() < n) {
        x.push_back(pos), kind.push_back(run);
        if ((da_int)r.below(brk) == 0) {
            run++;
            int k = (int)r.below(3);
            if (k == 0) { // a point within reach of one core point on each side
                x.push_back(pos + 2), kind.push_back(-1);
                pos += 4;
            } else if (k == 1) {
                x.push_back(pos + 20), kind.push_back(-2);
                pos += 40;
            } else
                pos += 3;
        } else
            pos += 1;
    }
    n = (da_int)x.size();
    if (sizeof(T) == 4) // the squares must be exact
        while (n > 1 && x[n - 1] > 1400)
            n--;
    std::vector<da_int> perm(n);
    for (da_int i = 0; i < n; i++)
        perm[i] = i;
    int ord = (int)g.below(3);
    if (ord == 1)
        std::reverse(perm.begin(), perm.end());
    if (ord == 2)
        for (da_int i = n; i-- > 1;)
            std::swap(perm[i], perm[r.below(i + 1)]);
    Mat<T> X(n, 1, column_major, 0);
    for (da_int i = 0; i < n; i++)
        X(i, 0) = x[perm[i]];
    Conf<T> c;
    c.m = METS[g.pick({0, 3, 2})];
    c.alg = c.m.tree ? (int)g.below(2) : 0;
    c.eps = c.m.kind == 1 ? 4 : 2;
    c.mins = 4;
    c.leaf = (da_int)g.range(1, 40);
    int nt = (int)g.range(1, 8);
    g.note("%s chain n=%d order=%d threads=%d break=%d %s %s", tn<T>(), (int)n, ord, nt, brk, c.m.name, ALG[c.alg]);
    Ref<T> ref(c, X, true);
    Want w = want(ref, c, "chain");
    if (w.ncl >= 2)
        g.nontrivial();
    Threads t(nt);
    Handle h;
    init<T>(h, da_handle_dbscan);
    c.apply(h);
    OK(DA(T, da_dbscan_set_data, h, X.n, X.p, X.data(), X.ld));
    da_status s = DA(T, da_dbscan_compute, h);
    REQUIRE(s == da_status_success, "status", "compute returned %d", (int)s);
    check(h, w, c, X, "chain");
}
PROPERTY(C12, chains, 120, 700, "at least two clusters") {
    g.flip() ? chain<double>(g) : chain<float>(g);
}

// combinations that cannot be computed are refused, and nothing is reported before a result exists
template <class T> static void refused(Gen &g) {
    Handle h;
    init<T>(h, da_handle_dbscan);
    da_int n = (da_int)g.range(1, 20), p = (da_int)g.range(1, 4);
    Mat<T> X = gen_mat<T>(g, n, p, gen_order(g));
    da_int dim = n, one = 1;
    std::vector<da_int> lab(n, -9);
    T info[9];
    auto none = [&](const char *when) {
        dim = n;
        REQUIRE(da_handle_get_result_int(h, da_dbscan_labels, &dim, lab.data()) == da_status_no_data, "no result", "labels %s", when);
        REQUIRE(da_handle_get_result_int(h, da_dbscan_n_clusters, &one, lab.data()) == da_status_no_data, "no result", "clusters %s", when);
        dim = 9;
        REQUIRE(DA(T, da_handle_get_result, h, da_rinfo, &dim, info) == da_status_no_data, "no result", "rinfo %s", when);
    };
    none("before data");
    REQUIRE(DA(T, da_dbscan_compute, h) == da_status_no_data, "no data", "computed without data");
    Conf<T> c;
    do
        c = gen_conf<T>(g, true);
    while (!c.refused());
    c.o = X.order;
    c.eps = (T)g.uniform(0, 3);
    g.note("%s %s power %g", c.m.name, ALG[c.alg], c.p);
    g.nontrivial();
    c.apply(h);
    OK(DA(T, da_dbscan_set_data, h, X.n, X.p, X.data(), X.ld));
    none("before computing");
    da_status s = DA(T, da_dbscan_compute, h);
    REQUIRE(s == da_status_incompatible_options, "incompatible", "%s with %s power %g: %d", c.m.name, ALG[c.alg], c.p, (int)s);
    none("after a refusal");
    opt_s(h, "algorithm", g.flip() ? "auto" : "brute");
    s = DA(T, da_dbscan_compute, h);
    REQUIRE(s == da_status_success, "recovers", "%s with another algorithm: %d", c.m.name, (int)s);
}
PROPERTY(C12, refused, 1500, 8000, "always") { g.flip() ? refused<double>(g) : refused<float>(g); }
