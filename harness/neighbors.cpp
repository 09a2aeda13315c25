#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;

struct Metric {
    const char *name;
    int kind; // 0 euclid, 1 squared, 2 manhattan, 3 minkowski, 4 cosine, 5 euclid (gemm), 6 squared (gemm), 7 inner product
    bool tree;
};
static const Metric METS[] = {{"euclidean", 0, true}, {"manhattan", 2, true}, {"minkowski", 3, true}, {"sqeuclidean", 1, false}, {"cosine", 4, false}, {"euclidean_gemm", 5, true}, {"sqeuclidean_gemm", 6, false}, {"inner product", 7, false}, {"l2", 0, true}, {"l1", 2, true}, {"cityblock", 2, true}};
static const char *ALG[] = {"brute", "kd tree", "ball tree", "auto"};

template <class T> struct Conf {
    Metric m;
    double p = 2;
    int alg = 0;
    da_int leaf = 30, k = 5;
    da_order o = column_major;
    T radius = 1;
    bool weighted = false;
    void apply(da_handle h) const {
        opt_s(h, "metric", m.name);
        opt_s(h, "algorithm", ALG[alg]);
        opt_r<T>(h, "minkowski parameter", (T)p);
        opt_i(h, "leaf size", leaf);
        opt_i(h, "number of neighbors", k);
        opt_r<T>(h, "radius", radius);
        opt_s(h, "weights", weighted ? "distance" : "uniform");
        opt_order(h, o);
    }
};
template <class T> static Conf<T> gen_conf(Gen &g, da_int n, bool radius = false) {
    Conf<T> c;
    c.o = gen_order(g);
    c.alg = (int)g.below(4);
    do
        c.m = METS[g.below(11)];
    while ((radius && c.m.kind == 7) || ((c.alg == 1 || c.alg == 2) && !c.m.tree && (c.alg = 0, false)));
    bool tree = c.alg == 1 || c.alg == 2;
    c.p = c.m.kind == 3 ? (tree ? g.pick({3.0, 2.0, 1.0, 1.5, 4.0}) : g.pick({3.0, 2.0, 1.0, 0.5, 1.5})) : 2.0;
    c.leaf = g.flip() ? (da_int)g.range(1, 4) : (da_int)g.range(1, 40);
    c.k = (da_int)g.size(1, n);
    return c;
}
// the distance and the size of its rounding error
template <class T> static L dist(const Conf<T> &c, const Mat<T> &X, da_int i, const Mat<T> &Y, da_int j, L &tol) {
    L l2 = 0, l1 = 0, nx = 0, ny = 0, dot = 0, ad = 0, lp = 0;
    for (da_int l = 0; l < X.p; l++) {
        L x = X(i, l), y = Y(j, l), d = std::fabs(x - y);
        l2 += d * d, l1 += d, nx += x * x, ny += y * y, dot += x * y, ad += std::fabs(x * y);
        if (c.m.kind == 3)
            lp += powl(d, c.p);
    }
    double u = 6 * EPS<T> * (X.p + 8);
    L r;
    switch (c.m.kind) {
    case 0: r = sqrtl(l2); tol = u * r; return r;
    case 1: tol = u * l2; return l2;
    case 2: tol = u * l1; return l1;
    case 3: r = powl(lp, 1 / c.p); tol = 4 * u * (1 + 1 / c.p) * r; return r;
    case 4: tol = u; return 1 - (nx == 0 || ny == 0 ? 0 : dot / sqrtl(nx * ny));
    case 6: tol = u * (nx + ny); return l2;
    case 7: tol = u * ad; return dot;
    default:
        r = sqrtl(l2);
        L e = u * (nx + ny);
        tol = std::min(sqrtl(e), r > 0 ? e / r : sqrtl(e)) + u * r;
        return r;
    }
}
// the bounds of a ball tree (distance to a centroid minus a radius) round relative to the
// distances from the query to the whole data set, not to the distance being decided
template <class T> static L ball_slack(const Conf<T> &c, const std::vector<std::pair<L, L>> &d, da_int p) {
    if (c.alg != 2)
        return 0;
    L D = 0, tol = 0;
    for (auto &x : d)
        D = std::max(D, x.first), tol = std::max(tol, x.second);
    return 16 * EPS<T> * (p + 8) * D + 4 * tol;
}
static void gen_sizes(Gen &g, da_int &n, da_int &q, da_int &p, bool &big) {
    big = g.chance(1, 100);
    p = (da_int)g.size(1, 8);
    if (!big) {
        n = (da_int)g.size(1, 60);
        q = (da_int)g.size(1, 20);
    } else {
        n = (da_int)g.range(200, 1100);
        q = g.chance(1, 3) ? (da_int)g.range(250, 1100) : (da_int)g.range(1, 60);
        p = (da_int)g.range(1, 4);
    }
}
template <class T> static Mat<T> gen_queries(Gen &g, const Mat<T> &X, da_int q, int kind) {
    Mat<T> Q = gen_mat<T>(g, q, X.p, X.order, kind);
    for (da_int i = 0; i < q; i++)
        if (g.chance(1, 4)) {
            da_int s = (da_int)g.below(X.n);
            for (da_int j = 0; j < X.p; j++)
                Q(i, j) = X(s, j);
        }
    return Q;
}
template <class T> static void describe(Gen &g, const Conf<T> &c, da_int n, da_int q, da_int p, int th) {
    g.note("%s %s %s metric='%s' p=%g leaf=%d k=%d n=%d q=%d feat=%d thr=%d", tn<T>(), on(c.o), ALG[c.alg], c.m.name, c.p, c.leaf, c.k, n, q, p, th);
    g.label(std::string("alg ") + ALG[c.alg]);
    g.label(std::string("metric ") + c.m.name);
    g.label(std::string(on(c.o)) + "-major");
}

template <class T> static void knn(Gen &g) {
    perturb(g);
    da_int n, q, p;
    bool big;
    gen_sizes(g, n, q, p, big);
    Conf<T> c = gen_conf<T>(g, n);
    int kind = (int)g.below(6);
    Mat<T> X = gen_mat<T>(g, n, p, c.o, kind), Q = gen_queries(g, X, q, kind), X0 = X, Q0 = Q;
    int th = big ? gen_threads(g) : g.chance(1, 8) ? 3 : 1;
    Threads t(th);
    describe(g, c, n, q, p, th);
    if (big)
        g.label("past the blocks");
    g.nontrivial(n > 2 && c.k < n);
    Handle h;
    init<T>(h, da_handle_nn);
    c.apply(h);
    OK(DA(T, da_nn_set_data, h, n, p, X.data(), X.ld));
    bool by_option = g.chance(1, 4), want_d = !g.chance(1, 5);
    da_int k = c.k;
    Guarded<da_int> ind((size_t)q * k);
    Guarded<T> dst((size_t)q * k);
    OK(DA(T, da_nn_kneighbors, h, q, p, Q.data(), Q.ld, ind.data(), want_d ? dst.data() : nullptr, by_option ? 0 : k, want_d ? 1 : 0));
    REQUIRE(X.v == X0.v && Q.v == Q0.v, "inputs", "an input was written");
    REQUIRE(ind.ok() && dst.ok(), "overrun", "an output array was overrun");
    std::vector<std::pair<L, L>> d(n);
    std::vector<char> seen(n);
    for (da_int j = 0; j < q; j++) {
        for (da_int i = 0; i < n; i++)
            d[i].first = dist(c, X, i, Q, j, d[i].second);
        std::vector<L> s(n);
        L mt = 0;
        for (da_int i = 0; i < n; i++)
            s[i] = c.m.kind == 7 ? -d[i].first : d[i].first, mt = std::max(mt, d[i].second);
        // the rounding error that matters is that of the points near the k-th
        std::nth_element(s.begin(), s.begin() + (k - 1), s.end());
        L kth = s[k - 1], bs = ball_slack(c, d, p);
        std::fill(seen.begin(), seen.end(), 0);
        L prev = -INFINITY;
        for (da_int r = 0; r < k; r++) {
            da_int i = ind[rc(c.o, q, k, j, r)];
            REQUIRE(i >= 0 && i < n, "index", "query %d neighbour %d: index %d out of range", j, r, i);
            REQUIRE(!seen[i], "duplicate", "query %d: neighbour %d returned twice", j, i);
            seen[i] = 1;
            L di = c.m.kind == 7 ? -d[i].first : d[i].first, ti = d[i].second;
            REQUIRE(di >= prev - 2 * (ti + 1e-30L) - (mt > 0 && c.m.kind >= 4 ? 2 * mt : 0), "order", "query %d: neighbour %d out of order: %Lg after %Lg", j, r, di, prev);
            prev = std::max(prev, di);
            if (want_d) {
                T got = dst[rc(c.o, q, k, j, r)];
                REQUIRE(fabsl(got - d[i].first) <= ti * 1.0001L + 1e-35L, "distance", "query %d neighbour %d (point %d): distance %.17g, reference %.17Lg tol %.3Lg", j, r, i, (double)got, d[i].first, ti);
            }
        }
        for (da_int i = 0; i < n; i++) {
            L di = c.m.kind == 7 ? -d[i].first : d[i].first, ti = d[i].second;
            L slack = 2 * ti + (c.m.kind >= 4 ? 2 * mt : 2e-5 * EPS<T> * fabsl(kth) + 12 * EPS<T> * (p + 8) * fabsl(kth)) + bs;
            if (!seen[i])
                REQUIRE(di >= kth - slack, "missed", "query %d: point %d at %.17Lg is not among the %d nearest, the last of which is at %.17Lg", j, i, di, k, kth);
            else
                REQUIRE(di <= kth + slack, "too far", "query %d: point %d at %.17Lg returned, the %d-th nearest is at %.17Lg", j, i, di, k, kth);
        }
    }
}
PROPERTY(C09, knn, 8000, 200000,
         "random training set (ties, repeated points, past the blocks), queries (often training points), algorithm, metric, leaf size, order, padding, k, threads; indices distinct, exactly the k nearest up to rounding, in order, with their distances; non-trivial: k < number of points") {
    g.flip() ? knn<double>(g) : knn<float>(g);
}

// what the radius query returned, one vector per query
template <class T> struct Rnn {
    std::vector<std::vector<da_int>> ind;
    std::vector<std::vector<T>> dst;
};
template <class T> static Rnn<T> read_rnn(Gen &g, da_handle h, da_int q, bool want_d) {
    Rnn<T> r;
    r.ind.resize(q);
    r.dst.resize(q);
    da_int extra = g.chance(1, 4) ? 3 : 0;
    da_int dim = q + 1 + extra;
    Guarded<da_int> cnt(dim);
    OK(da_handle_get_result_int(h, da_nn_radius_neighbors_count, &dim, cnt.data()));
    da_int tot = 0;
    for (da_int j = 0; j < q; j++) {
        REQUIRE(cnt[j] >= 0, "count", "query %d has %d neighbours", j, cnt[j]);
        tot += cnt[j];
    }
    REQUIRE(cnt[q] == tot, "count", "total %d, sum of the counts %d (array of %d)", cnt[q], tot, q + 1 + extra);
    dim = q + 1;
    Guarded<da_int> off(dim);
    OK(da_handle_get_result_int(h, da_nn_radius_neighbors_offsets, &dim, off.data()));
    std::vector<da_int> all(tot + 1, -5);
    std::vector<T> alld(tot + 1, (T)-5);
    dim = tot;
    if (tot > 0) {
        OK(da_handle_get_result_int(h, da_nn_radius_neighbors_indices, &dim, all.data()));
        dim = tot;
        if (want_d)
            OK(DA(T, da_handle_get_result, h, da_nn_radius_neighbors_distances, &dim, alld.data()));
        dim = tot - 1; // too small: must be refused and say how much is needed
        if (dim > 0) {
            std::vector<da_int> small(dim);
            da_status s = da_handle_get_result_int(h, da_nn_radius_neighbors_indices, &dim, small.data());
            REQUIRE(s == da_status_invalid_array_dimension && dim == tot, "small array", "status %d, size %d for %d neighbours", (int)s, dim, tot);
        }
    }
    REQUIRE(all[tot] == -5 && alld[tot] == (T)-5 && off.ok() && cnt.ok(), "overrun", "a result array was overrun");
    da_int o = 0;
    for (da_int j = 0; j < q; j++) {
        if (cnt[j] == 0) {
            REQUIRE(off[j] == -1, "offset", "offset of empty query %d is %d", j, off[j]);
            continue;
        }
        REQUIRE(off[j] == o, "offset", "offset of query %d is %d, expected %d", j, off[j], o);
        r.ind[j].assign(all.begin() + o, all.begin() + o + cnt[j]);
        if (want_d)
            r.dst[j].assign(alld.begin() + o, alld.begin() + o + cnt[j]);
        o += cnt[j];
        if (g.chance(1, 4)) { // the per-query results are the same
            std::vector<da_int> a(cnt[j]);
            std::vector<T> b(cnt[j]);
            da_int d1 = cnt[j];
            a[0] = j;
            OK(da_handle_get_result_int(h, da_nn_radius_neighbors_indices_index, &d1, a.data()));
            REQUIRE(a == r.ind[j], "per query", "indices of query %d differ between the two queries", j);
            if (want_d) {
                d1 = cnt[j];
                b[0] = (T)j;
                OK(DA(T, da_handle_get_result, h, da_nn_radius_neighbors_distances_index, &d1, b.data()));
                REQUIRE(b == r.dst[j], "per query", "distances of query %d differ between the two queries", j);
            }
        }
    }
    REQUIRE(off[q] == tot, "offset", "last offset %d, expected %d", off[q], tot);
    return r;
}

// a radius that often equals a distance exactly
template <class T> static T gen_radius(Gen &g, const Conf<T> &c, const Mat<T> &X, const Mat<T> &Q) {
    switch (g.below(4)) {
    case 0: return (T)g.range(0, 6);
    case 1: return (T)g.uniform(0, 3);
    default: {
        L t, d = dist(c, X, (da_int)g.below(X.n), Q, (da_int)g.below(Q.n), t);
        return (T)std::max<L>(0, d * (g.flip() ? 1 : 1.5));
    }
    }
}
template <class T> static void radius(Gen &g) {
    perturb(g);
    da_int n, q, p;
    bool big;
    gen_sizes(g, n, q, p, big);
    Conf<T> c = gen_conf<T>(g, n, true);
    int kind = (int)g.below(6);
    Mat<T> X = gen_mat<T>(g, n, p, c.o, kind), Q = gen_queries(g, X, q, kind), X0 = X, Q0 = Q;
    T r = gen_radius(g, c, X, Q);
    int th = big ? gen_threads(g) : g.chance(1, 8) ? 3 : 1;
    Threads t(th);
    describe(g, c, n, q, p, th);
    g.note("r=%.17g X=%s Q=%s", (double)r, show(X, 3).c_str(), show(Q, 2).c_str());
    bool by_option = g.chance(1, 4);
    c.radius = by_option ? r : (T)0.123;
    Handle h;
    init<T>(h, da_handle_nn);
    c.apply(h);
    OK(DA(T, da_nn_set_data, h, n, p, X.data(), X.ld));
    bool want_d = !g.chance(1, 4), sort = want_d && g.flip();
    bool exact = (kind == 0 || kind == 3) && (c.m.kind == 2 || ((c.m.kind == 0 || c.m.kind == 1) && r == std::floor(r)));
    OK(DA(T, da_nn_radius_neighbors, h, q, p, Q.data(), Q.ld, by_option ? (T)-1 : r, want_d, sort));
    REQUIRE(X.v == X0.v && Q.v == Q0.v, "inputs", "an input was written");
    Rnn<T> R = read_rnn<T>(g, h, q, want_d);
    long in = 0, edge = 0;
    std::vector<std::pair<L, L>> all(n);
    for (da_int j = 0; j < q; j++) {
        std::vector<char> seen(n);
        for (da_int i = 0; i < n; i++)
            all[i].first = dist(c, X, i, Q, j, all[i].second);
        L bs = ball_slack(c, all, p);
        L prev = -INFINITY;
        for (size_t a = 0; a < R.ind[j].size(); a++) {
            da_int i = R.ind[j][a];
            REQUIRE(i >= 0 && i < n, "index", "query %d: index %d out of range", j, i);
            REQUIRE(!seen[i], "duplicate", "query %d: point %d returned twice", j, i);
            seen[i] = 1;
            L tol, d = dist(c, X, i, Q, j, tol);
            if (want_d) {
                T got = R.dst[j][a];
                REQUIRE(fabsl(got - d) <= tol * 1.0001L + 1e-35L, "distance", "query %d point %d: distance %.17g, reference %.17Lg tol %.3Lg", j, i, (double)got, d, tol);
                if (sort)
                    REQUIRE(got >= prev, "order", "query %d: distances not ascending", j);
                prev = got;
            }
        }
        for (da_int i = 0; i < n; i++) {
            L tol, d = dist(c, X, i, Q, j, tol);
            L rt = 8 * EPS<T> * r + 2 * tol + bs;
            if (c.m.kind == 5) // compared as squares
                rt = std::max<L>(rt, std::min(sqrtl(r * 4 * tol) , 3 * tol));
            in += seen[i];
            if (fabsl(d - r) <= rt && !(exact && c.alg != 2 && (d == r || c.m.kind == 2))) {
                edge++;
                continue;
            }
            REQUIRE(seen[i] == (d <= (L)r), "membership", "query %d point %d at %.17Lg, radius %.17g: %s", j, i, d, (double)r, seen[i] ? "returned" : "missed");
        }
    }
    g.nontrivial(in > 0 && in < (long)n * q);
    if (exact)
        g.label("exact radius");
}
PROPERTY(C09, radius, 8000, 200000,
         "as knn, with a radius that is random, integer or equal to a distance; the points returned are exactly those within the radius, each once, with distances, sorted on request, and all result queries agree; non-trivial: some but not all points are neighbours") {
    g.flip() ? radius<double>(g) : radius<float>(g);
}

// weights of the documented rules
template <class T> static L weight(bool weighted, L d) { return !weighted ? 1 : d <= (L)std::numeric_limits<T>::epsilon() ? 1 : 1 / d; }

template <class T> static void predict(Gen &g) {
    perturb(g);
    da_int n, q, p;
    bool big;
    gen_sizes(g, n, q, p, big);
    bool rad = g.flip();
    Conf<T> c = gen_conf<T>(g, n, rad);
    int kind = g.pick({1, 2, 0, 3, 1});
    Mat<T> X = gen_mat<T>(g, n, p, c.o, kind), Q = gen_queries(g, X, q, kind);
    c.weighted = c.m.kind != 7 && g.flip();
    c.radius = gen_radius(g, c, X, Q);
    int out = (int)g.below(3);
    static const char *OUT[] = {"none", "manual", "most frequent"};
    da_int nc = (da_int)g.range(1, 5), base = g.pick({0, 0, -2, 7}), step = g.pick({1, 1, 3});
    std::vector<da_int> y(n);
    std::vector<T> z(n);
    for (auto &v : y)
        v = base + step * (da_int)g.below(nc);
    for (auto &v : z)
        v = (T)g.range(-8, 8);
    da_int olab = g.flip() ? y[g.below(n)] : g.pick({-1, 0, 1, 99});
    T otar = (T)g.range(-50, 50);
    int th = g.chance(1, 8) ? 3 : 1;
    Threads t(th);
    describe(g, c, n, q, p, th);
    g.note("%s weights=%s r=%.9g outliers=%s label=%d", rad ? "radius" : "knn", c.weighted ? "distance" : "uniform", (double)c.radius, OUT[out], olab);
    Handle h;
    init<T>(h, da_handle_nn);
    c.apply(h);
    opt_s(h, "outlier handling", OUT[out]);
    opt_i(h, "outlier label", olab);
    opt_r<T>(h, "outlier target", otar);
    OK(DA(T, da_nn_set_data, h, n, p, X.data(), X.ld));
    OK(DA(T, da_nn_set_labels, h, n, y.data()));
    OK(DA(T, da_nn_set_targets, h, n, z.data()));
    std::set<da_int> cs(y.begin(), y.end());
    std::vector<da_int> cl(cs.begin(), cs.end());
    da_int m = (da_int)cl.size(), mm = 0;
    OK(DA(T, da_nn_classes, h, &mm, nullptr));
    REQUIRE(mm == m, "classes", "%d classes, expected %d", mm, m);
    Guarded<da_int> got_cl(m);
    OK(DA(T, da_nn_classes, h, &mm, got_cl.data()));
    REQUIRE(std::equal(cl.begin(), cl.end(), got_cl.v.begin()) && got_cl.ok(), "classes", "wrong class labels");

    auto mode = rad ? radius_search_mode : knn_search_mode;
    Guarded<T> pr((size_t)q * m), tg(q);
    Guarded<da_int> lb(q);
    da_status s1 = DA(T, da_nn_classifier_predict_proba, h, q, p, Q.data(), Q.ld, pr.data(), mode);
    da_status s2 = DA(T, da_nn_classifier_predict, h, q, p, Q.data(), Q.ld, lb.data(), mode);
    da_status s3 = DA(T, da_nn_regressor_predict, h, q, p, Q.data(), Q.ld, tg.data(), mode);
    REQUIRE(pr.ok() && lb.ok() && tg.ok(), "overrun", "an output array was overrun");

    // neighbourhoods
    bool unsure_empty = false, any_empty = false;
    std::vector<int> state(q); // 0 checked, 1 ambiguous, 2 empty
    std::vector<std::vector<L>> P(q, std::vector<L>(m, 0));
    std::vector<L> Y(q, 0), A(q, 0), W(q, 0); // W: relative error of the weights
    for (da_int j = 0; j < q; j++) {
        std::vector<std::pair<L, da_int>> d(n);
        L mt = 0, tol;
        for (da_int i = 0; i < n; i++) {
            d[i] = {dist(c, X, i, Q, j, tol), i};
            mt = std::max(mt, tol);
        }
        std::sort(d.begin(), d.end(), [&](auto &a, auto &b) { return c.m.kind == 7 ? a.first > b.first : a.first < b.first; });
        da_int cnt = c.k;
        if (!rad) {
            if (c.k < n && fabsl(d[c.k].first - d[c.k - 1].first) <= 4 * mt)
                state[j] = 1;
        } else {
            cnt = 0;
            da_int lo = 0, hi = 0;
            for (auto &e : d) {
                cnt += e.first <= c.radius;
                lo += e.first <= c.radius - 4 * mt - 8 * EPS<T> * c.radius;
                hi += e.first <= c.radius + 4 * mt + 8 * EPS<T> * c.radius;
            }
            if (lo != hi)
                state[j] = 1;
            if (lo == 0 && hi > 0)
                unsure_empty = true;
            if (hi == 0)
                state[j] = 2, any_empty = true;
        }
        if (c.weighted && mt > 0) // weights 1/d change abruptly near 0
            for (da_int r = 0; r < cnt; r++)
                if (d[r].first != 0 ? d[r].first < 1000 * mt : c.m.kind >= 4)
                    state[j] = std::max(state[j], 1);
        if (state[j] == 0) {
            L den = 0;
            for (da_int r = 0; r < cnt; r++) {
                L w = weight<T>(c.weighted, d[r].first);
                if (c.weighted && d[r].first > 0)
                    W[j] = std::max(W[j], 4 * mt / d[r].first);
                P[j][std::lower_bound(cl.begin(), cl.end(), y[d[r].second]) - cl.begin()] += w;
                Y[j] += w * z[d[r].second];
                A[j] += w * std::fabs(z[d[r].second]);
                den += w;
            }
            for (auto &v : P[j])
                v /= den;
            Y[j] /= den;
            A[j] /= den;
        }
    }
    if (unsure_empty) {
        g.label("ambiguous");
        return;
    }
    g.nontrivial(n > 2 && m > 1);
    g.label(rad ? "radius mode" : "knn mode");
    if (any_empty)
        g.label(std::string("empty neighbourhood, ") + OUT[out]);
    da_int freq = 0, fcount = -1;
    L mean = 0;
    for (da_int l : cl) {
        da_int k = (da_int)std::count(y.begin(), y.end(), l);
        if (k > fcount)
            fcount = k, freq = l;
    }
    for (T v : z)
        mean += v;
    mean /= n;
    if (any_empty && out == 0) {
        REQUIRE(s1 != da_status_success && s2 != da_status_success && s3 != da_status_success, "outlier none", "statuses %d %d %d although a query has no neighbour", (int)s1, (int)s2, (int)s3);
        return;
    }
    bool absent = !cs.count(olab);
    da_status e12 = any_empty && out == 1 && absent ? da_status_outlier_warning : da_status_success;
    da_status e3 = any_empty && out == 1 ? da_status_outlier_warning : da_status_success;
    REQUIRE(s1 == e12 && s2 == e12 && s3 == e3, "status", "statuses %d %d %d, expected %d %d %d", (int)s1, (int)s2, (int)s3, (int)e12, (int)e12, (int)e3);
    double u = 64 * EPS<T> * (n + 8) * (c.weighted ? 200 : 1);
    for (da_int j = 0; j < q; j++) {
        L sum = 0, best = -1;
        for (da_int a = 0; a < m; a++) {
            L v = pr[rc(c.o, q, m, j, a)], ref;
            sum += v;
            best = std::max(best, v);
            REQUIRE(v >= 0 && v <= 1 + u, "probability", "query %d class %d: %Lg", j, cl[a], v);
            if (state[j] == 1)
                continue;
            if (state[j] == 2)
                ref = out == 1 ? (cl[a] == olab) : (cl[a] == freq);
            else
                ref = P[j][a];
            REQUIRE(fabsl(v - ref) <= u + W[j], "probability", "query %d class %d: %.9Lg, expected %.9Lg", j, cl[a], v, ref);
        }
        bool zero_row = state[j] == 2 && out == 1 && absent;
        REQUIRE(fabsl(sum - (zero_row ? 0 : 1)) <= u, "sum", "query %d: probabilities add up to %.9Lg", j, sum);
        da_int pos = (da_int)(std::lower_bound(cl.begin(), cl.end(), lb[j]) - cl.begin());
        if (zero_row) {
            REQUIRE(lb[j] == olab, "label", "query %d without neighbours has label %d, expected %d", j, lb[j], olab);
        } else {
            REQUIRE(pos < m && cl[pos] == lb[j], "label", "query %d: %d is not a class", j, lb[j]);
            if (th == 1 || state[j] != 1)
                REQUIRE(pr[rc(c.o, q, m, j, pos)] >= best - u, "label", "query %d: label %d has probability %g, the best %Lg", j, lb[j], (double)pr[rc(c.o, q, m, j, pos)], best);
        }
        L ref = state[j] == 2 ? (out == 1 ? (L)otar : mean) : Y[j];
        if (state[j] != 1)
            REQUIRE(fabsl(tg[j] - ref) <= (u + W[j]) * (A[j] + fabsl(ref) + 1), "target", "query %d: %.9g, expected %.9Lg", j, (double)tg[j], ref);
    }
}
PROPERTY(C09, predict, 10000, 200000,
         "random training set with class labels and targets, knn or radius mode, weights, outlier handling; classes, probabilities, labels and targets against the documented rules wherever the neighbourhood is unambiguous; non-trivial: more than one class") {
    g.flip() ? predict<double>(g) : predict<float>(g);
}

// A handle with a history gives the answers of a fresh one
template <class T> static void history(Gen &g) {
    da_int n = (da_int)g.size(2, 30), p = (da_int)g.size(1, 4), q = (da_int)g.size(1, 8);
    int steps = (int)g.range(2, 4);
    da_order o = gen_order(g);
    Handle used;
    init<T>(used, da_handle_nn);
    g.nontrivial();
    std::vector<Mat<T>> keep;
    keep.reserve(20);
    std::vector<std::vector<da_int>> ky;
    std::vector<std::vector<T>> kz;
    ky.reserve(20);
    kz.reserve(20);
    for (int s = 0; s < steps; s++) {
        Conf<T> c = gen_conf<T>(g, n);
        c.o = o;
        c.weighted = c.m.kind != 7 && g.flip();
        keep.push_back(gen_mat<T>(g, n, p, o));
        const Mat<T> &X = keep.back();
        keep.push_back(gen_queries(g, X, q, 1));
        const Mat<T> &Q = keep.back();
        c.radius = (T)g.uniform(0, 4);
        ky.emplace_back(n);
        kz.emplace_back(n);
        for (auto &v : ky.back())
            v = (da_int)g.below(4) + s;
        for (auto &v : kz.back())
            v = (T)g.range(-8, 8);
        g.note("[%s %s p=%g k=%d leaf=%d%s]", ALG[c.alg], c.m.name, c.p, c.k, c.leaf, c.weighted ? " weighted" : "");
        static const char *OUT[] = {"none", "manual", "most frequent"};
        int out = (int)g.below(3), ops = (int)g.range(1, 31);
        da_int olab = (da_int)g.range(0, 6);
        Handle fresh;
        init<T>(fresh, da_handle_nn);
        struct Res {
            std::vector<int> st;
            std::vector<da_int> i;
            std::vector<T> r;
            bool operator==(const Res &b) const { return st == b.st && i == b.i && r.size() == b.r.size() && !memcmp(r.data(), b.r.data(), r.size() * sizeof(T)); }
        } R[2];
        for (int w = 0; w < 2; w++) {
            da_handle h = w ? fresh.h : used.h;
            c.apply(h);
            opt_s(h, "outlier handling", OUT[out]);
            opt_i(h, "outlier label", olab);
            OK(DA(T, da_nn_set_data, h, n, p, X.data(), X.ld));
            OK(DA(T, da_nn_set_labels, h, n, ky.back().data()));
            OK(DA(T, da_nn_set_targets, h, n, kz.back().data()));
            Res &x = R[w];
            if (ops & 1) {
                std::vector<da_int> a((size_t)q * c.k);
                std::vector<T> b((size_t)q * c.k);
                x.st.push_back(DA(T, da_nn_kneighbors, h, q, p, Q.data(), Q.ld, a.data(), b.data(), c.k, 1));
                x.i.insert(x.i.end(), a.begin(), a.end());
                x.r.insert(x.r.end(), b.begin(), b.end());
            }
            if (ops & 2) {
                x.st.push_back(DA(T, da_nn_radius_neighbors, h, q, p, Q.data(), Q.ld, c.radius, 1, ops & 1));
                if (!x.st.back()) {
                    da_int dim = q + 1;
                    std::vector<da_int> a(dim);
                    x.st.push_back(da_handle_get_result_int(h, da_nn_radius_neighbors_count, &dim, a.data()));
                    x.i.insert(x.i.end(), a.begin(), a.end());
                    dim = a[q];
                    std::vector<T> b(dim + 1);
                    if (dim > 0)
                        x.st.push_back(DA(T, da_handle_get_result, h, da_nn_radius_neighbors_distances, &dim, b.data()));
                    x.r.insert(x.r.end(), b.begin(), b.end());
                }
            }
            for (int md = 0; md < 2; md++) {
                auto mode = md ? radius_search_mode : knn_search_mode;
                if (ops & (4 << md)) {
                    std::vector<da_int> a(q);
                    x.st.push_back(DA(T, da_nn_classifier_predict, h, q, p, Q.data(), Q.ld, a.data(), mode));
                    if (!x.st.back())
                        x.i.insert(x.i.end(), a.begin(), a.end());
                }
                if (ops & 16) {
                    std::vector<T> b(q);
                    x.st.push_back(DA(T, da_nn_regressor_predict, h, q, p, Q.data(), Q.ld, b.data(), mode));
                    if (!x.st.back())
                        x.r.insert(x.r.end(), b.begin(), b.end());
                }
            }
        }
        REQUIRE(R[0].st == R[1].st, "history", "step %d: the used handle's statuses differ from a fresh one's", s);
        REQUIRE(R[0] == R[1], "history", "step %d: the used handle's results differ from a fresh one's", s);
    }
}
PROPERTY(C09, history, 6000, 90000,
         "2 to 4 rounds of new options, data, labels and targets on one handle, each followed by random queries and predictions; statuses and results equal those of a fresh handle bit for bit; every case is non-trivial") {
    g.flip() ? history<double>(g) : history<float>(g);
}
