// C10: the inverted file index. The lists a vector belongs to and the lists a query probes
// follow from the centroids; what a search may return follows from both.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;

static const char *MET[] = {"sqeuclidean", "euclidean", "inner product", "cosine"};

namespace {
template <class T> struct Rows { // vectors, normalized for the cosine metric as the index stores them
    da_int p;
    std::vector<std::vector<L>> v;
};
template <class T> struct Ann {
    int met;
    da_order o;
    da_int p, n_list, n_probe, k_opt, iter, seed;
    T frac;
    std::vector<std::vector<L>> idx; // in the order in which they were added
    std::vector<std::vector<L>> cen;
    // the quantity that is minimised, and the size of its rounding error
    L key(const std::vector<L> &a, const std::vector<L> &b, L &tol) const {
        L d = 0, na = 0, nb = 0, ab = 0, ad = 0;
        for (da_int l = 0; l < p; l++)
            d += (a[l] - b[l]) * (a[l] - b[l]), na += a[l] * a[l], nb += b[l] * b[l], ab += a[l] * b[l], ad += fabsl(a[l] * b[l]);
        double u = 6 * EPS<T> * (p + 8);
        if (met < 2) {
            tol = u * (na + nb);
            return d;
        }
        tol = met == 3 ? u * std::max<L>(ad, sqrtl(na * nb)) : u * ad;
        return -ab;
    }
    L shown(L k) const { return met == 1 ? sqrtl(std::max<L>(k, 0)) : met == 2 ? -k : met == 3 ? 1 + k : k; }
    std::vector<L> row(const Mat<T> &X, da_int i) const {
        std::vector<L> r(p);
        L s = 0;
        for (da_int j = 0; j < p; j++)
            r[j] = X(i, j), s += r[j] * r[j];
        if (met == 3 && s > 0)
            for (auto &x : r)
                x /= sqrtl(s);
        return r;
    }
};
// lists that are certainly / possibly among the m nearest
template <class T> void lists(const Ann<T> &a, const std::vector<L> &x, da_int m, std::vector<char> &cert, std::vector<char> &poss) {
    da_int nl = a.n_list;
    std::vector<L> k(nl), t(nl);
    for (da_int c = 0; c < nl; c++)
        k[c] = a.key(x, a.cen[c], t[c]);
    cert.assign(nl, 0), poss.assign(nl, 0);
    for (da_int c = 0; c < nl; c++) {
        da_int maybe = 0, sure = 0;
        for (da_int e = 0; e < nl; e++)
            if (e != c) {
                L s = 2 * (t[c] + t[e]);
                maybe += k[e] <= k[c] + s;
                sure += k[e] < k[c] - s;
            }
        cert[c] = maybe < m;
        poss[c] = sure < m;
    }
}
template <class T> void read_centroids(Ann<T> &a, da_handle h, const char *when) {
    da_int dim = a.n_list * a.p;
    Guarded<T> c(dim);
    OK(DA(T, da_handle_get_result, h, da_approx_nn_cluster_centroids, &dim, c.data()));
    REQUIRE(c.ok(), "overrun", "the centroids overran their array");
    std::vector<std::vector<L>> n(a.n_list, std::vector<L>(a.p));
    for (da_int i = 0; i < a.n_list; i++)
        for (da_int j = 0; j < a.p; j++)
            n[i][j] = c[rc(a.o, a.n_list, a.p, i, j)];
    REQUIRE(a.cen.empty() || a.cen == n, "centroids", "the centroids changed after %s", when);
    a.cen = n;
}
template <class T> void check_info(const Ann<T> &a, da_handle h, const char *when) {
    da_int dim = 4;
    T r[4];
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, r));
    REQUIRE(r[0] == (T)a.n_list && r[1] == (T)a.idx.size() && r[2] == (T)a.p, "info", "after %s: n_list %g n_index %g n_features %g, expected %d %zu %d", when, (double)r[0], (double)r[1], (double)r[2], a.n_list, a.idx.size(), a.p);
    REQUIRE(r[3] >= 0 && r[3] <= a.iter, "info", "%g k-means iterations, the limit was %d", (double)r[3], a.iter);
    dim = a.n_list;
    Guarded<da_int> s(dim);
    OK(da_handle_get_result_int(h, da_approx_nn_list_sizes, &dim, s.data()));
    REQUIRE(s.ok(), "overrun", "the list sizes overran their array");
    std::vector<da_int> lo(a.n_list), hi(a.n_list);
    std::vector<char> ce, po;
    for (auto &x : a.idx) {
        lists(a, x, 1, ce, po);
        for (da_int c = 0; c < a.n_list; c++)
            lo[c] += ce[c], hi[c] += po[c];
    }
    da_int sum = 0;
    for (da_int c = 0; c < a.n_list; c++) {
        REQUIRE(s[c] >= lo[c] && s[c] <= hi[c], "list sizes", "after %s: list %d holds %d vectors, between %d and %d of those added are nearest to its centroid", when, c, s[c], lo[c], hi[c]);
        sum += s[c];
    }
    REQUIRE(sum == (da_int)a.idx.size(), "list sizes", "after %s: lists hold %d vectors of %zu", when, sum, a.idx.size());
}
template <class T> void train_checks(Ann<T> &a, const Mat<T> &X) {
    if (a.met < 2) { // centroids are means of training vectors
        for (da_int j = 0; j < a.p; j++) {
            L lo = INFINITY, hi = -INFINITY, s = 0;
            for (da_int i = 0; i < X.n; i++)
                lo = std::min<L>(lo, X(i, j)), hi = std::max<L>(hi, X(i, j)), s += X(i, j);
            L tol = 64 * EPS<T> * X.n * std::max(fabsl(lo), fabsl(hi));
            for (da_int c = 0; c < a.n_list; c++)
                REQUIRE((a.cen[c][j] >= lo - tol && a.cen[c][j] <= hi + tol) || a.cen[c][j] == 0, "centroid", "centroid %d coordinate %d is %Lg, the training data lies in [%Lg,%Lg]", c, j, a.cen[c][j], lo, hi);
            if (a.n_list == 1 && a.frac == 1)
                REQUIRE(fabsl(a.cen[0][j] - s / X.n) <= tol, "centroid", "the only centroid is %Lg, the mean is %Lg", a.cen[0][j], s / X.n);
        }
    } else
        for (da_int c = 0; c < a.n_list; c++) {
            L s = 0;
            for (L x : a.cen[c])
                s += x * x;
            REQUIRE(s == 0 || fabsl(s - 1) <= 1e3L * EPS<T> * (a.p + 8), "centroid", "centroid %d has squared norm %Lg", c, s);
        }
}
template <class T> void search(Gen &g, Ann<T> &a, da_handle h, const Mat<T> &X) {
    da_int n = (da_int)a.idx.size();
    a.n_probe = g.chance(1, 3) ? a.n_list : (da_int)g.range(1, a.n_list);
    opt_i(h, "n_probe", a.n_probe);
    da_int q = g.chance(1, 20) ? (da_int)g.range(1, 300) : (da_int)g.size(1, 12), k = g.chance(1, 6) ? n : (da_int)g.size(1, n);
    bool by_option = g.chance(1, 4), want_d = !g.chance(1, 5);
    opt_i(h, "number of neighbors", by_option ? k : (da_int)g.range(1, 9));
    Mat<T> Q = gen_mat<T>(g, q, a.p, a.o, (int)g.below(6));
    for (da_int i = 0; i < q; i++)
        if (g.chance(1, 3)) {
            da_int s = (da_int)g.below(X.n);
            for (da_int j = 0; j < a.p; j++)
                Q(i, j) = X(s, j);
        }
    Mat<T> Q0 = Q;
    Guarded<da_int> ind((size_t)q * k);
    Guarded<T> dst((size_t)q * k);
    g.note("; search q=%d k=%d probe=%d", q, k, a.n_probe);
    OK(DA(T, da_approx_nn_kneighbors, h, q, a.p, Q.data(), Q.ld, ind.data(), want_d ? dst.data() : nullptr, by_option ? 0 : k, want_d ? 1 : 0));
    REQUIRE(Q.v == Q0.v, "inputs", "the queries were written");
    REQUIRE(ind.ok() && dst.ok(), "overrun", "an output array was overrun");
    // lists each vector may be in
    std::vector<std::vector<char>> in(n);
    std::vector<char> ce, po;
    for (da_int i = 0; i < n; i++)
        lists(a, a.idx[i], 1, ce, in[i]);
    for (da_int j = 0; j < q; j++) {
        std::vector<L> x = a.row(Q, j);
        lists(a, x, a.n_probe, ce, po);
        std::vector<L> key(n), tol(n);
        std::vector<char> sure(n, 1), may(n, 0), seen(n, 0);
        da_int n_sure = 0, n_may = 0;
        for (da_int i = 0; i < n; i++) {
            key[i] = a.key(a.idx[i], x, tol[i]);
            for (da_int c = 0; c < a.n_list; c++)
                if (in[i][c]) {
                    sure[i] = sure[i] && ce[c];
                    may[i] = may[i] || po[c];
                }
            n_sure += sure[i], n_may += may[i];
        }
        da_int got = 0;
        L last = -INFINITY, lt = 0;
        for (da_int r = 0; r < k; r++) {
            da_int i = ind[rc(a.o, q, k, j, r)];
            T d = dst[rc(a.o, q, k, j, r)];
            if (i == -1) {
                if (want_d)
                    REQUIRE(d == (a.met == 2 ? -INFINITY : INFINITY), "distance", "query %d: no neighbour %d but distance %g", j, r, (double)d);
                continue;
            }
            REQUIRE(got == r, "order", "query %d: neighbour %d follows a missing one", j, r);
            REQUIRE(i >= 0 && i < n, "index", "query %d neighbour %d: index %d of %d", j, r, i, n);
            REQUIRE(!seen[i], "duplicate", "query %d: vector %d returned twice", j, i);
            REQUIRE(may[i], "list", "query %d: vector %d returned, which is in none of the probed lists", j, i);
            seen[i] = 1, got++;
            REQUIRE(key[i] >= last - 2 * (tol[i] + lt), "order", "query %d: neighbour %d (vector %d) out of order: %Lg after %Lg", j, r, i, key[i], last);
            if (key[i] > last)
                last = key[i], lt = tol[i];
            if (want_d) {
                L e = a.shown(key[i]), t = tol[i] * 2;
                if (a.met == 1)
                    t = std::min(sqrtl(t), e > 0 ? t / e : sqrtl(t)) + 4 * EPS<T> * e;
                if (a.met == 3)
                    t += 4 * EPS<T>;
                REQUIRE(fabsl(d - e) <= t + 1e-35L, "distance", "query %d: vector %d at %.17g, reference %.17Lg tol %.3Lg", j, i, (double)d, e, t);
            }
        }
        REQUIRE(got >= std::min(k, n_sure) && got <= n_may, "count", "query %d: %d neighbours of %d, the probed lists hold between %d and %d vectors", j, got, k, n_sure, n_may);
        for (da_int i = 0; i < n; i++)
            if (sure[i] && !seen[i])
                REQUIRE(got == k && key[i] >= last - 2 * (tol[i] + lt), "missed", "query %d: vector %d at %.17Lg is in a probed list and was not returned, the last of the %d returned is at %.17Lg", j, i, a.shown(key[i]), got, a.shown(last));
    }
}
template <class T> void history(Gen &g) {
    perturb(g);
    Ann<T> a;
    bool big = g.chance(1, 60);
    a.o = gen_order(g);
    a.met = (int)g.below(4);
    a.p = (da_int)g.size(1, big ? 4 : 8);
    da_int n = big ? (da_int)g.range(100, 700) : (da_int)g.size(1, 50);
    a.n_list = (da_int)g.size(1, std::min<da_int>(n, big ? 20 : 12));
    a.iter = (da_int)g.range(1, 12);
    a.seed = (da_int)g.below(1000);
    a.frac = g.chance(1, 3) ? (T)g.pick({0.5, 0.1, 0.9}) : (T)1;
    int th = big ? gen_threads(g) : g.chance(1, 8) ? 3 : 1;
    Threads t(th);
    int kind = (int)g.below(6);
    Mat<T> X = gen_mat<T>(g, n, a.p, a.o, kind), X0 = X;
    g.note("%s %s %s n=%d p=%d n_list=%d iter=%d seed=%d fraction=%g threads=%d", tn<T>(), on(a.o), MET[a.met], n, a.p, a.n_list, a.iter, a.seed, (double)a.frac, th);
    g.label(std::string("metric ") + MET[a.met]);
    g.label(std::string(on(a.o)) + "-major");
    // the settings through which the library lets its own tests choose block sizes
    for (const char *s : {"ivf.add_blk_sz", "ivf.query_blk_sz", "ivf.list_blk_sz"})
        OK(da_debug_set(s, g.chance(1, 3) ? std::to_string(g.range(1, 9)).c_str() : ""));
    Handle h;
    init<T>(h, da_handle_approx_nn);
    opt_order(h, a.o);
    opt_s(h, "metric", MET[a.met]);
    opt_i(h, "n_list", a.n_list);
    opt_i(h, "k-means_iter", a.iter);
    opt_i(h, "seed", a.seed);
    opt_r<T>(h, "train fraction", a.frac);
    OK(DA(T, da_approx_nn_set_training_data, h, n, a.p, X.data(), X.ld));
    int steps = (int)g.range(1, 5);
    bool trained = false, multi = false;
    std::vector<std::vector<L>> first;
    for (int s = 0; s < steps; s++) {
        int op = trained ? (int)g.below(8) : (int)g.below(2);
        if (op == 0 || (op == 1 && !trained) || (op == 1 && g.flip())) {
            bool both = op == 0 || g.chance(1, 3);
            if (both)
                OK(DA(T, da_approx_nn_train_and_add, h));
            else
                OK(DA(T, da_approx_nn_train, h));
            g.note("; %s", both ? "train+add" : "train");
            if (trained)
                g.label("trained again");
            a.idx.clear();
            a.cen.clear();
            read_centroids(a, h, "training");
            if (trained && th == 1) // sums over threads are not repeatable
                REQUIRE(a.cen == first, "retrain", "training again with the same data and seed gave other centroids");
            else if (!trained)
                first = a.cen;
            trained = true;
            train_checks(a, X);
            if (both)
                for (da_int i = 0; i < n; i++)
                    a.idx.push_back(a.row(X, i));
            check_info(a, h, "training");
        } else if (op <= 3) {
            da_int m = (da_int)g.size(1, big ? 200 : 20);
            Mat<T> A = gen_mat<T>(g, m, a.p, a.o, (int)g.below(6)), A0 = A;
            OK(DA(T, da_approx_nn_add, h, m, a.p, A.data(), A.ld));
            REQUIRE(A.v == A0.v, "inputs", "the data that was added was written");
            for (da_int i = 0; i < m; i++)
                a.idx.push_back(a.row(A, i));
            std::fill(A.v.begin(), A.v.end(), (T)1e9); // the index keeps its own copy
            g.note("; add %d", m);
            read_centroids(a, h, "adding data");
            check_info(a, h, "adding data");
            multi = true;
        } else if (!a.idx.empty()) {
            search(g, a, h, X);
        } else {
            std::vector<da_int> ind(1);
            std::vector<T> d(1);
            da_status st = DA(T, da_approx_nn_kneighbors, h, 1, a.p, X.data(), X.ld, ind.data(), d.data(), 1, 1);
            REQUIRE(st == da_status_no_data, "no data", "a search in an index without data returned %d", (int)st);
        }
    }
    if (!a.idx.empty())
        search(g, a, h, X);
    REQUIRE(X.v == X0.v, "inputs", "the training data was written");
    if (multi)
        g.label("data added later");
    g.nontrivial(a.n_list > 1 && !a.idx.empty());
}
} // namespace

PROPERTY(C10, history, 60000, 1000000,
         "random data (ties, repeated points, zero rows), metric, order, padding, number of lists, k-means iterations, training fraction, threads and a sequence of train, train and add, add, search; "
         "centroids, list sizes and what a search may and must return follow from a reference model with intervals for rounding; non-trivial: more than one list and data in the index") {
    g.flip() ? history<double>(g) : history<float>(g);
}
