// C11: k-means against a reference of each algorithm and against what its results must satisfy.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;
static const char *ALG[] = {"lloyd", "elkan", "macqueen", "hartigan-wong"};
static const char *EMPTY[] = {"ignore", "error", "split"};
static const char *INIT[] = {"supplied", "k-means++", "random", "random partitions", "afk-mc2"};

template <class T> struct Conf {
    int alg = 0, empty = 0, init = 0;
    bool cosine = false, normalize = true, mixed = false;
    da_int k = 2, maxit = 300, ninit = 1, seed = 0;
    T tol = 0;
    da_order o = column_major;
    void apply(da_handle h) const {
        opt_order(h, o);
        opt_s(h, "algorithm", ALG[alg]);
        opt_s(h, "empty clusters", EMPTY[empty]);
        opt_s(h, "initialization method", INIT[init]);
        opt_s(h, "distance", cosine ? "cosine" : "euclidean");
        opt_s(h, "normalize data", normalize ? "yes" : "no");
        opt_s(h, "mixed precision", mixed ? "yes" : "no");
        opt_i(h, "max_iter", maxit);
        opt_i(h, "n_init", ninit);
        opt_i(h, "seed", seed);
        opt_r<T>(h, "convergence tolerance", tol);
    }
    std::string str() const {
        return std::string(ALG[alg]) + (cosine ? " cosine" : "") + (cosine && !normalize ? " unnormalized" : "") + " k=" + std::to_string(k) + " init=" + INIT[init] + " empty=" + EMPTY[empty] + " maxit=" + std::to_string(maxit) + " ninit=" + std::to_string(ninit) + " seed=" + std::to_string(seed) + " tol=" + std::to_string((double)tol) + (mixed ? " mixed" : "") + " " + on(o);
    }
};
// clustered, integer or plain data; for unnormalized cosine the rows are of unit length
template <class T> static Mat<T> gen_data(Gen &g, da_int n, da_int p, bool unit) {
    int shape = (int)g.below(4);
    Mat<T> X(n, p, column_major, 0);
    bool big = (int64_t)n * p > 1500;
    Gen s;
    if (big)
        s.rng = g.below(1u << 30) * 77777 + 5;
    Gen &r = big ? s : g;
    if (shape < 2) {
        int nb = (int)g.range(1, 7);
        std::vector<double> cen(nb * p);
        for (auto &c : cen)
            c = g.normal() * 4;
        for (da_int i = 0; i < n; i++) {
            int b = (int)r.below(nb);
            for (da_int j = 0; j < p; j++)
                X(i, j) = (T)(cen[b * p + j] + (shape ? 0.3 : 1.5) * r.normal());
        }
    } else
        for (da_int j = 0, kind = shape == 2 ? 1 : (int)g.pick({0, 2, 3, 4}); j < p; j++)
            for (da_int i = 0; i < n; i++)
                X(i, j) = (T)gen_value<T>(r, kind, j);
    if (n > 3 && g.chance(1, 5))
        for (da_int j = 0; j < p; j++)
            X(n / 2, j) = X(0, j), X(n - 1, j) = X(0, j);
    for (auto &x : X.v)
        if (std::fabs(x) < 1e-4)
            x = 0; // the norm of a row of tiny numbers may count as zero
    if (unit)
        for (da_int i = 0; i < n; i++) {
            L s = 0;
            for (da_int j = 0; j < p; j++)
                s += (L)X(i, j) * X(i, j);
            for (da_int j = 0; j < p; j++)
                X(i, j) = s > 0 ? (T)(X(i, j) / sqrtl(s)) : (T)(j == 0);
        }
    return X;
}
template <class T> struct Res {
    da_status st = da_status_success;
    std::vector<T> c; // column-major k x p
    std::vector<da_int> lab;
    da_int n = 0, p = 0, k = 0, it = 0;
    T inertia = 0;
    L C(da_int i, da_int j) const { return c[j * k + i]; }
};
template <class T> static L norm2(const Mat<T> &X, da_int i) {
    L s = 0;
    for (da_int j = 0; j < X.p; j++)
        s += (L)X(i, j) * X(i, j);
    return s;
}
// squared distance or cosine distance between a sample and row c of a k x p column-major array
template <class T, class V> static L dist(const Conf<T> &c, const Mat<T> &X, da_int i, const V *cen, da_int k, da_int cl) {
    L d = 0, nx = 0;
    for (da_int j = 0; j < X.p; j++) {
        L x = X(i, j), y = cen[j * k + cl];
        if (c.cosine)
            d += x * y, nx += x * x;
        else
            d += (x - y) * (x - y);
    }
    if (c.cosine)
        return 1 - (c.normalize ? (nx > 0 ? d / sqrtl(nx) : 0) : d);
    return d;
}
// by how much two such distances may be misjudged
template <class T> static L slack(const Conf<T> &c, const Mat<T> &X, da_int i, L cmax) {
    L u = 8 * EPS<T> * (X.p + 8);
    if (c.cosine)
        return u;
    return u * (norm2(X, i) + cmax);
}
template <class T> static da_status run(da_handle h, const Conf<T> &c, const Mat<T> &X, const Mat<T> *C, const std::string &what, Res<T> &r) {
    c.apply(h);
    opt_i(h, "n_clusters", 1); // no more than there are samples
    OK(DA(T, da_kmeans_set_data, h, X.n, X.p, X.data(), X.ld));
    opt_i(h, "n_clusters", c.k);
    if (C)
        OK(DA(T, da_kmeans_set_init_centres, h, C->data(), C->ld));
    r.st = DA(T, da_kmeans_compute, h);
    r.n = X.n, r.p = X.p, r.k = c.k;
    if (r.st != da_status_success && r.st != da_status_maxit)
        return r.st;
    T info[6];
    da_int dim = 6;
    OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
    REQUIRE(info[0] == X.n && info[1] == X.p && info[2] == c.k, "rinfo", "%s: sizes in rinfo are %g %g %g", what.c_str(), (double)info[0], (double)info[1], (double)info[2]);
    r.it = (da_int)info[3], r.inertia = info[4];
    REQUIRE(r.it >= 0 && r.it <= c.maxit, "iterations", "%s: %d iterations of at most %d", what.c_str(), (int)r.it, (int)c.maxit);
    Guarded<T> cen(c.k * X.p);
    dim = c.k * X.p;
    OK(DA(T, da_handle_get_result, h, da_kmeans_cluster_centres, &dim, cen.data()));
    r.c.resize(c.k * X.p);
    for (da_int i = 0; i < c.k; i++)
        for (da_int j = 0; j < X.p; j++)
            r.c[j * c.k + i] = cen[rc(c.o, c.k, X.p, i, j)];
    Guarded<da_int> lab(X.n);
    dim = X.n;
    OK(da_handle_get_result_int(h, da_kmeans_labels, &dim, lab.data()));
    REQUIRE(cen.ok() && lab.ok(), "beyond", "%s: results were written beyond their size", what.c_str());
    r.lab.assign(lab.v.begin(), lab.v.begin() + X.n);
    REQUIRE(X.pad_ok() && (!C || C->pad_ok()), "padding", "%s: padding changed", what.c_str());
    return r.st;
}
// what every result must satisfy
template <class T> static void check(da_handle h, Gen &g, const Conf<T> &c, const Mat<T> &X, const Res<T> &r, const std::string &what) {
    da_int n = X.n, p = X.p, k = c.k;
    L cmax = 0;
    for (da_int l = 0; l < k; l++) {
        L s = 0;
        for (da_int j = 0; j < p; j++) {
            REQUIRE(std::isfinite(r.c[j * k + l]), "finite", "%s: centre %d has coordinate %g", what.c_str(), (int)l, (double)r.c[j * k + l]);
            s += r.C(l, j) * r.C(l, j);
        }
        cmax = std::max(cmax, s);
        if (c.cosine)
            REQUIRE(s == 0 || std::fabs(s - 1) < 20 * EPS<T> * (p + 4), "unit centres", "%s: centre %d has squared length %.17g", what.c_str(), (int)l, (double)s);
    }
    std::vector<da_int> cnt(k, 0);
    L inertia = 0, scale = 0;
    bool nearest = c.alg != 3 || r.st == da_status_success;
    for (da_int i = 0; i < n; i++) {
        da_int l = r.lab[i];
        REQUIRE(l >= 0 && l < k, "label range", "%s: label %d of sample %d", what.c_str(), (int)l, (int)i);
        cnt[l]++;
        L d = dist(c, X, i, r.c.data(), k, l);
        inertia += d, scale += c.cosine ? 1 : 0;
        L t = slack(c, X, i, cmax);
        if (c.cosine && c.alg == 1) { // angles are kept to the root of the precision, in every iteration
            L A = sqrtl(EPS<T>) * (4 + 2 * r.it);
            t += A * (sqrtl(2 * std::max<L>(0, d)) + A);
        }
        for (da_int m = 0; nearest && m < k; m++) {
            L dm = dist(c, X, i, r.c.data(), k, m);
            REQUIRE(d <= dm + t, "nearest", "%s: sample %d is in cluster %d at %.10g but centre %d is at %.10g (slack %.3g)", what.c_str(), (int)i, (int)l, (double)d, (int)m, (double)dm, (double)t);
        }
    }
    L ti = 4 * EPS<T> * (n + p + 4) * (inertia + scale) + (L)std::numeric_limits<T>::min();
    REQUIRE(std::fabs(inertia - r.inertia) <= ti, "inertia", "%s: inertia %.12g, expected %.12g", what.c_str(), (double)r.inertia, (double)inertia);
    // with a zero tolerance the labels were stable, so the centres are the means
    if ((c.tol == 0 && r.st == da_status_success) || c.alg == 3) {
        std::vector<L> m(k * p, 0), a(k * p, 0);
        for (da_int i = 0; i < n; i++) {
            L s = c.cosine && c.normalize ? sqrtl(norm2(X, i)) : 1;
            for (da_int j = 0; j < p && s > 0; j++)
                m[j * k + r.lab[i]] += X(i, j) / s, a[j * k + r.lab[i]] += std::fabs(X(i, j)) / s;
        }
        for (da_int l = 0; l < k; l++) {
            if (!cnt[l])
                continue;
            L s = cnt[l], aa = 0;
            if (c.cosine) {
                s = 0;
                for (da_int j = 0; j < p; j++)
                    s += m[j * k + l] * m[j * k + l], aa += a[j * k + l];
                s = sqrtl(s);
                if (s <= 200 * EPS<T> * (n + 4) * aa)
                    continue; // the directions cancel
            }
            for (da_int j = 0; j < p; j++) {
                L e = m[j * k + l] / s, t = 8 * EPS<T> * (n + 8) * (c.cosine ? aa * 2 : a[j * k + l]) / s;
                // a split point is taken out of a mean, which cancels
                if (c.empty == 2)
                    for (da_int i = 0; i < n; i++)
                        t = std::max(t, 16 * EPS<T> * (n + 8) * (L)std::fabs(X(i, j)));
                REQUIRE(std::fabs(e - r.C(l, j)) <= t, "mean", "%s: centre %d has coordinate %d %.12g, the mean of its %d samples is %.12g", what.c_str(), (int)l, (int)j, (double)r.C(l, j), (int)cnt[l], (double)e);
            }
        }
        if (c.empty == 1 || (c.empty == 2 && c.alg != 3))
            for (da_int l = 0; l < k; l++)
                REQUIRE(cnt[l] > 0, "empty", "%s: cluster %d is empty", what.c_str(), (int)l);
    }
    if (c.alg == 3 && r.st == da_status_success)
        for (da_int i = 0; i < n; i++) {
            da_int l = r.lab[i];
            if (cnt[l] == 1)
                continue;
            L d = dist(c, X, i, r.c.data(), k, l) * cnt[l] / (cnt[l] - 1);
            for (da_int m = 0; m < k; m++)
                if (m != l) {
                    L dm = dist(c, X, i, r.c.data(), k, m) * cnt[m] / (cnt[m] + 1);
                    REQUIRE(d <= dm + slack(c, X, i, cmax) * 4, "transfer", "%s: moving sample %d from cluster %d to %d lowers the inertia (%.10g > %.10g)", what.c_str(), (int)i, (int)l, (int)m, (double)d, (double)dm);
                }
        }
    // predict and transform new points and the training points
    for (int rep = 0; rep < 2; rep++) {
        bool own = rep == 1;
        da_int m = own ? n : g.chance(1, 20) ? (da_int)g.range(500, 1100) : (da_int)g.size(1, 12);
        Mat<T> Y = own ? X : gen_mat<T>(g, m, p, c.o, (int)g.below(5));
        if (c.cosine && !c.normalize && !own) {
            Gen q;
            q.rng = g.below(1u << 20) + 3;
            Y = gen_data<T>(q, m, p, true).as(c.o, 2);
        }
        Guarded<da_int> lab(m);
        Mat<T> D(m, k, c.o, gen_extra(g));
        OK(DA(T, da_kmeans_predict, h, m, p, Y.data(), Y.ld, lab.data()));
        OK(DA(T, da_kmeans_transform, h, m, p, Y.data(), Y.ld, D.data(), D.ld));
        REQUIRE(lab.ok() && D.pad_ok(), "beyond", "%s: predict or transform wrote beyond its result", what.c_str());
        for (da_int i = 0; i < m; i++) {
            REQUIRE(lab[i] >= 0 && lab[i] < k, "predict range", "%s: predicted label %d", what.c_str(), (int)lab[i]);
            L t = slack(c, Y, i, cmax), best = INFINITY;
            for (da_int l = 0; l < k; l++) {
                L d = dist(c, Y, i, r.c.data(), k, l), got = D(i, l);
                best = std::min(best, d);
                if (c.cosine)
                    REQUIRE(std::fabs(std::min<L>(2, std::max<L>(0, d)) - got) <= t, "transform", "%s: distance of point %d to centre %d is %.12g, expected %.12g", what.c_str(), (int)i, (int)l, (double)got, (double)d);
                else {
                    L e = std::min(sqrtl(t), d > 0 ? t / sqrtl(d) : sqrtl(t)) + 4 * EPS<T> * sqrtl(d);
                    REQUIRE(std::fabs(sqrtl(d) - got) <= e, "transform", "%s: distance of point %d to centre %d is %.12g, expected %.12g", what.c_str(), (int)i, (int)l, (double)got, (double)sqrtl(d));
                }
            }
            // cosine distances are not scaled when predicting
            L tt = t;
            L d = dist(c, Y, i, r.c.data(), k, lab[i]);
            REQUIRE(d <= best + tt, "predict", "%s: point %d of %d (%s) is predicted in cluster %d at %.12g, the nearest is at %.12g", what.c_str(), (int)i, (int)m, own ? "training" : "new", (int)lab[i], (double)d, (double)best);
        }
    }
}
template <class T> static Conf<T> gen_conf(Gen &g, da_int n) {
    Conf<T> c;
    c.alg = (int)g.below(4);
    c.k = g.chance(1, 10) ? (da_int)g.range(1, n) : (da_int)g.range(1, std::min<da_int>(n, 8));
    if (c.alg == 3 && (c.k == 1 || c.k >= n))
        c.alg = (int)g.below(3);
    c.empty = (int)g.below(3);
    c.init = (int)g.below(5);
    c.cosine = c.alg != 3 && g.chance(1, 3);
    c.normalize = g.chance(3, 4);
    c.maxit = g.chance(1, 4) ? (da_int)g.range(1, 4) : 300;
    c.ninit = g.chance(1, 3) ? (da_int)g.range(2, 4) : 1;
    c.seed = (da_int)g.below(1000);
    c.tol = g.chance(1, 4) ? (T)g.pick({1e-4, 1e-2, 0.3}) : (T)0;
    c.o = gen_order(g);
    return c;
}
static da_int gen_n(Gen &g) { return g.chance(1, g.thorough ? 15 : 30) ? (da_int)g.range(200, 2300) : (da_int)g.size(1, 40); }
template <class T> static Mat<T> gen_centres(Gen &g, const Conf<T> &c, const Mat<T> &X) {
    Mat<T> C(c.k, X.p, c.o, gen_extra(g));
    int how = (int)g.below(3);
    for (da_int l = 0; l < c.k; l++) {
        da_int i = (da_int)g.below(X.n);
        for (da_int j = 0; j < X.p; j++)
            C(l, j) = how == 0 ? (T)(g.normal() * 3) : how == 1 ? X(i, j) : (T)(X(i, j) + 0.5 * g.normal());
    }
    return C;
}
template <class T> static void results(Gen &g) {
    perturb(g);
    Handle h;
    init<T>(h, da_handle_kmeans);
    int rounds = g.chance(1, 3) ? 2 : 1;
    for (int q = 0; q < rounds; q++) {
        da_int n = gen_n(g), p = g.chance(1, 15) ? (da_int)g.range(16, 40) : (da_int)g.size(1, 6);
        Conf<T> c = gen_conf<T>(g, n);
        if (n > 100 && c.alg == 2)
            n = 40 + n % 60, c.k = std::min(c.k, n);
        c.k = n > 200 && c.k > 30 && !g.chance(1, 6) ? 1 + c.k % 30 : c.k;
        if (c.alg == 3 && (c.k == 1 || c.k >= n))
            c.alg = 0;
        Mat<T> X = gen_data<T>(g, n, p, c.cosine && !c.normalize).as(c.o, gen_extra(g));
        Mat<T> C = gen_centres(g, c, X);
        int nt = gen_threads(g);
        std::string what = std::string(tn<T>()) + " n=" + std::to_string(n) + " p=" + std::to_string(p) + " " + c.str() + " threads=" + std::to_string(nt) + (q ? " reused" : "");
        g.note("%s %s", what.c_str(), show(X, 4).c_str());
        g.label(ALG[c.alg]), g.label(INIT[c.init]);
        Threads t(nt);
        Res<T> r;
        da_status s = run(h, c, X, c.init == 0 ? &C : nullptr, what, r);
        if (s == da_status_empty_clusters) {
            REQUIRE(c.empty == 1 || c.alg == 3, "status", "%s: returned that a cluster is empty", what.c_str());
            g.label("empty");
            continue;
        }
        REQUIRE(s == da_status_success || s == da_status_maxit, "status", "%s: returned %d", what.c_str(), (int)s);
        REQUIRE(s == da_status_success || c.alg == 3 || r.it == c.maxit, "maxit", "%s: status maxit after %d iterations", what.c_str(), (int)r.it);
        if (c.k > 1 && n > c.k)
            g.nontrivial();
        check(h, g, c, X, r, what);
        // again, on the same handle: with one thread, the same result to the last bit
        if (nt == 1 && g.chance(1, 3)) {
            Res<T> r2;
            run(h, c, X, c.init == 0 ? &C : nullptr, what, r2);
            REQUIRE(r2.st == r.st && r2.c == r.c && r2.lab == r.lab && r2.it == r.it, "repeatable", "%s: another run with the same seed differs", what.c_str());
        }
        // the best of several runs is no worse than the first of them
        if (c.ninit > 1 && c.init != 0 && g.chance(1, 2)) {
            Conf<T> c1 = c;
            c1.ninit = 1;
            Res<T> r1;
            Handle h1;
            init<T>(h1, da_handle_kmeans);
            if (run(h1, c1, X, (Mat<T> *)nullptr, what, r1) != da_status_empty_clusters)
                REQUIRE(r.inertia <= r1.inertia * (1 + 1000 * EPS<T>) + (c.cosine ? n * 10 * EPS<T> : 0), "best run", "%s: inertia %.10g, but the first run alone has %.10g", what.c_str(), (double)r.inertia, (double)r1.inertia);
        }
    }
}
PROPERTY(C11, results, 20000, 200000, "more than one cluster and more samples than clusters") {
    g.flip() ? results<double>(g) : results<float>(g);
}

// the iterations of Lloyd (and Elkan, which only avoids distances) and MacQueen from given centres
struct Trace {
    std::vector<L> c;
    std::vector<da_int> lab;
    bool empty = false, stable = false;
    int moves = 0;
};
template <class T> static Trace reference(const Conf<T> &c, const Mat<T> &X, const Mat<T> &C0) {
    da_int n = X.n, p = X.p, k = c.k;
    Trace t;
    t.c.resize(k * p);
    L cmax = 0;
    auto unit = [&](std::vector<L> &m, da_int l) {
        L s = 0;
        for (da_int j = 0; j < p; j++)
            s += m[j * k + l] * m[j * k + l];
        if (s < 1e-6 && s > 0)
            throw pbt::Discard(); // nearly cancelling directions
        for (da_int j = 0; j < p && s > 0; j++)
            m[j * k + l] /= sqrtl(s);
    };
    for (da_int l = 0; l < k; l++) {
        for (da_int j = 0; j < p; j++)
            t.c[j * k + l] = C0(l, j);
        if (c.cosine)
            unit(t.c, l);
    }
    auto nearest = [&](da_int i) {
        da_int b = 0;
        std::vector<L> d(k);
        cmax = 0;
        for (da_int l = 0; l < k; l++) {
            d[l] = dist(c, X, i, t.c.data(), k, l);
            L s = 0;
            for (da_int j = 0; j < p; j++)
                s += t.c[j * k + l] * t.c[j * k + l];
            cmax = std::max(cmax, s);
            if (d[l] < d[b])
                b = l;
        }
        L sl = slack(c, X, i, cmax) * (20 + n);
        if (c.cosine && c.alg == 1)
            sl += 50 * EPS<T> + sqrtl(EPS<T>) * sqrtl(std::max<L>(0, d[b])) * 10;
        for (da_int l = 0; l < k; l++)
            if (l != b && d[l] - d[b] <= sl)
                throw pbt::Discard(); // too close to call
        return b;
    };
    auto mean = [&](da_int l) {
        std::vector<L> m(p, 0);
        da_int cnt = 0;
        L total = 0, sum = 0;
        for (da_int i = 0; i < n; i++)
            if (t.lab[i] == l) {
                cnt++;
                L s = c.cosine && c.normalize ? sqrtl(norm2(X, i)) : 1;
                for (da_int j = 0; j < p && s > 0; j++)
                    m[j] += X(i, j) / s, total += std::fabs(X(i, j)) / s;
            }
        for (L x : m)
            sum += x * x;
        if (c.cosine && total > 0 && sum < 1e-6)
            throw pbt::Discard(); // the directions cancel
        for (da_int j = 0; j < p; j++)
            t.c[j * k + l] = cnt && !c.cosine ? m[j] / cnt : m[j]; // an empty cluster is put at the origin
        if (c.cosine)
            unit(t.c, l);
        return cnt;
    };
    if (c.alg == 2) {
        t.lab.resize(n);
        for (da_int i = 0; i < n; i++)
            t.lab[i] = nearest(i);
        for (da_int l = 0; l < k; l++)
            mean(l);
    }
    for (da_int it = 0; it < c.maxit; it++) {
        std::vector<da_int> old = t.lab;
        if (c.alg == 2) {
            for (da_int i = 0; i < n; i++) {
                da_int b = nearest(i), a = t.lab[i];
                if (a != b) {
                    t.lab[i] = b;
                    mean(a), mean(b);
                    t.moves++;
                }
            }
        } else {
            t.lab.resize(n);
            for (da_int i = 0; i < n; i++)
                t.lab[i] = nearest(i);
            if (it > 0)
                for (da_int i = 0; i < n; i++)
                    t.moves += old[i] != t.lab[i];
            for (da_int l = 0; l < k; l++)
                mean(l);
        }
        std::vector<char> used(k);
        for (da_int i = 0; i < n; i++)
            used[t.lab[i]] = 1;
        for (da_int l = 0; l < k; l++)
            t.empty |= !used[l];
        if (t.empty && c.empty == 1)
            return t;
        if (t.empty && c.empty == 2)
            throw pbt::Discard();
        if (it > 1 && old == t.lab) {
            t.stable = true;
            break;
        }
    }
    if (!t.stable)
        for (da_int i = 0; i < n; i++)
            t.lab[i] = nearest(i);
    return t;
}
template <class T> static void iterations(Gen &g) {
    da_int n = g.chance(1, 40) ? (da_int)g.range(200, 1500) : (da_int)g.size(2, 40), p = (da_int)g.size(1, 5);
    Conf<T> c = gen_conf<T>(g, n);
    c.alg = (int)g.below(3);
    if (n > 100 && c.alg == 2)
        n = 60 + n % 30;
    c.k = (da_int)g.range(1, std::min<da_int>(n, g.chance(1, 5) ? 20 : 6));
    c.init = 0, c.ninit = 1, c.tol = 0;
    c.maxit = g.flip() ? (da_int)g.range(1, 6) : 300;
    Mat<T> X = gen_data<T>(g, n, p, c.cosine && !c.normalize).as(c.o, gen_extra(g));
    Mat<T> C = gen_centres(g, c, X);
    int nt = gen_threads(g);
    std::string what = std::string(tn<T>()) + " n=" + std::to_string(n) + " p=" + std::to_string(p) + " " + c.str() + " threads=" + std::to_string(nt);
    g.note("%s %s C=%s", what.c_str(), show(X, 4).c_str(), show(C, 4).c_str());
    Trace w = reference(c, X, C);
    if (w.moves > 0)
        g.nontrivial();
    g.label(ALG[c.alg]), g.label(w.empty ? "an empty cluster" : "no empty cluster");
    Threads t(nt);
    Handle h;
    init<T>(h, da_handle_kmeans);
    Res<T> r;
    da_status s = run(h, c, X, &C, what, r);
    if (w.empty && c.empty == 1) {
        REQUIRE(s == da_status_empty_clusters, "empty error", "%s: a cluster became empty, but the status is %d", what.c_str(), (int)s);
        return;
    }
    da_status e = w.stable ? da_status_success : da_status_maxit;
    REQUIRE(s == e, "status", "%s: returned %d, expected %d", what.c_str(), (int)s, (int)e);
    L cm = 1;
    for (da_int i = 0; i < n; i++)
        cm = std::max(cm, norm2(X, i));
    for (size_t i = 0; i < w.c.size(); i++)
        REQUIRE(std::fabs(w.c[i] - r.c[i]) <= 50 * EPS<T> * (n + 10) * sqrtl(cm) * (c.cosine ? 30 : 1), "centres", "%s: coordinate %d of centre %d is %.12g, expected %.12g", what.c_str(), (int)(i / c.k), (int)(i % c.k), (double)r.c[i], (double)w.c[i]);
    for (da_int i = 0; i < n; i++)
        REQUIRE(w.lab[i] == r.lab[i], "labels", "%s: sample %d has label %d, expected %d", what.c_str(), (int)i, (int)r.lab[i], (int)w.lab[i]);
}
PROPERTY(C11, iterations, 20000, 200000, "a sample moves to another cluster after the first assignment") {
    g.flip() ? iterations<double>(g) : iterations<float>(g);
}

// well separated groups: found from one point of each, in every algorithm and precision; and by k-means++
template <class T> static void groups(Gen &g) {
    Conf<T> c;
    da_int p = (da_int)g.range(1, 5);
    c.k = (da_int)g.range(2, 9);
    c.alg = (int)g.below(4), c.o = gen_order(g);
    c.empty = (int)g.below(3);
    da_int n = c.k + (da_int)g.range(1, g.chance(1, 10) ? 900 : 30);
    bool points = g.chance(1, 3); // every group is a single repeated point
    c.mixed = sizeof(T) == 8 && g.chance(1, 2);
    c.init = points ? 1 : 0;
    c.maxit = g.chance(1, 2) ? 300 : (da_int)g.range(1, 3);
    c.tol = c.mixed ? (T)1e-4 : (T)0;
    c.seed = (da_int)g.below(1000);
    Mat<T> X(n, p, c.o, gen_extra(g)), C(c.k, p, c.o, gen_extra(g));
    std::vector<da_int> grp(n);
    std::vector<std::vector<int>> at;
    while ((da_int)at.size() < c.k) {
        std::vector<int> v;
        for (da_int j = 0; j < p; j++)
            v.push_back((int)g.range(-9, 9) * 16);
        if (std::find(at.begin(), at.end(), v) == at.end())
            at.push_back(v);
    }
    for (da_int i = 0; i < n; i++) {
        grp[i] = i < c.k ? i : (da_int)g.below(c.k);
        for (da_int j = 0; j < p; j++) {
            X(i, j) = (T)(at[grp[i]][j] + (points ? 0 : g.range(-2, 2) * 0.25));
            if (i < c.k)
                C(i, j) = X(i, j);
        }
    }
    std::string what = std::string(tn<T>()) + " groups n=" + std::to_string(n) + " p=" + std::to_string(p) + " " + c.str();
    g.note("%s %s", what.c_str(), show(X, 4).c_str());
    g.nontrivial();
    Threads t(gen_threads(g));
    Handle h;
    init<T>(h, da_handle_kmeans);
    Res<T> r;
    da_status s = run(h, c, X, c.init == 0 ? &C : nullptr, what, r);
    REQUIRE(s == da_status_success || (s == da_status_maxit && c.maxit < 4), "status", "%s: returned %d", what.c_str(), (int)s);
    std::vector<da_int> map(c.k, -1);
    for (da_int i = 0; i < n; i++) {
        if (c.init == 0)
            REQUIRE(r.lab[i] == grp[i], "groups", "%s: sample %d of group %d has label %d", what.c_str(), (int)i, (int)grp[i], (int)r.lab[i]);
        da_int &m = map[grp[i]];
        REQUIRE(m < 0 || m == r.lab[i], "groups", "%s: samples of group %d have labels %d and %d", what.c_str(), (int)grp[i], (int)m, (int)r.lab[i]);
        m = r.lab[i];
    }
    std::set<da_int> distinct(map.begin(), map.end());
    REQUIRE((da_int)distinct.size() == c.k, "groups", "%s: two groups share a label", what.c_str());
    if (points)
        REQUIRE(r.inertia == 0, "inertia", "%s: inertia %g of repeated points", what.c_str(), (double)r.inertia);
    check(h, g, c, X, r, what);
}
PROPERTY(C11, groups, 6000, 60000, "always") { g.flip() ? groups<double>(g) : groups<float>(g); }

// a request that is refused leaves nothing inconsistent behind
template <class T> static void refused(Gen &g) {
    Handle h;
    init<T>(h, da_handle_kmeans);
    Conf<T> c;
    da_int n = (da_int)g.range(4, 12), p = (da_int)g.range(1, 4);
    c.k = (da_int)g.range(2, 3), c.o = gen_order(g), c.init = 0;
    Mat<T> X = gen_data<T>(g, n, p, false).as(c.o, gen_extra(g)), C = gen_centres(g, c, X);
    std::string what = std::string(tn<T>()) + " refused n=" + std::to_string(n) + " p=" + std::to_string(p) + " " + c.str();
    g.nontrivial();
    Res<T> r;
    bool trained = g.flip();
    if (trained && run(h, c, X, &C, what, r) == da_status_empty_clusters)
        return;
    int how = (int)g.below(5);
    g.note("%s trained=%d how=%d", what.c_str(), trained, how);
    da_status s;
    auto results = [&]() { // whatever is still reported is the old result
        da_int dim = 100000;
        std::vector<T> cen(100000, (T)-77);
        if (DA(T, da_handle_get_result, h, da_kmeans_cluster_centres, &dim, cen.data()) == da_status_success) {
            REQUIRE(trained, "stale", "%s: centres without a result", what.c_str());
            for (da_int i = 0; i < c.k; i++)
                for (da_int j = 0; j < p; j++)
                    REQUIRE(cen[rc(c.o, c.k, p, i, j)] == r.c[j * c.k + i], "stale", "%s: centres changed", what.c_str());
            REQUIRE(cen[c.k * p] == (T)-77, "stale", "%s: more centres than before", what.c_str());
        }
        std::vector<da_int> lab(5000, -77);
        da_int m = 1;
        if (DA(T, da_kmeans_predict, h, m, p, X.data(), X.ld, lab.data()) == da_status_success)
            REQUIRE(lab[0] >= 0 && lab[0] < c.k && lab[1] == -77, "stale", "%s: label %d predicted", what.c_str(), (int)lab[0]);
    };
    if (!trained) {
        c.apply(h);
        OK(DA(T, da_kmeans_set_data, h, X.n, X.p, X.data(), X.ld));
        opt_i(h, "n_clusters", c.k);
    }
    if (how == 0) { // more clusters than samples
        da_status os = da_options_set_int(h, "n_clusters", n + (da_int)g.range(1, 3));
        if (os == da_status_success) {
            opt_s(h, "initialization method", "k-means++");
            s = DA(T, da_kmeans_compute, h);
            REQUIRE(s == da_status_incompatible_options, "too many clusters", "%s: returned %d", what.c_str(), (int)s);
        }
        results();
    } else if (how == 1) { // centres refused or of another number of clusters
        opt_i(h, "n_clusters", 4);
        s = DA(T, da_kmeans_set_init_centres, h, C.data(), (da_int)0);
        REQUIRE(s == da_status_invalid_leading_dimension, "leading dimension", "%s: returned %d", what.c_str(), (int)s);
        results();
        s = DA(T, da_kmeans_set_init_centres, h, (T *)nullptr, (da_int)9);
        REQUIRE(s == da_status_invalid_pointer, "null", "%s: returned %d", what.c_str(), (int)s);
        results();
    } else if (how == 2) { // fewer centres were supplied than are needed
        std::unique_ptr<T[]> few(new T[c.k * p]); // exactly the centres, so that reading more is noticed
        for (da_int i = 0; i < c.k; i++)
            for (da_int j = 0; j < p; j++)
                few[rc(c.o, c.k, p, i, j)] = C(i, j);
        OK(DA(T, da_kmeans_set_init_centres, h, few.get(), c.o == column_major ? c.k : p));
        opt_i(h, "n_clusters", 4);
        s = DA(T, da_kmeans_compute, h);
        REQUIRE(s == da_status_no_data || s == da_status_incompatible_options, "too few centres", "%s: computing 4 clusters from %d centres returned %d", what.c_str(), (int)c.k, (int)s);
        results();
    } else if (how == 3) { // centres for data of fewer features
        std::unique_ptr<T[]> few(new T[c.k * p]);
        for (da_int i = 0; i < c.k; i++)
            for (da_int j = 0; j < p; j++)
                few[rc(c.o, c.k, p, i, j)] = C(i, j);
        OK(DA(T, da_kmeans_set_init_centres, h, few.get(), c.o == column_major ? c.k : p));
        Mat<T> Y = gen_data<T>(g, n, p + 1, false).as(c.o, 0);
        OK(DA(T, da_kmeans_set_data, h, n, p + 1, Y.data(), Y.ld));
        opt_i(h, "n_clusters", c.k);
        s = DA(T, da_kmeans_compute, h);
        REQUIRE(s == da_status_no_data || s == da_status_incompatible_options, "narrow centres", "%s: computing with centres of fewer features returned %d", what.c_str(), (int)s);
    } else { // no centres
        Handle h2;
        init<T>(h2, da_handle_kmeans);
        c.apply(h2);
        OK(DA(T, da_kmeans_set_data, h2, X.n, X.p, X.data(), X.ld));
        s = DA(T, da_kmeans_compute, h2);
        REQUIRE(s == da_status_no_data, "no centres", "%s: computing without centres returned %d", what.c_str(), (int)s);
    }
}
PROPERTY(C11, refused, 1500, 8000, "always") { g.flip() ? refused<double>(g) : refused<float>(g); }
