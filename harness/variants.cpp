// C24: the vector variants of a kernel give the same answer. A variant is chosen through
// da_debug_set, the way the library's own tests choose one.
#include "da.hpp"
#include "pbt_main.cpp"
typedef long double L;

namespace {
static const char *ISA[] = {"scalar", "avx", "avx2", "avx512"};
void isa(const char *key, int v) { OK(da_debug_set(key, ISA[v])); }
bool near(L a, L b, L rel, L abs) { return a == b || fabsl(a - b) <= abs + rel * std::max(fabsl(a), fabsl(b)); }

// sizes around the lengths of a vector
da_int around(Gen &g) { return g.chance(1, 4) ? (da_int)g.size(1, 70) : std::max<da_int>(1, (da_int)(g.pick({2, 4, 8, 16, 32, 64}) + (int)g.range(-1, 3))); }

template <class T> void kernels(Gen &g) {
    perturb(g);
    static const char *NAME[] = {"rbf", "polynomial", "sigmoid"};
    da_int m = around(g), n = around(g), k = (da_int)g.size(1, 9);
    da_order o = gen_order(g);
    int w = (int)g.below(3);
    Mat<T> X = gen_mat<T>(g, m, k, o, g.pick({0, 1, 2, 3})), Y = gen_mat<T>(g, n, k, o, g.pick({0, 1, 2, 3}));
    T gamma = (T)g.pick({1.0, 0.0, 0.5, 0.125, 0.01, 1.7}), c = (T)g.pick({0.0, 1.0, -1.0, 0.5, -2.25});
    da_int deg = (da_int)g.range(1, 5), extra = gen_extra(g);
    g.note("%s %s %s m=%d n=%d k=%d gamma=%g c=%g degree=%d", tn<T>(), NAME[w], on(o), m, n, k, (double)gamma, (double)c, deg);
    g.label(NAME[w]);
    g.nontrivial(m > 1 && n > 1 && gamma != 0);
    std::vector<Mat<T>> D;
    for (int v = 0; v < 4; v++) {
        isa("kf.isa", v);
        D.emplace_back(m, n, o, extra);
        Mat<T> &d = D.back();
        switch (w) {
        case 0: OK(DA(T, da_rbf_kernel, o, m, n, k, X.data(), X.ld, Y.data(), Y.ld, d.data(), d.ld, gamma)); break;
        case 1: OK(DA(T, da_polynomial_kernel, o, m, n, k, X.data(), X.ld, Y.data(), Y.ld, d.data(), d.ld, gamma, deg, c)); break;
        default: OK(DA(T, da_sigmoid_kernel, o, m, n, k, X.data(), X.ld, Y.data(), Y.ld, d.data(), d.ld, gamma, c));
        }
        REQUIRE(d.pad_ok(), "padding", "the padding of D was written by the %s variant", ISA[v]);
        for (da_int i = 0; i < m; i++)
            for (da_int j = 0; j < n; j++) {
                // the argument of the function is allowed its rounding
                L dot = 0, ad = 0, nn = 0, l2 = 0, a = D[0](i, j), b = d(i, j), abs = 0;
                for (da_int l = 0; l < k; l++) {
                    L x = X(i, l), y = Y(j, l);
                    dot += x * y, ad += fabsl(x * y), nn += x * x + y * y, l2 += (x - y) * (x - y);
                }
                L u = 4 * EPS<T> * (k + 8);
                if (w == 0)
                    abs = std::min<L>(1, expl(-gamma * l2) * 4 * gamma * u * nn + expl(-gamma * l2) * 64 * EPS<T> * (1 + gamma * l2)) + 4 * std::numeric_limits<T>::min();
                else {
                    L s = fabsl(gamma * dot + c), e = u * (gamma * ad + fabsl(c));
                    abs = w == 1 ? deg * powl(s + e, deg - 1) * e + 64 * EPS<T> * powl(s, deg) : e + 64 * EPS<T>;
                }
                REQUIRE(near(a, b, 0, abs), "value", "%s(%d,%d): scalar %.17Lg, %s %.17Lg, tolerance %.3Lg", NAME[w], i, j, a, ISA[v], b, abs);
            }
    }
}

template <class T> void kmeans(Gen &g) {
    perturb(g);
    da_int k = std::min<da_int>(around(g), 40), p = g.flip() ? (da_int)g.size(1, 6) : std::min<da_int>(around(g), 35), n = k + (da_int)g.size(1, 90), it = (da_int)g.range(1, 6);
    da_order o = gen_order(g);
    bool elkan = g.flip();
    int nb = (int)g.range(1, 6);
    std::vector<double> cen(nb * p);
    for (auto &x : cen)
        x = g.normal() * 3;
    Mat<T> X(n, p, o, gen_extra(g)), C(k, p, o, gen_extra(g));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            X(i, j) = (T)(cen[(i % nb) * p + j] + g.normal());
    for (da_int i = 0; i < k; i++)
        for (da_int j = 0; j < p; j++)
            C(i, j) = X(i, j);
    g.note("%s %s %s n=%d p=%d k=%d iterations %d", tn<T>(), elkan ? "elkan" : "lloyd", on(o), n, p, k, it);
    g.label(elkan ? "elkan" : "lloyd");
    g.nontrivial(k > 1 && it > 1);
    // reference run: no sample may be within rounding of two centres, no cluster may empty
    std::vector<std::vector<L>> c(k, std::vector<L>(p));
    for (da_int i = 0; i < k; i++)
        for (da_int j = 0; j < p; j++)
            c[i][j] = C(i, j);
    for (da_int t = 0; t <= it + 1; t++) {
        std::vector<std::vector<L>> s(k, std::vector<L>(p));
        std::vector<da_int> cnt(k);
        for (da_int i = 0; i < n; i++) {
            L best = INFINITY, second = INFINITY, norm = 1;
            da_int b = 0;
            for (da_int e = 0; e < k; e++) {
                L d = 0;
                for (da_int j = 0; j < p; j++)
                    d += (X(i, j) - c[e][j]) * (X(i, j) - c[e][j]), norm = std::max(norm, fabsl(X(i, j)) + fabsl(c[e][j]));
                if (d < best)
                    second = best, best = d, b = e;
                else
                    second = std::min(second, d);
            }
            if (second - best < 300 * EPS<T> * (p + 8) * norm * norm)
                throw pbt::Discard();
            cnt[b]++;
            for (da_int j = 0; j < p; j++)
                s[b][j] += X(i, j);
        }
        for (da_int e = 0; e < k; e++) {
            if (!cnt[e])
                throw pbt::Discard();
            for (da_int j = 0; j < p; j++)
                c[e][j] = s[e][j] / cnt[e];
        }
    }
    std::vector<T> c0;
    std::vector<da_int> l0;
    da_status s0 = da_status_success;
    T in0 = 0;
    for (int v = 0; v < 4; v++) {
        isa("kmeans.isa", v);
        Handle h;
        init<T>(h, da_handle_kmeans);
        opt_order(h, o);
        opt_s(h, "algorithm", elkan ? "elkan" : "lloyd");
        opt_s(h, "initialization method", "supplied");
        opt_i(h, "n_clusters", k);
        opt_i(h, "max_iter", it);
        opt_r<T>(h, "convergence tolerance", (T)0);
        OK(DA(T, da_kmeans_set_data, h, n, p, X.data(), X.ld));
        OK(DA(T, da_kmeans_set_init_centres, h, C.data(), C.ld));
        da_status st = DA(T, da_kmeans_compute, h);
        REQUIRE(st == da_status_success || st == da_status_maxit, "status", "%s variant: status %d", ISA[v], (int)st);
        da_int dim = k * p;
        Guarded<T> cc(dim);
        OK(DA(T, da_handle_get_result, h, da_kmeans_cluster_centres, &dim, cc.data()));
        dim = n;
        Guarded<da_int> lab(dim);
        OK(da_handle_get_result_int(h, da_kmeans_labels, &dim, lab.data()));
        T info[100];
        dim = 100;
        OK(DA(T, da_handle_get_result, h, da_rinfo, &dim, info));
        REQUIRE(cc.ok() && lab.ok(), "overrun", "a result overran its array");
        if (!v) {
            c0.assign(cc.v.begin(), cc.v.begin() + k * p), l0.assign(lab.v.begin(), lab.v.begin() + n), s0 = st, in0 = info[4];
            continue;
        }
        REQUIRE(st == s0, "status", "scalar %d, %s %d", (int)s0, ISA[v], (int)st);
        for (da_int i = 0; i < n; i++)
            REQUIRE(lab[i] == l0[i], "label", "sample %d: scalar %d, %s %d", i, l0[i], ISA[v], lab[i]);
        for (da_int i = 0; i < k * p; i++)
            REQUIRE(near(cc[i], c0[i], 200 * EPS<T> * n, 200 * EPS<T> * n), "centre", "coordinate %d: scalar %.17g, %s %.17g", i, (double)c0[i], ISA[v], (double)cc[i]);
        REQUIRE(near(info[4], in0, 1e3 * EPS<T> * n, 1e4 * EPS<T> * n), "inertia", "scalar %.17g, %s %.17g", (double)in0, ISA[v], (double)info[4]);
    }
}

void svm(Gen &g) { // in double precision: a small tolerance pins the function down
    typedef double T;
    perturb(g);
    da_int n = std::max<da_int>(4, around(g)), p = (da_int)g.size(1, 5), mode = (da_int)g.below(2);
    da_order o = gen_order(g);
    Mat<T> X = gen_mat<T>(g, n, p, o, g.pick({0, 1, 2}));
    std::vector<T> y(n);
    for (da_int i = 0; i < n; i++) {
        double s = X(i, 0) + (p > 1 ? X(i, 1) : 0) + 0.7 * g.normal();
        y[i] = mode ? s : s > 0;
    }
    if (!mode)
        y[0] = 0, y[n - 1] = 1;
    T C = g.pick({1.0, 0.1, 10.0}), tol = 1e-6, gamma = g.pick({0.5, 0.1, 2.0}), eps = g.pick({0.1, 0.01, 0.0});
    g.note("%s %s n=%d p=%d C=%g gamma=%g epsilon=%g", mode ? "svr" : "svc", on(o), n, p, C, gamma, eps);
    g.label(mode ? "svr" : "svc");
    g.nontrivial(n > 6);
    bool both = g.flip();
    std::vector<T> f0;
    for (int v = 0; v < 4; v++) {
        isa("svm.isa", v);
        isa("kf.isa", both ? v : 0);
        Handle h;
        init<T>(h, da_handle_svm);
        OK(da_svm_select_model_d(h, mode ? svr : svc));
        opt_order(h, o);
        opt_s(h, "kernel", "rbf");
        opt_r<T>(h, "gamma", gamma);
        opt_r<T>(h, "c", C);
        opt_r<T>(h, "epsilon", eps);
        opt_r<T>(h, "tolerance", tol);
        OK(da_svm_set_data_d(h, n, p, X.data(), X.ld, y.data()));
        da_status st = da_svm_compute_d(h);
        if (st == da_status_numerical_difficulties || st == da_status_maxit)
            throw pbt::Discard(); // no solution to compare (nothing outside the tube, or the limit)
        OK(st);
        std::vector<T> f(n);
        if (mode)
            OK(da_svm_predict_d(h, n, p, X.data(), X.ld, f.data()));
        else {
            Mat<T> D(n, 1, o, 0);
            OK(da_svm_decision_function_d(h, n, p, X.data(), X.ld, ovr, D.data(), D.ld));
            for (da_int i = 0; i < n; i++)
                f[i] = D(i, 0);
        }
        if (!v) {
            f0 = f;
            continue;
        }
        // |w-w'|^2 is bounded by the duality gaps; the bias may differ, so take differences
        T bound = 4 * std::sqrt(2 * 2 * (mode ? 2 : 1) * n * C * tol);
        for (da_int i = 1; i < n; i++)
            REQUIRE(std::fabs((f[i] - f[0]) - (f0[i] - f0[0])) <= bound, "decision", "f(%d)-f(0): scalar %.10g, %s %.10g, bound %g", i, f0[i] - f0[0], ISA[v], f[i] - f[0], bound);
    }
}

template <class T> void tsne(Gen &g) {
    perturb(g);
    da_int n = std::max<da_int>(5, around(g)), p = (da_int)g.range(3, 5), nc = (da_int)g.range(1, 3), it = (da_int)g.range(1, 3);
    da_order o = gen_order(g);
    Mat<T> X = gen_mat<T>(g, n, p, o, g.pick({0, 1, 2})), Y(n, nc, o, gen_extra(g));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < nc; j++)
            Y(i, j) = (T)(g.normal());
    T perp = (T)g.range(1, std::max<da_int>(1, std::min<da_int>(30, (n - 1) / 3))), theta = (T)g.pick({0.0, 0.5, 0.2});
    g.note("%s %s n=%d p=%d components %d iterations %d perplexity %g theta %g", tn<T>(), on(o), n, p, nc, it, (double)perp, (double)theta);
    g.label(theta == 0 ? "exact" : "tree");
    g.nontrivial(nc > 1 && n > 6);
    std::vector<T> y0;
    T div0 = 0;
    for (int v = 0; v < 4; v++) {
        isa("tsne.isa", v);
        Handle h;
        init<T>(h, da_handle_tsne);
        opt_order(h, o);
        opt_i(h, "n_components", nc);
        opt_i(h, "max_iter", it);
        opt_r<T>(h, "perplexity", perp);
        opt_r<T>(h, "theta", theta);
        opt_r<T>(h, "learning rate", (T)1);
        opt_s(h, "init", "supplied");
        OK(DA(T, da_tsne_set_data, h, n, p, X.data(), X.ld));
        OK(DA(T, da_tsne_set_init_embedding, h, Y.data(), Y.ld));
        da_status st = DA(T, da_tsne_compute, h);
        REQUIRE(st == da_status_success || st == da_status_maxit, "status", "%s variant: status %d", ISA[v], (int)st);
        da_int dim = n * nc;
        Guarded<T> e(dim);
        OK(DA(T, da_handle_get_result, h, da_tsne_embedding, &dim, e.data()));
        REQUIRE(e.ok(), "overrun", "the embedding overran its array");
        if (!v) {
            y0.assign(e.v.begin(), e.v.begin() + dim);
            continue;
        }
        (void)div0;
        L tol = sizeof(T) == 8 ? 1e-9L : 1e-3L;
        for (da_int i = 0; i < dim; i++) {
            REQUIRE(std::isfinite((double)e[i]), "finite", "coordinate %d is %g", i, (double)e[i]);
            REQUIRE(near(e[i], y0[i], tol, tol), "embedding", "coordinate %d: scalar %.17g, %s %.17g", i, (double)y0[i], ISA[v], (double)e[i]);
        }
    }
}
} // namespace

PROPERTY(C24, kernels, 15000, 300000, "random X and Y of sizes around the vector lengths, kernel, order, padding; every variant against the scalar one within the rounding of the argument; non-trivial: more than one row of each and gamma not 0") {
    g.flip() ? kernels<double>(g) : kernels<float>(g);
}
PROPERTY(C24, kmeans, 6000, 120000, "random clustered data, Lloyd and Elkan with supplied centres; labels, centres and inertia of every variant; cases within rounding of a tie are discarded; non-trivial: several clusters and iterations") {
    g.flip() ? kmeans<double>(g) : kmeans<float>(g);
}
PROPERTY(C24, svm, 2500, 40000, "random data, SVC and SVR with an RBF kernel; the fitted functions of the variants agree within the bound of the stopping tolerance; non-trivial: more than six samples") { svm(g); }
PROPERTY(C24, tsne, 4000, 60000, "random data and starting embedding, exact and tree gradients; the embeddings of the variants after one to three iterations agree; non-trivial: at least two components and more than six samples") {
    g.flip() ? tsne<double>(g) : tsne<float>(g);
}
