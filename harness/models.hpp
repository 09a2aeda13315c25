// Models of every kind built from generated data and options, with everything the C
// interface lets a caller observe of them recorded byte for byte.
#pragma once
#include "da.hpp"

struct Opt {
    std::string k;
    char t;
    std::string s;
    da_int i;
    double r;
};
struct Rec {
    // name, status, bytes
    struct Item {
        std::string name;
        int status;
        std::vector<char> bytes;
        bool query; // a da_result, as opposed to an operation
    };
    std::vector<Item> items;
    template <class T> void add(const std::string &n, int st, const T *p, size_t k, bool q = false) {
        Item it{n, st, {}, q};
        if (st == 0 || (!q && (st == da_status_outlier_warning || st == da_status_numerical_difficulties || st == da_status_maxit)))
            it.bytes.assign((const char *)p, (const char *)(p + k));
        items.push_back(std::move(it));
    }
};
static const da_handle_type SAVABLE[] = {da_handle_approx_nn, da_handle_decision_forest, da_handle_decision_tree, da_handle_kmeans, da_handle_linmod,
                                         da_handle_nn, da_handle_pca, da_handle_kernel_pca, da_handle_svm};
inline const char *hname(da_handle_type t) {
    static const char *n[] = {"none", "linmod", "pca", "kmeans", "dbscan", "tree", "forest", "nlls", "nn", "svm", "interpolation", "approx_nn", "kernel_pca", "tsne"};
    return n[(int)t];
}
static const int RESULTS[] = {1, 2, 101, 102, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 501, 502, 503, 504, 505, 506,
                              601, 602, 603, 604, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 801, 802, 901, 1001};

template <class T> struct Model {
    da_handle_type type;
    int sub = 0; // kind of linear model, SVM; neighbors: 1 labels 2 targets 3 both
    std::vector<Opt> opts;
    Mat<T> X, Q, Y;          // training data, queries, points to invert
    std::vector<T> y;        // responses
    std::vector<da_int> lab; // classes
    da_int nc = 2;
    T radius = 1;
    bool huge_results = true;
    void os(const char *k, const std::string &v) { opts.push_back({k, 's', v, 0, 0}); }
    void oi(const char *k, da_int v) { opts.push_back({k, 'i', "", v, 0}); }
    void orl(const char *k, double v) { opts.push_back({k, 'r', "", 0, v}); }
    const Opt *find(const char *k) const {
        const Opt *r = nullptr;
        for (auto &o : opts)
            if (o.k == k)
                r = &o;
        return r;
    }

    static Model gen(Gen &g, da_handle_type type, da_int fixed_n = 0) {
        Model m;
        m.type = type;
        da_int n = (da_int)g.size(6, g.thorough ? 120 : 50), p = (da_int)g.size(1, 7);
        if (type == da_handle_tsne)
            n = (da_int)g.range(10, 40);
        if (fixed_n)
            n = fixed_n;
        da_order o = gen_order(g);
        int kind = g.pick({0, 1, 2, 3, 5});
        m.X = gen_mat<T>(g, n, p, o, kind);
        m.Q = gen_mat<T>(g, (da_int)g.range(1, 12), p, o, kind);
        m.os("storage order", o == row_major ? "row-major" : "column-major");
        m.nc = (da_int)g.range(2, 4);
        m.y.resize(n);
        m.lab.resize(n);
        bool learn = g.chance(3, 4);
        for (da_int i = 0; i < n; i++) {
            double v = 0;
            for (da_int j = 0; j < p; j++)
                v += (j % 2 ? -1 : 1) * (double)m.X(i, j);
            m.y[i] = (T)(learn ? v + 0.1 * g.normal() : g.normal());
            m.lab[i] = i < m.nc ? i : learn ? ((da_int)std::floor(std::fabs(v)) % m.nc) : (da_int)g.below(m.nc);
        }
        m.gen_options(g);
        return m;
    }
    void gen_options(Gen &g) {
        da_int n = X.n, p = X.p;
        auto maybe = [&](int a = 1, int b = 2) { return g.chance(a, b); };
        switch (type) {
        case da_handle_linmod: {
            sub = g.chance(2, 3) ? linmod_model_mse : linmod_model_logistic;
            oi("intercept", g.flip());
            if (sub == linmod_model_mse) {
                os("scaling", g.pick({"auto", "none", "centering", "scale only", "standardize"}));
                int m = (int)g.below(7);
                const char *meth[] = {"auto", "qr", "svd", "cholesky", "sparse_cg", "lbfgs", "coord"};
                os("optim method", meth[m]);
                if ((m != 1 && maybe()) || m == 6)
                    orl("lambda", g.pick({0.01, 0.1, 1.0, 5.0}));
                if (m == 6 || (m == 0 && maybe(1, 3)))
                    orl("alpha", g.pick({0.0, 0.5, 1.0}));
            } else {
                if (maybe())
                    os("logistic constraint", g.pick({"rsc", "ssc"}));
                if (maybe())
                    orl("lambda", g.pick({0.1, 1.0}));
                for (da_int i = 0; i < n; i++)
                    y[i] = (T)lab[i];
            }
            oi("optim iteration limit", g.pick({20, 200, 2000}));
            break;
        }
        case da_handle_pca:
            os("pca method", g.pick({"covariance", "correlation", "svd"}));
            oi("n_components", (da_int)g.range(0, std::min(n, p)));
            os("svd solver", g.pick({"auto", "auto", "gesdd", "gesvd", "gesvdx", "syevd", "randomized"}));
            if (maybe())
                oi("store u", 1);
            if (maybe(1, 3))
                oi("whiten", 1);
            if (maybe(1, 3))
                os("degrees of freedom", "biased");
            break;
        case da_handle_kernel_pca:
            os("kernel", g.pick({"linear", "rbf", "poly", "sigmoid"}));
            oi("n_components", (da_int)g.range(0, std::min<da_int>(n, 6)));
            if (maybe())
                orl("gamma", g.pick({0.1, 0.5, 1.0}));
            if (maybe())
                os("copy data", "no");
            if (maybe())
                os("fit inverse transform", "yes");
            if (maybe(1, 3))
                os("eigensolver", g.pick({"syevd", "randomized"}));
            if (maybe(1, 4))
                os("remove zero eig", "yes");
            break;
        case da_handle_kmeans:
            oi("n_clusters", (da_int)g.range(1, std::min<da_int>(n, 5)));
            oi("n_init", (da_int)g.range(1, 3));
            oi("max_iter", (da_int)g.range(1, 30));
            os("algorithm", g.pick({"lloyd", "elkan", "macqueen", "hartigan-wong"}));
            os("initialization method", g.pick({"k-means++", "random", "random partitions", "afk-mc2"}));
            if (maybe(1, 3))
                os("distance", g.pick({"euclidean", "cosine"}));
            if (maybe(1, 3))
                os("normalize data", g.pick({"yes", "no"}));
            if (maybe(1, 4))
                os("empty clusters", g.pick({"ignore", "split"}));
            break;
        case da_handle_dbscan:
            orl("eps", g.pick({0.3, 0.5, 1.0, 2.0}));
            oi("min samples", (da_int)g.range(1, 6));
            os("algorithm", g.pick({"auto", "brute", "kd tree", "ball tree"}));
            os("metric", g.pick({"euclidean", "manhattan", "sqeuclidean", "minkowski"}));
            if (maybe(1, 3))
                orl("power", g.pick({1.0, 2.0, 3.0}));
            if (maybe())
                oi("leaf size", (da_int)g.range(1, 20));
            break;
        case da_handle_decision_tree:
        case da_handle_decision_forest:
            oi("seed", (da_int)g.range(0, 1000));
            oi("maximum depth", (da_int)g.range(0, 8));
            os("scoring function", g.pick({"gini", "entropy", "misclassification"}));
            if (maybe(1, 3))
                oi("maximum features", (da_int)g.range(1, p));
            if (maybe(1, 3))
                os("histogram", "yes");
            if (type == da_handle_decision_forest) {
                oi("number of trees", (da_int)g.range(1, 12));
                os("features selection", g.pick({"sqrt", "log2", "all"}));
                os("bootstrap", g.pick({"yes", "no"}));
                oi("block size", (da_int)g.range(1, 40));
            } else if (maybe(1, 3))
                os("predict probabilities", "no");
            break;
        case da_handle_nn: {
            sub = (int)g.range(0, 3);
            int m = (int)g.below(8);
            const char *met[] = {"euclidean", "manhattan", "minkowski", "sqeuclidean", "cosine", "euclidean_gemm", "sqeuclidean_gemm", "inner product"};
            os("metric", met[m]);
            if (m == 2)
                orl("minkowski parameter", g.pick({1.0, 1.5, 2.0, 3.0}));
            os("algorithm", m < 4 ? g.pick({"auto", "brute", "kd tree", "ball tree"}) : g.pick({"auto", "brute"}));
            oi("number of neighbors", (da_int)g.range(1, std::min<da_int>(n, 7)));
            os("weights", g.pick({"uniform", "distance"}));
            if (maybe())
                oi("leaf size", (da_int)g.range(1, 20));
            radius = (T)g.pick({0.5, 1.0, 3.0, 8.0});
            orl("radius", radius);
            os("outlier handling", g.pick({"manual", "most frequent"}));
            break;
        }
        case da_handle_approx_nn:
            os("metric", g.pick({"euclidean", "sqeuclidean", "cosine", "inner product"}));
            oi("n_list", (da_int)g.range(1, std::min<da_int>(n, 6)));
            oi("n_probe", (da_int)g.range(1, 6));
            oi("number of neighbors", (da_int)g.range(1, 5));
            oi("k-means_iter", (da_int)g.range(1, 10));
            if (maybe(1, 3))
                orl("train fraction", g.pick({0.5, 0.9}));
            break;
        case da_handle_svm:
            sub = g.pick({(int)svc, (int)nusvc, (int)svr, (int)nusvr});
            os("kernel", g.pick({"linear", "rbf", "poly", "sigmoid"}));
            if (maybe())
                orl("gamma", g.pick({0.1, 0.5, 1.0}));
            if (maybe())
                orl("c", g.pick({0.1, 1.0, 10.0}));
            orl("nu", g.pick({0.1, 0.3, 0.5}));
            oi("max_iter", g.pick({50, 500, 5000}));
            if (maybe(1, 3)) {
                oi("predict probabilities", 1);
                oi("n_folds", 2);
            }
            if (maybe(1, 4))
                oi("max_ws_size", (da_int)g.range(2, 20));
            if (sub == svc || sub == nusvc)
                for (da_int i = 0; i < n; i++)
                    y[i] = (T)lab[i];
            break;
        case da_handle_tsne:
            oi("max_iter", (da_int)g.range(1, 30));
            orl("perplexity", g.pick({2.0, 3.0, 5.0}));
            os("init", g.pick({"pca", "random"}));
            oi("n_components", 2);
            orl("theta", g.pick({0.0, 0.5}));
            break;
        default:
            break;
        }
    }
    // a bound may be that of the data set before: then not every option can be set
    da_status set_options(da_handle h, bool strict = true) const {
        for (auto &o : opts) {
            da_status s = o.t == 's' ? da_options_set_string(h, o.k.c_str(), o.s.c_str()) : o.t == 'i' ? da_options_set_int(h, o.k.c_str(), o.i) : DA(T, da_options_set_real, h, o.k.c_str(), (T)o.r);
            REQUIRE(s == 0 || !strict, "option", "%s: setting %s returned %d", hname(type), o.k.c_str(), (int)s);
            if (s)
                return s;
        }
        return da_status_success;
    }
    da_status select(da_handle h) const {
        if (type == da_handle_linmod)
            return DA(T, da_linmod_select_model, h, (linmod_model)sub);
        if (type == da_handle_svm)
            return DA(T, da_svm_select_model, h, (da_svm_model)sub);
        return da_status_success;
    }
    da_status set_data(da_handle h) const {
        const T *x = X.data();
        da_int n = X.n, p = X.p, ld = X.ld;
        switch (type) {
        case da_handle_linmod:
            return DA(T, da_linmod_define_features, h, n, p, x, ld, y.data());
        case da_handle_pca:
            return DA(T, da_pca_set_data, h, n, p, x, ld);
        case da_handle_kernel_pca:
            return DA(T, da_kernel_pca_set_data, h, n, p, x, ld);
        case da_handle_kmeans:
            return DA(T, da_kmeans_set_data, h, n, p, x, ld);
        case da_handle_dbscan:
            return DA(T, da_dbscan_set_data, h, n, p, x, ld);
        case da_handle_decision_tree:
            return DA(T, da_tree_set_training_data, h, n, p, nc, x, ld, lab.data(), nullptr);
        case da_handle_decision_forest:
            return DA(T, da_forest_set_training_data, h, n, p, nc, x, ld, lab.data(), nullptr);
        case da_handle_nn: {
            da_status s = DA(T, da_nn_set_data, h, n, p, x, ld);
            if (s == 0 && (sub & 1))
                s = DA(T, da_nn_set_labels, h, n, lab.data());
            if (s == 0 && (sub & 2))
                s = DA(T, da_nn_set_targets, h, n, y.data());
            return s;
        }
        case da_handle_approx_nn:
            return DA(T, da_approx_nn_set_training_data, h, n, p, x, ld);
        case da_handle_svm:
            return DA(T, da_svm_set_data, h, n, p, x, ld, y.data());
        case da_handle_tsne:
            return DA(T, da_tsne_set_data, h, n, p, x, ld);
        default:
            return da_status_success;
        }
    }
    da_status fit(da_handle h) const {
        switch (type) {
        case da_handle_linmod:
            return DA(T, da_linmod_fit, h);
        case da_handle_pca:
            return DA(T, da_pca_compute, h);
        case da_handle_kernel_pca:
            return DA(T, da_kernel_pca_compute, h);
        case da_handle_kmeans:
            return DA(T, da_kmeans_compute, h);
        case da_handle_dbscan:
            return DA(T, da_dbscan_compute, h);
        case da_handle_decision_tree:
            return DA(T, da_tree_fit, h);
        case da_handle_decision_forest:
            return DA(T, da_forest_fit, h);
        case da_handle_approx_nn:
            return DA(T, da_approx_nn_train_and_add, h);
        case da_handle_svm:
            return DA(T, da_svm_compute, h);
        case da_handle_tsne:
            return DA(T, da_tsne_compute, h);
        default:
            return da_status_success;
        }
    }
    // everything in one go: 0, or the status of the first failure
    da_status build(da_handle h, bool strict = true) const {
        da_status s = set_options(h, strict);
        if (s == 0)
            s = select(h);
        if (s == 0)
            s = set_data(h);
        return s ? s : fit(h);
    }
    // the operations an inference needs, on the queries Q
    void operations(da_handle h, Rec &r) const {
        da_int q = Q.n, p = Q.p, ld = Q.ld;
        const T *x = Q.data();
        auto mat = [&](da_int a, da_int b) { return Mat<T>(a, b, Q.order, 1); };
        switch (type) {
        case da_handle_linmod: {
            std::vector<T> pr(q, (T)-7), obs(q);
            for (da_int i = 0; i < q; i++)
                obs[i] = (T)(i % 2);
            T loss = -7;
            da_status s = DA(T, da_linmod_evaluate_model, h, q, p, x, ld, pr.data(), nullptr, nullptr);
            r.add("predict", s, pr.data(), pr.size());
            s = DA(T, da_linmod_evaluate_model, h, q, p, x, ld, pr.data(), obs.data(), &loss);
            r.add("predict with loss", s, pr.data(), pr.size());
            r.add("loss", s, &loss, 1);
            break;
        }
        case da_handle_pca:
        case da_handle_kernel_pca: {
            da_int dim = 4096;
            std::vector<T> buf(dim);
            da_int k = 0;
            if (type == da_handle_pca) {
                da_int d1 = 16;
                da_status s = DA(T, da_handle_get_result, h, da_rinfo, &d1, buf.data());
                k = s ? 1 : (da_int)buf[2];
            } else {
                da_int d1 = 1, v = 0;
                da_status s = da_handle_get_result_int(h, da_kernel_pca_n_components, &d1, &v);
                k = s ? 1 : v;
            }
            if (k < 1 || k > 1000)
                k = 1;
            Mat<T> t = mat(q, k);
            bool kp = type == da_handle_kernel_pca;
            da_status s = kp ? DA(T, da_kernel_pca_transform, h, q, p, x, ld, t.data(), t.ld) : DA(T, da_pca_transform, h, q, p, x, ld, t.data(), t.ld);
            r.add("transform", s, t.v.data(), t.v.size());
            Mat<T> yy = mat(q, k), b = mat(q, p);
            for (da_int i = 0; i < q; i++)
                for (da_int j = 0; j < k; j++)
                    yy(i, j) = (T)(((i * 7 + j * 3) % 11) * 0.25 - 1);
            s = kp ? DA(T, da_kernel_pca_inverse_transform, h, q, k, yy.data(), yy.ld, b.data(), b.ld) : DA(T, da_pca_inverse_transform, h, q, k, yy.data(), yy.ld, b.data(), b.ld);
            r.add("inverse transform", s, b.v.data(), b.v.size());
            break;
        }
        case da_handle_kmeans: {
            da_int k = find("n_clusters")->i;
            Mat<T> t = mat(q, k);
            std::vector<da_int> l(q, -7);
            da_status s = DA(T, da_kmeans_predict, h, q, p, x, ld, l.data());
            r.add("predict", s, l.data(), l.size());
            s = DA(T, da_kmeans_transform, h, q, p, x, ld, t.data(), t.ld);
            r.add("transform", s, t.v.data(), t.v.size());
            break;
        }
        case da_handle_decision_tree:
        case da_handle_decision_forest: {
            bool f = type == da_handle_decision_forest;
            std::vector<da_int> l(q, -7);
            da_status s = f ? DA(T, da_forest_predict, h, q, p, x, ld, l.data()) : DA(T, da_tree_predict, h, q, p, x, ld, l.data());
            r.add("predict", s, l.data(), l.size());
            Mat<T> t = mat(q, nc), u = mat(q, nc);
            s = f ? DA(T, da_forest_predict_proba, h, q, p, x, ld, t.data(), nc, t.ld) : DA(T, da_tree_predict_proba, h, q, p, x, ld, t.data(), nc, t.ld);
            r.add("predict proba", s, t.v.data(), t.v.size());
            s = f ? DA(T, da_forest_predict_log_proba, h, q, p, x, ld, u.data(), nc, u.ld) : DA(T, da_tree_predict_log_proba, h, q, p, x, ld, u.data(), nc, u.ld);
            r.add("predict log proba", s, u.v.data(), u.v.size());
            std::vector<da_int> tl(q);
            for (da_int i = 0; i < q; i++)
                tl[i] = i % nc;
            T acc = -7;
            s = f ? DA(T, da_forest_score, h, q, p, x, ld, tl.data(), &acc) : DA(T, da_tree_score, h, q, p, x, ld, tl.data(), &acc);
            r.add("score", s, &acc, 1);
            break;
        }
        case da_handle_nn: {
            da_int k = find("number of neighbors")->i;
            std::vector<da_int> ind((size_t)q * k, -7);
            std::vector<T> dist((size_t)q * k, (T)-7);
            da_status s = DA(T, da_nn_kneighbors, h, q, p, x, ld, ind.data(), dist.data(), 0, 1);
            r.add("kneighbors", s, ind.data(), ind.size());
            r.add("kneighbors distances", s, dist.data(), dist.size());
            s = DA(T, da_nn_radius_neighbors, h, q, p, x, ld, radius, 1, 1);
            r.add("radius neighbors", s, &radius, 1);
            for (auto mode : {knn_search_mode, radius_search_mode}) {
                std::vector<da_int> l(q, -7);
                std::vector<T> v(q, (T)-7), pr((size_t)q * nc, (T)-7);
                const char *mn = mode == knn_search_mode ? "knn" : "radius";
                if (!(sub & 1) && !(sub & 2))
                    break;
                s = DA(T, da_nn_classifier_predict, h, q, p, x, ld, l.data(), mode);
                r.add(std::string("classify ") + mn, s, l.data(), l.size());
                s = DA(T, da_nn_classifier_predict_proba, h, q, p, x, ld, pr.data(), mode);
                r.add(std::string("proba ") + mn, s, pr.data(), pr.size());
                s = DA(T, da_nn_regressor_predict, h, q, p, x, ld, v.data(), mode);
                r.add(std::string("regress ") + mn, s, v.data(), v.size());
            }
            std::vector<da_int> cl(nc + 8, -7);
            da_int ncl = nc + 8;
            s = DA(T, da_nn_classes, h, &ncl, cl.data());
            r.add("classes", s, cl.data(), cl.size());
            break;
        }
        case da_handle_approx_nn: {
            da_int k = find("number of neighbors")->i;
            std::vector<da_int> ind((size_t)q * k, -7);
            std::vector<T> dist((size_t)q * k, (T)-7);
            da_status s = DA(T, da_approx_nn_kneighbors, h, q, p, x, ld, ind.data(), dist.data(), 0, 1);
            r.add("kneighbors", s, ind.data(), ind.size());
            r.add("kneighbors distances", s, dist.data(), dist.size());
            break;
        }
        case da_handle_svm: {
            std::vector<T> pr(q, (T)-7);
            da_status s = DA(T, da_svm_predict, h, q, p, x, ld, pr.data());
            r.add("predict", s, pr.data(), pr.size());
            bool cl = sub == svc || sub == nusvc;
            if (cl) {
                for (auto shape : {ovr, ovo}) {
                    da_int c = nc == 2 ? 1 : shape == ovr ? nc : nc * (nc - 1) / 2;
                    Mat<T> d = mat(q, c);
                    s = DA(T, da_svm_decision_function, h, q, p, x, ld, shape, d.data(), d.ld);
                    r.add(shape == ovr ? "decision ovr" : "decision ovo", s, d.v.data(), d.v.size());
                }
                Mat<T> t = mat(q, nc), u = mat(q, nc);
                s = DA(T, da_svm_predict_proba, h, q, p, x, ld, t.data(), t.ld);
                r.add("proba", s, t.v.data(), t.v.size());
                s = DA(T, da_svm_predict_log_proba, h, q, p, x, ld, u.data(), u.ld);
                r.add("log proba", s, u.v.data(), u.v.size());
            }
            std::vector<T> yt(q);
            for (da_int i = 0; i < q; i++)
                yt[i] = cl ? (T)(i % nc) : (T)(i * 0.5 - 1);
            T sc = -7;
            s = DA(T, da_svm_score, h, q, p, x, ld, yt.data(), &sc);
            r.add("score", s, &sc, 1);
            break;
        }
        default:
            break;
        }
    }
    static void results(da_handle h, Rec &r, const std::vector<int> &which) {
        static thread_local std::vector<T> buf(1 << 15);
        static thread_local std::vector<da_int> ib(1 << 15);
        for (int w : which) {
            if (w > 604 && w < 700)
                continue;
            // the size comes from asking with too small an array
            std::fill_n(buf.begin(), 4096, (T)-7); // some leave part of the array as it is
            da_int dim = 0;
            da_status s = DA(T, da_handle_get_result, h, (da_result)w, &dim, buf.data());
            if (s == da_status_invalid_array_dimension && dim > 0 && dim <= (da_int)buf.size())
                s = DA(T, da_handle_get_result, h, (da_result)w, &dim, buf.data());
            r.add("result " + std::to_string(w), s, buf.data(), std::max<da_int>(dim, 0), true);
            dim = 0;
            s = da_handle_get_result_int(h, (da_result)w, &dim, ib.data());
            if (s == da_status_invalid_array_dimension && dim > 0 && dim <= (da_int)ib.size())
                s = da_handle_get_result_int(h, (da_result)w, &dim, ib.data());
            r.add("int result " + std::to_string(w), s, ib.data(), std::max<da_int>(dim, 0), true);
        }
    }
    void options(da_handle h, Rec &r) const {
        for (auto &o : opts) {
            if (o.t == 's') {
                char b[128] = {0};
                da_int len = sizeof b;
                da_status s = da_options_get_string(h, o.k.c_str(), b, &len);
                r.add("option " + o.k, s, b, strlen(b));
            } else if (o.t == 'i') {
                da_int v = -7;
                da_status s = da_options_get_int(h, o.k.c_str(), &v);
                r.add("option " + o.k, s, &v, 1);
            } else {
                T v = -7;
                da_status s = DA(T, da_options_get_real, h, o.k.c_str(), &v);
                r.add("option " + o.k, s, &v, 1);
            }
        }
    }
    Rec observe(da_handle h) const {
        Rec r;
        operations(h, r); // first: some results are those of the last operation
        results(h, r, std::vector<int>(std::begin(RESULTS), std::end(RESULTS)));
        options(h, r);
        return r;
    }
    std::string text() const {
        std::string s = std::string(hname(type)) + " " + tn<T>() + " n=" + std::to_string(X.n) + " p=" + std::to_string(X.p) + " ld=" + std::to_string(X.ld) + " sub=" + std::to_string(sub) + " nc=" + std::to_string(nc) + " {";
        for (auto &o : opts)
            s += o.k + "=" + (o.t == 's' ? o.s : o.t == 'i' ? std::to_string(o.i) : std::to_string(o.r)) + "; ";
        return s + "}";
    }
};
// the first difference between two records; queries may be refused by the second one when
// 'lax' is set (a loaded model need not keep results that predictions do not use)
inline std::string differ(const Rec &a, const Rec &b, bool lax, int *refused = nullptr) {
    auto f = [](const Rec &r) {
        std::map<std::string, const Rec::Item *> m;
        for (auto &i : r.items)
            m[i.name] = &i;
        return m;
    };
    auto ma = f(a), mb = f(b);
    for (auto &kv : ma) {
        auto it = mb.find(kv.first);
        const Rec::Item *x = kv.second, *y = it == mb.end() ? nullptr : it->second;
        if (!y)
            return kv.first + " is missing";
        if (lax && x->query && y->status != 0) {
            if (x->status == 0 && refused)
                ++*refused;
            continue;
        }
        if (x->status != y->status)
            return kv.first + ": status " + std::to_string(x->status) + " and " + std::to_string(y->status);
        if (x->bytes.size() != y->bytes.size())
            return kv.first + ": " + std::to_string(x->bytes.size()) + " and " + std::to_string(y->bytes.size()) + " bytes";
        for (size_t i = 0; i < x->bytes.size(); i++)
            if (x->bytes[i] != y->bytes[i] && getenv("DBG"))
                for (size_t e = 0; e * 4 < x->bytes.size(); e++)
                    fprintf(stderr, "%s[%zu] %g %g\n", kv.first.c_str(), e, ((float *)x->bytes.data())[e], ((float *)y->bytes.data())[e]);
        for (size_t i = 0; i < x->bytes.size(); i++)
            if (x->bytes[i] != y->bytes[i])
                return kv.first + ": differs at byte " + std::to_string(i) + " of " + std::to_string(x->bytes.size());
    }
    return "";
}
