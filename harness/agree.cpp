// C23: the answers of a model do not depend on how the data is stored, on the number of
// threads, on the queries that are asked together, or on what the handle did before.
#include "models.hpp"
#include "pbt_main.cpp"

static const da_handle_type KINDS[] = {da_handle_linmod, da_handle_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree, da_handle_decision_forest,
                                       da_handle_nn, da_handle_approx_nn, da_handle_svm, da_handle_kernel_pca, da_handle_tsne};

namespace {
// what was recorded, as numbers; matrices over the queries row by row
struct Val {
    int status;
    std::vector<double> v;
    da_int rows = 0, cols = 0; // of an operation's answer
};
typedef std::map<std::string, Val> Vals;
bool is_int(da_handle_type t, const std::string &n) {
    if (n.rfind("int result", 0) == 0 || n == "kneighbors" || n == "classes" || n.rfind("classify", 0) == 0)
        return true;
    return n == "predict" && (t == da_handle_kmeans || t == da_handle_decision_tree || t == da_handle_decision_forest);
}
bool is_mat(da_handle_type t, const std::string &n) {
    return n == "transform" || n == "inverse transform" || n == "predict proba" || n == "predict log proba" || n == "log proba" || n.rfind("decision", 0) == 0 ||
           (n == "proba" && t == da_handle_svm);
}
template <class T> Vals values(const Model<T> &m, const Rec &r) {
    Vals o;
    da_int q = m.Q.n;
    for (auto &i : r.items) {
        if (i.name.rfind("option ", 0) == 0)
            continue;
        Val x{i.status, {}, 0, 0};
        size_t w = is_int(m.type, i.name) ? sizeof(da_int) : sizeof(T), k = i.bytes.size() / w;
        for (size_t e = 0; e < k; e++) {
            if (is_int(m.type, i.name)) {
                da_int a;
                memcpy(&a, &i.bytes[e * w], w);
                x.v.push_back((double)a);
            } else {
                T a;
                memcpy(&a, &i.bytes[e * w], w);
                x.v.push_back((double)a);
            }
        }
        if (is_mat(m.type, i.name) && k) {
            // as it was allocated: one element of padding, to be left alone
            da_int c = m.Q.order == column_major ? (da_int)(k / (q + 1)) : (da_int)(k / q) - 1;
            da_int ld = (m.Q.order == column_major ? q : c) + 1;
            std::vector<double> s((size_t)q * c);
            for (da_int a = 0; a < q; a++)
                for (da_int b = 0; b < c; b++)
                    s[(size_t)a * c + b] = x.v[m.Q.order == column_major ? (size_t)b * ld + a : (size_t)a * ld + b];
            bool vec = m.type == da_handle_svm && i.name.rfind("decision", 0) == 0 && c == 1; // contiguous, whatever the leading dimension
            if (vec)
                s.assign(x.v.begin(), x.v.begin() + q);
            x.v = s;
            x.rows = q, x.cols = c;
        } else if (!i.query && i.name != "classes" && k && k % q == 0) {
            x.rows = q, x.cols = (da_int)(k / q);
            if (x.cols > 1 && m.Q.order == column_major) { // neighbors, probabilities
                std::vector<double> s(k);
                for (da_int a = 0; a < q; a++)
                    for (da_int b = 0; b < x.cols; b++)
                        s[(size_t)a * x.cols + b] = x.v[(size_t)b * q + a];
                x.v = s;
            }
        }
        o[i.name] = x;
    }
    return o;
}
bool near(double a, double b, double tol) {
    return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
bool same(const std::vector<double> &a, const std::vector<double> &b, double tol) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!near(a[i], b[i], tol))
            return false;
    return true;
}
// b is a, or a as r x c stored the other way
bool same_transposed(const std::vector<double> &a, const std::vector<double> &b, double tol) {
    if (same(a, b, tol))
        return true;
    size_t k = a.size();
    if (b.size() != k)
        return false;
    for (size_t r = 2; r * 2 <= k; r++) {
        if (k % r)
            continue;
        size_t c = k / r;
        bool ok = true;
        for (size_t i = 0; ok && i < r; i++)
            for (size_t j = 0; ok && j < c; j++)
                ok = near(a[i * c + j], b[j * r + i], tol);
        if (ok)
            return true;
    }
    return false;
}
bool is_query(const std::string &n) { return n.rfind("result", 0) == 0 || n.rfind("int result", 0) == 0; }
std::string compare(const Vals &a, const Vals &b, bool transposed, double tol, const std::set<std::string> &skip) {
    char m[300];
    for (auto &kv : a) {
        if (skip.count(kv.first))
            continue;
        auto it = b.find(kv.first);
        if (it == b.end())
            return kv.first + " is missing";
        const Val &x = kv.second, &y = it->second;
        if (x.status != y.status)
            return kv.first + ": status " + std::to_string(x.status) + " and " + std::to_string(y.status);
        bool ok = transposed && is_query(kv.first) ? same_transposed(x.v, y.v, tol) : same(x.v, y.v, tol);
        if (!ok) {
            size_t e = 0;
            while (e < std::min(x.v.size(), y.v.size()) && near(x.v[e], y.v[e], tol))
                e++;
            snprintf(m, sizeof m, ": %zu and %zu values, element %zu is %.17g and %.17g", x.v.size(), y.v.size(), e, e < x.v.size() ? x.v[e] : 0, e < y.v.size() ? y.v[e] : 0);
            return kv.first + m;
        }
    }
    return "";
}
template <class T> struct Setup {
    Model<T> m;
    std::set<std::string> skip;
};
template <class T> Setup<T> setup(Gen &g, da_handle_type type) {
    Setup<T> s;
    s.m = Model<T>::gen(g, type);
    Model<T> &m = s.m;
    if (type == da_handle_kmeans || type == da_handle_pca || type == da_handle_kernel_pca || type == da_handle_approx_nn || type == da_handle_svm || type == da_handle_tsne)
        m.oi("seed", (da_int)g.range(0, 100));
    if (type == da_handle_linmod || type == da_handle_dbscan) // contains times, leading dimensions
        s.skip.insert("result 1");
    return s;
}
// builds the model in a fresh handle and asks everything
template <class T> Vals answers(const Model<T> &m, da_status *st = nullptr) {
    Handle h;
    init<T>(h, m.type);
    da_status s = m.build(h);
    if (st)
        *st = s;
    return values(m, m.observe(h));
}
template <class T> Model<T> relaid(Gen &g, const Model<T> &m, bool flip) {
    Model<T> r = m;
    auto other = [&](da_order o) { return flip ? (o == row_major ? column_major : row_major) : o; };
    r.X = m.X.as(other(m.X.order), gen_extra(g));
    r.Q = m.Q.as(other(m.Q.order), gen_extra(g));
    for (auto &o : r.opts)
        if (o.k == "storage order")
            o.s = r.X.order == row_major ? "row-major" : "column-major";
    return r;
}
template <class T> void layout(Gen &g) {
    da_handle_type type = KINDS[g.below(sizeof KINDS / sizeof *KINDS)];
    Setup<T> s = setup<T>(g, type);
    bool flip = g.flip();
    Model<T> r = relaid(g, s.m, flip);
    g.note("%s; other: %s ld %d/%d", s.m.text().c_str(), flip ? "other order" : "same order", (int)r.X.ld, (int)r.Q.ld);
    Threads one(1);
    da_status sa, sb;
    Vals a = answers(s.m, &sa), b = answers(r, &sb);
    REQUIRE(sa == sb || (sa == 0 && sb == da_status_numerical_difficulties) || (sb == 0 && sa == da_status_numerical_difficulties), "fit", "statuses %d and %d", (int)sa, (int)sb);
    // a transposed matrix may be multiplied by other kernels
    bool lin = type == da_handle_pca || type == da_handle_linmod;
    if (type == da_handle_linmod || flip && (type == da_handle_pca || type == da_handle_kernel_pca || type == da_handle_svm || type == da_handle_kmeans || type == da_handle_approx_nn)) { // these are not unique, or end within a tolerance: C13 and C16 judge each of them
        g.label(std::string("statuses only: ") + hname(type));
        return;
    }
    std::string d = compare(a, b, flip, flip && lin ? 1e6 * EPS<T> : 0, s.skip);
    REQUIRE(d == "", (std::string(hname(type)) + " " + d.substr(0, d.find(':'))).c_str(), "the answers differ: %s", d.c_str());
    g.label(hname(type));
    g.nontrivial(sa == 0);
}
template <class T> void repeat(Gen &g) {
    da_handle_type type = KINDS[g.below(sizeof KINDS / sizeof *KINDS)];
    Setup<T> s = setup<T>(g, type);
    g.note("%s", s.m.text().c_str());
    Threads one(1);
    da_status sa, sb;
    Vals a = answers(s.m, &sa), b = answers(s.m, &sb);
    REQUIRE(sa == sb, "fit", "statuses %d and %d", (int)sa, (int)sb);
    std::string d = compare(a, b, false, 0, s.skip);
    REQUIRE(d == "", (std::string(hname(type)) + " " + d.substr(0, d.find(':'))).c_str(), "repeated: %s", d.c_str());
    // again in the same handle, perhaps after other data
    Handle h;
    init<T>(h, type);
    bool other = g.flip();
    if (other) {
        Model<T> o = s.m;
        for (T &v : o.X.v)
            v = v * (T)1.5 + 1;
        da_status so = o.build(h);
        (void)so;
    }
    da_status s1 = s.m.build(h, false), s2 = other ? s1 : s.m.build(h, false);
    if (sa != da_status_success) {
        REQUIRE(s2 != da_status_success, "refit", "status %d, but 0 in a handle that was used", (int)sa);
        return;
    }
    REQUIRE(s2 == sa, "refit", "statuses %d and %d", (int)sa, (int)s2);
    d = compare(a, values(s.m, s.m.observe(h)), false, 0, s.skip);
    REQUIRE(d == "", ("refit " + std::string(hname(type)) + " " + d.substr(0, d.find(':'))).c_str(), "fitted again: %s", d.c_str());
    g.label(hname(type));
    g.nontrivial(sa == 0);
}
// points at a distance of eps: rounding decides which of the two finds the other
template <class T> bool tree_dbscan(const Model<T> &m) { return m.type == da_handle_dbscan && m.find("algorithm")->s != "brute"; }
template <class T> void threads(Gen &g) {
    da_handle_type type = KINDS[g.below(sizeof KINDS / sizeof *KINDS)];
    Setup<T> s = setup<T>(g, type);
    int nt = (int)g.range(2, 5);
    g.note("%s threads %d", s.m.text().c_str(), nt);
    da_status sa, sb;
    Vals a, b;
    {
        Threads one(1);
        a = answers(s.m, &sa);
    }
    {
        Threads many(nt);
        b = answers(s.m, &sb);
    }
    REQUIRE(sa == sb || type == da_handle_svm, "fit", "statuses %d and %d", (int)sa, (int)sb);
    if (type == da_handle_decision_forest)
        s.skip.insert("result 1"); // tells the number of threads
    bool lin = type == da_handle_pca || type == da_handle_linmod;
    if (type == da_handle_pca || type == da_handle_linmod || type == da_handle_kernel_pca || type == da_handle_svm || tree_dbscan(s.m)) { // these are not unique, or end within a tolerance: C13 and C16 judge each of them
        g.label(std::string("statuses only: ") + hname(type));
        return;
    }
    std::string d = compare(a, b, false, lin ? 1e6 * EPS<T> : type == da_handle_decision_forest ? 64 * EPS<T> : 0, s.skip);
    REQUIRE(d == "", (std::string(hname(type)) + " " + d.substr(0, d.find(':'))).c_str(), "with %d threads: %s", nt, d.c_str());
    g.label(hname(type));
    g.nontrivial(sa == 0);
}
// distances computed pair by pair
template <class T> bool direct(const Model<T> &m) {
    const std::string &k = m.find("metric")->s;
    return k == "euclidean" || k == "manhattan" || k == "minkowski" || k == "sqeuclidean";
}
// every query alone gets the answer it gets among the others
template <class T> void batch(Gen &g) {
    da_handle_type type = KINDS[g.below(sizeof KINDS / sizeof *KINDS)];
    if (type == da_handle_dbscan || type == da_handle_tsne)
        throw pbt::Discard();
    Setup<T> s = setup<T>(g, type);
    Model<T> &m = s.m;
    if (type == da_handle_svm && (m.sub == nusvc || m.find("kernel")->s != "rbf")) // the terms of the decision are unbounded
        throw pbt::Discard();
    g.note("%s queries %d", m.text().c_str(), (int)m.Q.n);
    Threads one(1);
    Handle h;
    init<T>(h, type);
    da_status st = m.build(h);
    Rec all;
    m.operations(h, all);
    Vals a = values(m, all);
    Model<T> r = m;
    for (da_int i = 0; i < m.Q.n; i++) {
        r.Q = Mat<T>(1, m.Q.p, m.Q.order, gen_extra(g));
        for (da_int j = 0; j < m.Q.p; j++)
            r.Q(0, j) = m.Q(i, j);
        Rec one_r;
        r.operations(h, one_r);
        Vals b = values(r, one_r);
        for (auto &kv : a) {
            const std::string &n = kv.first;
            // over all queries; or not about queries
            if (n.find("loss") != std::string::npos || n == "score" || n == "classes" || n == "inverse transform" || n.rfind("radius", 0) == 0 || kv.second.rows == 0)
                continue;
            if (kv.second.status == da_status_outlier_warning || b[n].status == da_status_outlier_warning)
                continue;
            REQUIRE(kv.second.status == b[n].status, "status", "%s: %d and alone %d", n.c_str(), kv.second.status, b[n].status);
            da_int c = kv.second.cols;
            std::vector<double> x(kv.second.v.begin() + (size_t)i * c, kv.second.v.begin() + (size_t)(i + 1) * c);
            // blocks of one row may be computed by other kernels
            bool exact = type == da_handle_decision_tree || type == da_handle_decision_forest || (type == da_handle_nn && direct(m));
            if (!exact && (is_int(type, n) || type == da_handle_nn || (type == da_handle_svm && n == "predict")))
                continue; // decided by rounding when there are ties
            double size = 0;
            for (double v : kv.second.v)
                size = std::max(size, std::isfinite(v) ? std::fabs(v) : 0);
            if (!exact && x.size() == b[n].v.size())
                for (double &v : x)
                    if (size > 1 && std::fabs(v - b[n].v[&v - &x[0]]) <= size * 1e6 * EPS<T>)
                        v = b[n].v[&v - &x[0]];
            REQUIRE(same(x, b[n].v, exact ? 0 : type == da_handle_svm ? 100 * std::sqrt(EPS<T>) : 1e6 * EPS<T>), (std::string(hname(type)) + " " + n).c_str(), "query %d: first value %.17g, alone %.17g", (int)i, x.empty() ? 0 : x[0], b[n].v.empty() ? 0 : b[n].v[0]);
        }
    }
    g.label(hname(type));
    g.nontrivial(st == 0 && m.Q.n > 1);
}
} // namespace

PROPERTY(C23, layout, 4000, 200000, "the model was trained") {
    if (g.flip())
        layout<float>(g);
    else
        layout<double>(g);
}
PROPERTY(C23, repeat, 3000, 150000, "the model was trained") {
    if (g.flip())
        repeat<float>(g);
    else
        repeat<double>(g);
}
PROPERTY(C23, threads, 2500, 100000, "the model was trained") {
    if (g.flip())
        threads<float>(g);
    else
        threads<double>(g);
}
PROPERTY(C23, batch, 3000, 150000, "the model was trained and there are several queries") {
    if (g.flip())
        batch<float>(g);
    else
        batch<double>(g);
}
