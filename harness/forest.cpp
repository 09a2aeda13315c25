// C17 decision trees, C18 random forests
#include "da.hpp"
#include "common/idx_sorting.hpp"
#include "common/scoring.hpp"
namespace df = ARCH::da_decision_forest;

namespace {

enum Crit { GINI, ENTROPY, MISCLASS };
const char *crit_name(Gen &g, int c) {
    switch (c) {
    case GINI:
        return "gini";
    case ENTROPY:
        return g.flip() ? "entropy" : "cross-entropy";
    default:
        return g.pick({"misclassification", "misclass", "misclassification-error"});
    }
}
long double impurity(int crit, const std::vector<da_int> &cnt) {
    long double n = 0, s = 0, m = 0;
    for (auto c : cnt)
        n += c, m = std::max<long double>(m, c);
    if (n == 0)
        return 0;
    for (auto c : cnt) {
        if (c == 0)
            continue;
        long double p = c / n;
        s += crit == ENTROPY ? -p * std::log2(p) : p * p;
    }
    return crit == ENTROPY ? s : crit == GINI ? 1 - s : 1 - m / n;
}

template <class T> struct Problem {
    da_int n = 0, p = 0, nc = 0, nc_arg = 0;
    Mat<T> X, Q; // training data, further queries
    std::vector<da_int> y, cat;
    bool use_cat = false;
    double step = 1; // distinct values of a feature differ by at least this
};

// step: grid of the values, scaled
// the same integers, as floating-point numbers next to each other
template <class T> void adjacent(Problem<T> &r, double base) {
    double ulp = std::nextafter((T)base, std::numeric_limits<T>::infinity()) - (T)base;
    for (auto m : {&r.X, &r.Q})
        for (da_int i = 0; i < m->n; i++)
            for (da_int j = 0; j < m->p; j++)
                (*m)(i, j) = (T)(base + std::round((double)(*m)(i, j) / r.step) * ulp);
}

template <class T>
Problem<T> gen_problem(Gen &g, da_int n, da_int p, da_order o, int kind) {
    Problem<T> r;
    r.n = n;
    r.p = p;
    r.nc = (da_int)g.range(1, 5);
    r.X = Mat<T>(n, p, o, gen_extra(g));
    da_int m = (da_int)g.range(1, 40);
    r.Q = Mat<T>(m, p, o, gen_extra(g));
    double step = kind == 3 ? g.pick({1.0 / 64, 1.0 / 1024, 0.5, 64.0}) : 1;
    r.step = step;
    for (da_int j = 0; j < p; j++) {
        int k = kind == 2 ? 0 : (int)g.below(5);
        // 0 few categories, 1 medium, 2 many values, 3 constant, 4 monotone in the row
        da_int span = k == 0 ? (da_int)g.range(1, 4) : k == 1 ? 12 : k == 2 ? 900 : k == 3 ? 1 : n;
        double off = kind == 2 ? 0 : (double)g.range(-3, 3);
        for (da_int i = 0; i < n; i++) {
            double v = k == 4 ? (double)(g.chance(1, 20) ? g.below(span) : i) : (double)g.below(span);
            r.X(i, j) = (T)((v + off) * step);
        }
        for (da_int i = 0; i < m; i++) {
            double v = g.flip() ? (double)r.X((da_int)g.below(n), j) / step : (double)g.range(-2, span + 1) + off;
            if (kind != 2 && g.chance(1, 3))
                v += 0.5;
            r.Q(i, j) = (T)(v * step);
        }
    }
    if (p > 1 && g.chance(1, 5)) { // repeated feature
        da_int a = (da_int)g.below(p), b = (da_int)g.below(p);
        for (da_int i = 0; i < n; i++)
            r.X(i, a) = r.X(i, b);
    }
    r.y.resize(n);
    int yk = (int)g.below(4);
    for (da_int i = 0; i < n; i++) {
        double s = 0;
        for (da_int j = 0; j < p; j++)
            s += (double)r.X(i, j) / step * ((j * 5 % 3) + 1);
        r.y[i] = yk == 0   ? (da_int)g.below(r.nc)
                 : yk == 1 ? (da_int)(std::abs((long)s) % r.nc)
                 : yk == 2 ? (g.chance(1, 8) ? (da_int)g.below(r.nc) : (s > 5 ? 0 : r.nc - 1))
                           : (g.chance(1, 6) ? 0 : r.nc - 1);
    }
    da_int mx = *std::max_element(r.y.begin(), r.y.end()) + 1;
    if (g.chance(1, 3)) {
        r.nc_arg = 0;
        r.nc = mx;
    } else
        r.nc_arg = r.nc;
    return r;
}

struct Opts {
    int crit = GINI;
    da_int depth = 29, minsamp = 2, nfeat = 0, bins = 256;
    double minscore = 0, minimp = 0, fthr = 1e-5;
    bool hist = false, onevall = false, detect = false;
};

// Whether the observed predictions are those of a greedily grown tree. A choice between
// splits whose scores differ by rounding only is free: all of them are tried.
template <class T> struct Greedy {
    const Problem<T> &P;
    const Opts &O;
    // rows: the training points, then the queries
    std::vector<const T *> dummy;
    std::vector<std::vector<double>> val; // [feature][row]
    std::vector<std::vector<double>> prob; // observed, [row][class]; empty: only labels
    std::vector<da_int> lab;
    std::vector<da_int> w;      // weights of the training points
    std::vector<char> is_cat;   // per feature: one-vs-all (raw)
    std::vector<std::vector<double>> thr; // bins: lower edges of bins 1.. (ordered)
    std::vector<char> bin_onevall;
    std::vector<std::set<double>> distinct;
    bool any_split = false;     // do not require optimality
    double tau, ptol = 4 * EPS<T>;
    long steps = 0;
    double total = 0;
    typedef std::set<std::pair<long, long>> Res; // (leaves, depth)
    struct Cand {
        int f;
        bool cat;
        double t; // left: x < t, or round(x) == t
        double lo, hi; // the threshold may lie anywhere in (lo, hi] (raw continuous: midpoint)
        double split, ls, rs;
    };
    Greedy(const Problem<T> &p, const Opts &o) : P(p), O(o) {
        tau = 64 * EPS<T>;
    }
    static double midpoint(T a, T b) {
        volatile T t = (a + b) / 2;
        return t > a && t <= b ? t : b;
    }
    std::vector<da_int> counts(const std::vector<int> &S) {
        std::vector<da_int> c(P.nc, 0);
        for (int i : S)
            c[P.y[i]] += w[i];
        return c;
    }
    bool left(const Cand &c, int row) const {
        double x = val[c.f][row];
        return c.cat ? std::round(x) == c.t : x < c.t;
    }
    bool leaf_ok(const std::vector<int> &R, const std::vector<da_int> &c) {
        double n = 0;
        da_int best = 0;
        for (da_int k = 0; k < P.nc; k++) {
            n += c[k];
            if (c[k] > c[best])
                best = k;
        }
        for (int r : R) {
            if (lab[r] != best)
                return false;
            if (!prob.empty())
                for (da_int k = 0; k < P.nc; k++)
                    if (std::fabs(prob[r][k] - c[k] / n) > ptol)
                        return false;
        }
        return true;
    }
    // A quick look before going down: the frequencies predicted for the training points of
    // a node add up to its class counts, and each query shares its leaf with one of them.
    bool plausible(const std::vector<int> &S, const std::vector<int> &R) {
        auto c = counts(S);
        std::set<std::pair<da_int, std::vector<float>>> seen;
        auto key = [&](int r) {
            return std::make_pair(lab[r], std::vector<float>(prob[r].begin(), prob[r].end()));
        };
        std::vector<double> s(P.nc, 0);
        double n = 0;
        for (int i : S) {
            for (da_int k = 0; k < P.nc; k++)
                s[k] += w[i] * prob[i][k];
            seen.insert(key(i));
            n += w[i];
        }
        for (da_int k = 0; k < P.nc; k++)
            if (std::fabs(s[k] - c[k]) > (2 * ptol + 1e-9) * n)
                return false;
        for (int r : R)
            if (!seen.count(key(r)))
                return false;
        return true;
    }
    // S: training rows of the node; R: all rows (training and queries) that reach it
    Res node(const std::vector<int> &S, const std::vector<int> &R, long depth, double score_seen, bool root) {
        Res res;
        if (++steps > 60000)
            throw pbt::Discard();
        auto c = counts(S);
        double n = 0;
        for (auto k : c)
            n += k;
        double sc = (double)impurity(O.crit, c);
        bool must_leaf = depth >= O.depth, may_leaf = must_leaf;
        if (sc < O.minscore - tau || n < 2 * O.minsamp)
            must_leaf = may_leaf = true;
        else if (sc <= O.minscore + tau)
            may_leaf = true;
        std::vector<Cand> all;
        if (!must_leaf) {
            std::vector<std::vector<Cand>> per(P.p);
            std::vector<double> bestf(P.p, 1e300);
            double best = 1e300;
            int improving = 0;
            bool constant = false;
            da_int k = O.nfeat == 0 || O.nfeat > P.p ? P.p : O.nfeat;
            for (int f = 0; f < P.p; f++) {
                cands(S, f, c, n, sc, per[f], constant);
                bool certain = false;
                for (auto &q : per[f]) {
                    bestf[f] = std::min(bestf[f], q.split);
                    double imp = n / total * (sc - q.split);
                    if (q.split < sc - tau && imp > O.minimp + tau)
                        certain = true;
                }
                improving += certain;
                best = std::min(best, bestf[f]);
            }
            if (any_split || P.p - improving >= k || (k < P.p && P.p - improving >= 1))
                may_leaf = true;
            // the same constant feature may be drawn again and again
            if (k < P.p && constant)
                k = 1, may_leaf = true;
            for (int f = 0; f < P.p; f++) {
                int better = 0;
                for (int q = 0; q < P.p; q++)
                    better += bestf[q] < bestf[f] - 2 * tau;
                if (!any_split && better > P.p - k)
                    continue;
                for (auto &q : per[f])
                    if (any_split || q.split <= bestf[f] + 2 * tau)
                        all.push_back(q);
            }
        }
        if (may_leaf && leaf_ok(R, c))
            res.insert({1, depth});
        for (auto &q : all) {
            std::vector<int> SL, SR, RL, RR;
            for (int i : S)
                (left(q, i) ? SL : SR).push_back(i);
            for (int r : R)
                (left(q, r) ? RL : RR).push_back(r);
            if (SL.empty() || SR.empty())
                continue;
            if (!plausible(SL, RL) || !plausible(SR, RR))
                continue;
            Res a = node(SL, RL, depth + 1, q.ls, false);
            if (a.empty())
                continue;
            Res b = node(SR, RR, depth + 1, q.rs, false);
            for (auto &x : a)
                for (auto &z : b)
                    res.insert({x.first + z.first, std::max(x.second, z.second)});
            if (res.size() > 64)
                throw pbt::Discard();
        }
        return res;
    }
    void consider(const std::vector<da_int> &L, const std::vector<da_int> &c, double n, double sc, Cand q, std::vector<Cand> &out) {
        std::vector<da_int> Rr(P.nc);
        double nl = 0;
        for (da_int k = 0; k < P.nc; k++) {
            Rr[k] = c[k] - L[k];
            nl += L[k];
        }
        double nr = n - nl;
        if (nl < O.minsamp || nr < O.minsamp || nl == 0 || nr == 0)
            return;
        q.ls = (double)impurity(O.crit, L);
        q.rs = (double)impurity(O.crit, Rr);
        q.split = (q.ls * nl + q.rs * nr) / n;
        double imp = n / total * (sc - q.split);
        if (q.split < sc + tau && imp > O.minimp - tau)
            out.push_back(q);
    }
    void cands(const std::vector<int> &S, int f, const std::vector<da_int> &c, double n, double sc, std::vector<Cand> &out, bool &constant) {
        std::map<double, std::vector<da_int>> by;
        auto &v = val[f];
        auto bin = [&](double x) {
            return (double)(std::upper_bound(thr[f].begin(), thr[f].end(), x) - thr[f].begin());
        };
        bool h = O.hist && !thr.empty();
        for (int i : S) {
            double key = h ? bin(v[i]) : is_cat[f] ? std::round(v[i]) : v[i];
            auto &e = by[key];
            if (e.empty())
                e.assign(P.nc, 0);
            e[P.y[i]] += w[i];
        }
        if (by.size() < 2 || (!h && !is_cat[f] && by.rbegin()->first - by.begin()->first < O.fthr)) {
            constant = true;
            return;
        }
        if (is_cat[f] || (h && bin_onevall[f])) {
            for (auto &e : by)
                consider(e.second, c, n, sc, Cand{f, true, e.first, 0, 0, 0, 0, 0}, out);
            return;
        }
        std::vector<da_int> L(P.nc, 0);
        double start = by.begin()->first;
        for (auto it = by.begin(); std::next(it) != by.end(); ++it) {
            auto nx = std::next(it);
            for (da_int k = 0; k < P.nc; k++)
                L[k] += it->second[k];
            if (!h && !any_split && nx->first - start < O.fthr)
                continue;
            start = nx->first;
            if (any_split) { // bin edges are values of the training set
                for (double e : distinct[f])
                    if (e > it->first && e <= nx->first)
                        consider(L, c, n, sc, Cand{f, false, e, 0, 0, 0, 0, 0}, out);
                continue;
            }
            double t = h ? thr[f][(size_t)it->first] : midpoint((T)it->first, (T)nx->first);
            consider(L, c, n, sc, Cand{f, false, t, 0, 0, 0, 0, 0}, out);
        }
    }
};

// The bins of a feature as documented: quantile boundaries moved to the end of runs of
// equal values. Exact when maxb is a power of two that divides n.
std::vector<double> quantile_edges(std::vector<double> v, long maxb) {
    std::sort(v.begin(), v.end());
    long n = (long)v.size(), m = n / maxb;
    std::vector<double> e;
    long k = 1; // q = k / maxb
    while (k < maxb) {
        long t = k * m - 1, r = t;
        while (r < n - 1 && v[r + 1] == v[t])
            r++;
        if (r >= n - 1)
            break;
        if (r != t) {
            while (k * m <= r + m) // q <= last_q + step
                k++;
        } else
            k++;
        e.push_back(v[r + 1]);
    }
    return e;
}

template <class T> void set_opts(Gen &g, da_handle h, const Opts &o, bool tree) {
    if (o.crit != GINI || g.flip())
        opt_s(h, "scoring function", crit_name(g, o.crit));
    if (o.depth != 29 || g.flip())
        opt_i(h, "maximum depth", o.depth);
    if (o.minsamp != 2 || g.flip())
        opt_i(h, "node minimum samples", o.minsamp);
    if (tree && (o.nfeat != 0 || g.flip()))
        opt_i(h, "maximum features", o.nfeat);
    if (o.minscore != 0 || !tree || g.flip())
        opt_r<T>(h, "minimum split score", (T)o.minscore);
    if (o.minimp != 0 || g.flip())
        opt_r<T>(h, "minimum impurity decrease", (T)o.minimp);
    if (o.fthr != 1e-5)
        opt_r<T>(h, "feature threshold", (T)o.fthr);
    if (o.hist) {
        opt_s(h, "histogram", "yes");
        opt_i(h, "maximum bins", o.bins);
    }
    if (o.onevall)
        opt_s(h, "category split strategy", "one-vs-all");
    if (o.detect)
        opt_s(h, "detect categorical data", "yes");
}

template <class T> struct TreeAPI {
    static constexpr bool tree = true;
    static da_handle_type type() { return da_handle_decision_tree; }
    static da_status set(da_handle h, da_int n, da_int p, da_int nc, const T *X, da_int ld, const da_int *y, const da_int *c) { return DA(T, da_tree_set_training_data, h, n, p, nc, X, ld, y, c); }
    static da_status fit(da_handle h) { return DA(T, da_tree_fit, h); }
    static da_status predict(da_handle h, da_int n, da_int p, const T *X, da_int ld, da_int *y) { return DA(T, da_tree_predict, h, n, p, X, ld, y); }
    static da_status proba(da_handle h, da_int n, da_int p, const T *X, da_int ld, T *y, da_int nc, da_int ldy) { return DA(T, da_tree_predict_proba, h, n, p, X, ld, y, nc, ldy); }
    static da_status logp(da_handle h, da_int n, da_int p, const T *X, da_int ld, T *y, da_int nc, da_int ldy) { return DA(T, da_tree_predict_log_proba, h, n, p, X, ld, y, nc, ldy); }
    static da_status score(da_handle h, da_int n, da_int p, const T *X, da_int ld, const da_int *y, T *s) { return DA(T, da_tree_score, h, n, p, X, ld, y, s); }
};
template <class T> struct ForestAPI {
    static constexpr bool tree = false;
    static da_handle_type type() { return da_handle_decision_forest; }
    static da_status set(da_handle h, da_int n, da_int p, da_int nc, const T *X, da_int ld, const da_int *y, const da_int *c) { return DA(T, da_forest_set_training_data, h, n, p, nc, X, ld, y, c); }
    static da_status fit(da_handle h) { return DA(T, da_forest_fit, h); }
    static da_status predict(da_handle h, da_int n, da_int p, const T *X, da_int ld, da_int *y) { return DA(T, da_forest_predict, h, n, p, X, ld, y); }
    static da_status proba(da_handle h, da_int n, da_int p, const T *X, da_int ld, T *y, da_int nc, da_int ldy) { return DA(T, da_forest_predict_proba, h, n, p, X, ld, y, nc, ldy); }
    static da_status logp(da_handle h, da_int n, da_int p, const T *X, da_int ld, T *y, da_int nc, da_int ldy) { return DA(T, da_forest_predict_log_proba, h, n, p, X, ld, y, nc, ldy); }
    static da_status score(da_handle h, da_int n, da_int p, const T *X, da_int ld, const da_int *y, T *s) { return DA(T, da_forest_score, h, n, p, X, ld, y, s); }
};

// all predictions for X, cross-checked with each other
template <class T> struct Pred {
    std::vector<da_int> lab;
    std::vector<std::vector<double>> prob;
};
template <class T, class A> Pred<T> predict_all(Gen &g, da_handle h, const Mat<T> &X, da_int nc, bool tree_rules) {
    Pred<T> r;
    Guarded<da_int> y(X.n);
    OK(A::predict(h, X.n, X.p, X.data(), X.ld, y.data()));
    REQUIRE(y.ok(), "write", "predict wrote past its labels");
    Mat<T> P(X.n, nc, X.order, gen_extra(g)), L(X.n, nc, X.order, gen_extra(g));
    OK(A::proba(h, X.n, X.p, X.data(), X.ld, P.data(), nc, P.ld));
    OK(A::logp(h, X.n, X.p, X.data(), X.ld, L.data(), nc, L.ld));
    REQUIRE(P.pad_ok() && L.pad_ok(), "write", "predict_proba wrote into the padding");
    r.prob.assign(X.n, std::vector<double>(nc));
    for (da_int i = 0; i < X.n; i++) {
        double s = 0, mx = 0;
        for (da_int k = 0; k < nc; k++) {
            double q = P(i, k);
            r.prob[i][k] = q;
            s += q;
            mx = std::max(mx, q);
            REQUIRE(q >= 0 && q <= 1 + 8 * EPS<T>, "proba", "probability %g of row %d", q, (int)i);
            double want = std::log(q);
            REQUIRE(pbt::close(L(i, k), want, 64 * EPS<T>, 64 * EPS<T>), "logproba", "log probability %g, probability %g (row %d class %d)", (double)L(i, k), q, (int)i, (int)k);
        }
        REQUIRE(std::fabs(s - 1) < 16 * EPS<T> * (nc + 1), "proba-sum", "probabilities of row %d sum to %.9g", (int)i, s);
        REQUIRE(y[i] >= 0 && y[i] < nc, "label", "label %d of row %d", (int)y[i], (int)i);
        r.lab.push_back(y[i]);
        if (tree_rules)
            REQUIRE(r.prob[i][y[i]] >= mx, "label", "row %d: label %d is not the most probable class", (int)i, (int)y[i]);
    }
    // score against arbitrary labels
    std::vector<da_int> z(X.n);
    da_int right = 0;
    for (da_int i = 0; i < X.n; i++) {
        z[i] = g.flip() ? r.lab[i] : (da_int)g.below(nc);
        right += z[i] == r.lab[i];
    }
    T sc = -1;
    OK(A::score(h, X.n, X.p, X.data(), X.ld, z.data(), &sc));
    REQUIRE(std::fabs((double)sc - (double)right / X.n) <= 4 * EPS<T>, "score", "score %.9g, %d of %d labels agree", (double)sc, (int)right, (int)X.n);
    return r;
}

template <class T> Opts gen_opts(Gen &g) {
    Opts o;
    o.crit = (int)g.below(3);
    o.depth = g.chance(1, 3) ? (da_int)g.range(0, 5) : 29;
    o.minsamp = g.chance(1, 2) ? (da_int)g.range(1, 7) : 2;
    if (g.chance(1, 6))
        o.minscore = (double)(T)g.pick({0.1, 0.3, 0.5, 0.9});
    if (g.chance(1, 6))
        o.minimp = (double)(T)g.pick({0.01, 0.05, 0.2});
    return o;
}

template <class T> void rinfo(da_handle h, T *r, da_int n) {
    Guarded<T> v(n);
    da_int d = n - 1;
    da_status s = DA(T, da_handle_get_result, h, da_rinfo, &d, v.data());
    REQUIRE(s == da_status_invalid_array_dimension && d == n, "rinfo", "rinfo with a short array: status %d dim %d", (int)s, (int)d);
    OK(DA(T, da_handle_get_result, h, da_rinfo, &d, v.data()));
    REQUIRE(v.ok(), "rinfo", "rinfo wrote too much");
    for (da_int i = 0; i < n; i++)
        r[i] = v[i];
}

template <class T> void tree_case(Gen &g) {
    perturb(g);
    Threads th(gen_threads(g));
    int kind = (int)g.below(4); // 0,1 plain; 2 categories; 3 other scale
    da_int n = (da_int)g.size(1, g.thorough ? 150 : 90), p = (da_int)g.size(1, 12);
    Opts o = gen_opts<T>(g);
    int mode = kind == 2 ? (int)g.range(1, 3) : (int)g.below(3) == 2 ? 3 : 0; // 0 raw 1 raw+user categories 2 raw+detection 3 histogram
    bool exact = false;
    if (mode == 3) {
        o.hist = true;
        if (g.chance(3, 4)) {
            o.bins = 1 << g.range(1, 4);
            n = o.bins * (da_int)g.range(2, 8);
            exact = true;
        } else {
            n = std::max<da_int>(n, 4);
            o.bins = (da_int)g.range(2, 300);
        }
    }
    da_order od = gen_order(g);
    // a handle may have been trained before
    Handle h;
    init<T>(h, da_handle_decision_tree);
    opt_order(h, od);
    bool again = g.chance(1, 3);
    if (again) {
        auto B = gen_problem<T>(g, (da_int)g.range(4, 30), (da_int)g.range(1, 5), od, 0);
        if (g.flip()) {
            opt_s(h, "histogram", "yes");
            opt_i(h, "maximum bins", (da_int)g.range(2, 9));
        }
        OK(TreeAPI<T>::set(h, B.n, B.p, B.nc_arg, B.X.data(), B.X.ld, B.y.data(), nullptr));
        OK(TreeAPI<T>::fit(h));
        if (g.flip()) {
            T r[8];
            rinfo<T>(h, r, 8);
        }
        opt_s(h, "histogram", "no");
    }
    auto P = gen_problem<T>(g, n, p, od, kind);
    if (kind == 3 && mode == 0 && g.chance(1, 3)) {
        adjacent(P, g.pick({1.0, -1000.0, 3e5, 1e30}));
        o.fthr = 0;
    } else if (kind != 2 && mode == 0 && g.chance(1, 4)) {
        o.fthr = (double)(T)g.pick({0.0, 0.5, 2.5, 20.5}) * P.step;
    }
    if (g.chance(1, 4))
        o.nfeat = (da_int)g.range(1, p + 2);
    if (mode == 1 || mode == 2)
        o.onevall = g.chance(2, 3);
    if (mode == 1) {
        P.use_cat = true;
        for (da_int j = 0; j < p; j++) {
            da_int mx = 0;
            for (da_int i = 0; i < n; i++)
                mx = std::max(mx, (da_int)P.X(i, j));
            P.cat.push_back(g.chance(1, 4) ? 0 : mx + 1 + (da_int)g.below(2));
        }
        o.detect = g.chance(1, 4);
    } else if (mode == 2)
        o.detect = true;
    set_opts<T>(g, h, o, true);
    da_int seed = g.flip() || (o.nfeat > 0 && o.nfeat < p) ? (da_int)g.below(1000) : -1;
    opt_i(h, "seed", seed);
    std::vector<T> before = P.X.v;
    OK(TreeAPI<T>::set(h, n, p, P.nc_arg, P.X.data(), P.X.ld, P.y.data(), P.use_cat ? P.cat.data() : nullptr));
    OK(TreeAPI<T>::fit(h));
    REQUIRE(before == P.X.v, "input", "the training data was changed");
    auto a = predict_all<T, TreeAPI<T>>(g, h, P.X, P.nc, true);
    auto b = predict_all<T, TreeAPI<T>>(g, h, P.Q, P.nc, true);
    g.note("%s n=%d p=%d classes=%d %s ld+%d mode=%d crit=%d depth=%d min=%d nfeat=%d score>%g imp>%g thr=%g bins=%d 1vA=%d threads=%d again=%d", tn<T>(), (int)n, (int)p, (int)P.nc, on(od), (int)(P.X.ld - (od == row_major ? p : n)), mode, o.crit, (int)o.depth, (int)o.minsamp, (int)o.nfeat, o.minscore, o.minimp, o.fthr, (int)o.bins, o.onevall, omp_get_max_threads(), again);
    if (n * p <= 60)
        g.note("X=%s", show(P.X, 10).c_str());
    Greedy<T> G(P, o);
    G.val.assign(p, {});
    for (da_int j = 0; j < p; j++) {
        for (da_int i = 0; i < n; i++)
            G.val[j].push_back(P.X(i, j));
        for (da_int i = 0; i < P.Q.n; i++)
            G.val[j].push_back(P.Q(i, j));
    }
    G.prob = a.prob;
    G.prob.insert(G.prob.end(), b.prob.begin(), b.prob.end());
    G.lab = a.lab;
    G.lab.insert(G.lab.end(), b.lab.begin(), b.lab.end());
    G.w.assign(n, 1);
    G.total = n;
    G.is_cat.assign(p, 0);
    if (!o.hist && o.onevall)
        for (da_int j = 0; j < p; j++)
            G.is_cat[j] = mode == 1 ? P.cat[j] > 0 : 1;
    if (mode == 2 && o.onevall)
        for (da_int j = 0; j < p; j++)
            for (da_int i = 0; i < n; i++)
                if (P.X(i, j) < 0 || P.X(i, j) != std::round(P.X(i, j)) || P.X(i, j) > 49)
                    G.is_cat[j] = 0;
    if (o.hist) {
        if (!exact) {
            G.any_split = true;
            for (da_int j = 0; j < p; j++)
                G.distinct.push_back(std::set<double>(G.val[j].begin(), G.val[j].begin() + n));
        }
        else {
            G.thr.resize(p);
            G.bin_onevall.assign(p, 0);
            for (da_int j = 0; j < p; j++)
                G.thr[j] = quantile_edges(std::vector<double>(G.val[j].begin(), G.val[j].begin() + n), o.bins);
        }
    }
    std::vector<int> S, R;
    for (int i = 0; i < n + P.Q.n; i++) {
        if (i < n)
            S.push_back(i);
        R.push_back(i);
    }
    auto res = G.node(S, R, 0, 0, true);
    g.label(mode == 0 ? "raw" : mode == 1 ? "categories given" : mode == 2 ? "categories detected" : exact ? "histogram" : "histogram, any split");
    g.label(again ? "handle reused" : "fresh handle");
    if (res.empty()) {
        std::string t;
        for (da_int i = 0; i < std::min<da_int>(n, 12); i++) {
            t += " " + std::to_string(P.y[i]) + ":" + std::to_string(a.lab[i]) + "(";
            for (da_int k = 0; k < P.nc; k++)
                t += std::to_string(a.prob[i][k]).substr(0, 5) + (k + 1 < P.nc ? "," : ")");
        }
        t += " queries:";
        for (da_int i = 0; i < std::min<da_int>(P.Q.n, 6); i++) {
            t += " [";
            for (da_int j = 0; j < std::min<da_int>(p, 8); j++)
                t += std::to_string((double)P.Q(i, j)).substr(0, 6) + " ";
            t += "]" + std::to_string(b.lab[i]) + "(";
            for (da_int k = 0; k < P.nc; k++)
                t += std::to_string(b.prob[i][k]).substr(0, 5) + (k + 1 < P.nc ? "," : ")");
        }
        fail("greedy", "no greedily grown tree gives these predictions; label:predicted(probabilities) of the training points:%s", t.c_str());
    }
    T ri[8];
    rinfo<T>(h, ri, 8);
    REQUIRE(ri[0] == (T)p && ri[1] == (T)n && ri[2] == (T)n, "rinfo", "rinfo sizes %g %g %g", (double)ri[0], (double)ri[1], (double)ri[2]);
    REQUIRE(seed < 0 || ri[3] == (T)seed, "rinfo", "rinfo seed %g, set %d", (double)ri[3], (int)seed);
    REQUIRE(ri[5] == 2 * ri[6] - 1, "rinfo", "%g nodes, %g leaves", (double)ri[5], (double)ri[6]);
    // splits that no row tells apart may or may not be there: only an exact answer is used
    bool hit = res.count({(long)ri[6], (long)ri[4]}) > 0;
    REQUIRE(hit, "rinfo", "depth %g, %g leaves; the tree has %ld leaves, depth %ld%s", (double)ri[4], (double)ri[6], res.begin()->first, res.begin()->second, res.size() > 1 ? " (or others)" : "");
    g.nontrivial(res.begin()->first >= 3);
}

// C18. A forest of m trees is the forest of m - 1 trees with the same seed and one more.
template <class T> void forest_case(Gen &g) {
    perturb(g);
    da_int n = (da_int)g.size(2, 50), p = (da_int)g.size(1, 12), m = (da_int)g.range(1, 4);
    Threads th(gen_threads(g));
    Opts o = gen_opts<T>(g);
    da_order od = gen_order(g);
    bool hist = g.chance(1, 5), cats = !hist && g.chance(1, 4);
    if (hist) {
        o.hist = true;
        o.bins = 1 << g.range(1, 3);
        n = o.bins * (da_int)g.range(2, 6);
    }
    auto P = gen_problem<T>(g, n, p, od, cats ? 2 : (int)g.below(2));
    if (cats) {
        o.onevall = g.chance(3, 4);
        P.use_cat = true;
        for (da_int j = 0; j < p; j++) {
            da_int mx = 0;
            for (da_int i = 0; i < n; i++)
                mx = std::max(mx, (da_int)P.X(i, j));
            P.cat.push_back(g.chance(1, 4) ? 0 : mx + 1 + (da_int)g.below(2));
        }
    }
    bool boot = g.chance(3, 4);
    double factor = g.flip() ? 1 : (double)(T)g.pick({0.05, 0.3, 0.5, 0.75, 0.9});
    da_int seed = (da_int)g.below(100000);
    int sel = (int)g.below(5);
    double prop = (double)(T)g.pick({0.1, 0.3, 0.6, 1.0});
    da_int custom = (da_int)g.range(0, p + 2);
    switch (sel) {
    case 0:
        o.nfeat = 0;
        break;
    case 1:
        o.nfeat = (da_int)std::ceil((T)prop * p);
        break;
    case 2:
        o.nfeat = (da_int)std::ceil(std::sqrt((double)p));
        break;
    case 3:
        o.nfeat = (da_int)std::ceil(std::log2((double)p));
        break;
    default:
        o.nfeat = custom;
    }
    g.note("%s n=%d p=%d classes=%d trees=%d %s boot=%d factor=%g sel=%d k=%d crit=%d depth=%d min=%d score>%g imp>%g hist=%d bins=%d cats=%d threads=%d", tn<T>(), (int)n, (int)p, (int)P.nc, (int)m, on(od), boot, factor, sel, (int)o.nfeat, o.crit, (int)o.depth, (int)o.minsamp, o.minscore, o.minimp, hist, (int)o.bins, cats ? 1 + o.onevall : 0, omp_get_max_threads());
    auto configure = [&](da_handle h, da_int trees, da_int depth) {
        Opts q = o;
        q.depth = depth;
        opt_order(h, od);
        set_opts<T>(g, h, q, false);
        opt_s(h, "bootstrap", boot ? "yes" : "no");
        if (boot || g.flip())
            opt_r<T>(h, "bootstrap samples factor", (T)factor);
        opt_s(h, "features selection", sel == 0 ? "all" : sel == 1 ? "proportion" : sel == 2 ? "sqrt" : sel == 3 ? "log2" : "custom");
        opt_r<T>(h, "proportion features", (T)prop);
        opt_i(h, "maximum features", custom);
        opt_i(h, "number of trees", trees);
        opt_i(h, "seed", seed);
        if (m > 1) // threads within a tree may draw other features and settle ties otherwise
            opt_i(h, "maximum tree threads", 1);
        opt_i(h, "block size", g.flip() ? 256 : (da_int)g.range(1, 20));
    };
    da_int nobs = boot ? std::max<da_int>((da_int)std::round((double)((T)n * (T)factor)), 1) : n;
    // how often each sample was drawn, tree by tree: a forest of depth 0 with one class per sample
    std::vector<std::vector<double>> w(m, std::vector<double>(n, 1));
    if (boot) {
        std::vector<da_int> id(n);
        for (da_int i = 0; i < n; i++)
            id[i] = i;
        std::vector<double> prev(n, 0);
        for (da_int k = 0; k < m; k++) {
            Handle h;
            init<T>(h, da_handle_decision_forest);
            configure(h, k + 1, 0);
            OK(ForestAPI<T>::set(h, n, p, n, P.X.data(), P.X.ld, id.data(), nullptr));
            OK(ForestAPI<T>::fit(h));
            auto q = predict_all<T, ForestAPI<T>>(g, h, P.Q, n, false);
            double sum = 0;
            for (da_int i = 0; i < n; i++) {
                double c = (q.prob[0][i] * (k + 1) - prev[i]) * nobs, z = std::round(c);
                REQUIRE(std::fabs(c - z) <= 64 * EPS<T> * (k + 1) * nobs + 1e-9 && z >= 0, "bootstrap", "trees of depth 0: sample %d drawn %.9g times (tree %d)", (int)i, c, (int)k);
                w[k][i] = z;
                sum += z;
            }
            REQUIRE(sum == nobs, "bootstrap", "tree %d: %g samples drawn instead of %d", (int)k, sum, (int)nobs);
            for (da_int i = 0; i < n; i++)
                prev[i] = q.prob[0][i] * (k + 1);
        }
    }
    std::vector<std::vector<double>> prev(n + P.Q.n, std::vector<double>(P.nc, 0));
    std::vector<std::vector<da_int>> votes(n + P.Q.n, std::vector<da_int>(P.nc, 0));
    bool big = false;
    for (da_int k = 0; k < m; k++) {
        Handle h;
        init<T>(h, da_handle_decision_forest);
        configure(h, k + 1, o.depth);
        if (g.chance(1, 4)) { // used before
            auto B = gen_problem<T>(g, (da_int)g.range(4, 20), (da_int)g.range(1, 5), od, 0);
            opt_s(h, "histogram", "no");
            OK(ForestAPI<T>::set(h, B.n, B.p, B.nc_arg, B.X.data(), B.X.ld, B.y.data(), nullptr));
            OK(ForestAPI<T>::fit(h));
            if (o.hist)
                opt_s(h, "histogram", "yes");
        }
        OK(ForestAPI<T>::set(h, n, p, P.nc_arg, P.X.data(), P.X.ld, P.y.data(), P.use_cat ? P.cat.data() : nullptr));
        OK(ForestAPI<T>::fit(h));
        auto a = predict_all<T, ForestAPI<T>>(g, h, P.X, P.nc, false);
        auto b = predict_all<T, ForestAPI<T>>(g, h, P.Q, P.nc, false);
        T ri[6];
        rinfo<T>(h, ri, 6);
        REQUIRE(ri[0] == p && ri[1] == n && ri[2] == nobs && ri[3] == seed && ri[4] == k + 1, "rinfo", "rinfo %g %g %g %g %g; expected %d %d %d %d %d", (double)ri[0], (double)ri[1], (double)ri[2], (double)ri[3], (double)ri[4], (int)p, (int)n, (int)nobs, (int)seed, (int)k + 1);
        Greedy<T> G(P, o);
        G.ptol = 32 * EPS<T> * (k + 1) * (k + 1);
        G.val.assign(p, {});
        for (da_int j = 0; j < p; j++) {
            for (da_int i = 0; i < n; i++)
                G.val[j].push_back(P.X(i, j));
            for (da_int i = 0; i < P.Q.n; i++)
                G.val[j].push_back(P.Q(i, j));
        }
        std::vector<da_int> lab = a.lab;
        lab.insert(lab.end(), b.lab.begin(), b.lab.end());
        G.prob = a.prob;
        G.prob.insert(G.prob.end(), b.prob.begin(), b.prob.end());
        for (size_t i = 0; i < lab.size(); i++) {
            for (da_int c = 0; c < P.nc; c++) {
                double q = G.prob[i][c] * (k + 1);
                double d = q - prev[i][c];
                // a frequency of some number of samples, without the rounding of the mean
                da_int b = 1;
                while (b <= nobs && std::fabs(d * b - std::round(d * b)) > G.ptol * b)
                    b++;
                REQUIRE(b <= nobs, "frequency", "row %zu class %d: tree %d predicts probability %.9g", i, (int)c, (int)k, d);
                G.prob[i][c] = std::round(d * b) / b;
                prev[i][c] = q;
            }
            da_int best = 0;
            for (da_int c = 1; c < P.nc; c++)
                if (G.prob[i][c] > G.prob[i][best])
                    best = c;
            G.lab.push_back(best);
            votes[i][best]++;
            da_int win = (da_int)(std::max_element(votes[i].begin(), votes[i].end()) - votes[i].begin());
            REQUIRE(lab[i] == win, "vote", "row %zu: label %d; votes of the %d trees for it %d, for class %d %d", i, (int)lab[i], (int)k + 1, (int)votes[i][lab[i]], (int)win, (int)votes[i][win]);
        }
        std::vector<int> S, R;
        for (int i = 0; i < n + P.Q.n; i++) {
            if (i < n) {
                G.w.push_back((da_int)w[k][i]);
                if (w[k][i] > 0)
                    S.push_back(i);
            }
            R.push_back(i);
        }
        G.total = nobs;
        G.is_cat.assign(p, 0);
        if (cats && o.onevall)
            for (da_int j = 0; j < p; j++)
                G.is_cat[j] = P.cat[j] > 0;
        if (o.hist) {
            G.thr.resize(p);
            G.bin_onevall.assign(p, 0);
            for (da_int j = 0; j < p; j++)
                G.thr[j] = quantile_edges(std::vector<double>(G.val[j].begin(), G.val[j].begin() + n), o.bins);
        }
        auto res = G.node(S, R, 0, 0, true);
        if (res.empty()) {
            std::string t;
            for (da_int i = 0; i < std::min<da_int>(n, 16); i++) {
                t += " " + std::to_string(P.y[i]) + "x" + std::to_string((int)w[k][i]) + ":(";
                for (da_int c = 0; c < P.nc; c++)
                    t += std::to_string(G.prob[i][c]).substr(0, 5) + (c + 1 < P.nc ? "," : ")");
            }
            fail("forest-tree", "tree %d of the forest is not grown greedily on its bootstrap sample; label x times drawn:(probabilities):%s", (int)k, t.c_str());
        }
        big = big || res.begin()->first >= 3;
    }
    g.label(boot ? "bootstrap" : "all samples");
    g.label("selection " + std::to_string(sel));
    g.label(hist ? "histogram" : cats ? "categories" : "raw");
    g.nontrivial(big);
}

// one tree, no bootstrap, all features: the decision tree; and no dependence on layout,
// threads or blocks
template <class T> void forest_same(Gen &g) {
    perturb(g);
    da_int n = (da_int)g.size(4, 60), p = (da_int)g.size(1, 10);
    Opts o = gen_opts<T>(g);
    if (g.chance(1, 3)) {
        o.hist = true;
        o.bins = (da_int)g.range(2, 40);
    }
    auto P = gen_problem<T>(g, n, p, column_major, g.flip() ? 3 : 0);
    bool as_tree = g.flip();
    da_int m = (da_int)g.range(1, 6), seed = (da_int)g.below(1000);
    std::string sel = g.pick({"all", "sqrt", "log2"});
    auto run = [&](da_order od, da_int extra, int threads, da_int block) {
        Threads th(threads);
        Problem<T> R = P;
        R.X = P.X.as(od, extra);
        R.Q = P.Q.as(od, extra);
        Handle h;
        init<T>(h, da_handle_decision_forest);
        opt_order(h, od);
        set_opts<T>(g, h, o, false);
        opt_s(h, "bootstrap", as_tree ? "no" : "yes");
        opt_s(h, "features selection", as_tree ? "all" : sel.c_str());
        opt_i(h, "number of trees", m);
        opt_i(h, "seed", seed);
        opt_i(h, "maximum tree threads", 1);
        opt_i(h, "block size", block);
        OK(ForestAPI<T>::set(h, n, p, R.nc_arg, R.X.data(), R.X.ld, R.y.data(), nullptr));
        OK(ForestAPI<T>::fit(h));
        if (g.flip())
            opt_i(h, "block size", (da_int)g.range(1, 50));
        return predict_all<T, ForestAPI<T>>(g, h, R.Q, R.nc, false);
    };
    Pred<T> a;
    if (as_tree) {
        Handle h;
        init<T>(h, da_handle_decision_tree);
        set_opts<T>(g, h, o, true);
        opt_r<T>(h, "minimum split score", (T)(o.minscore == 0 ? 1e-5 : o.minscore));
        if (o.minscore == 0)
            o.minscore = (double)(T)1e-5;
        OK(TreeAPI<T>::set(h, n, p, P.nc_arg, P.X.data(), P.X.ld, P.y.data(), nullptr));
        OK(TreeAPI<T>::fit(h));
        a = predict_all<T, TreeAPI<T>>(g, h, P.Q, P.nc, true);
    } else
        a = run(column_major, 0, 1, 256);
    da_order od = gen_order(g);
    int t = (int)g.range(1, 4);
    auto b = run(od, gen_extra(g), t, (da_int)g.range(1, 60));
    g.note("%s n=%d p=%d trees=%d %s %s threads=%d hist=%d depth=%d crit=%d", tn<T>(), (int)n, (int)p, (int)m, on(od), as_tree ? "tree" : sel.c_str(), t, o.hist, (int)o.depth, o.crit);
    std::set<da_int> classes;
    for (da_int i = 0; i < P.Q.n; i++) {
        REQUIRE(a.lab[i] == b.lab[i], "same", "row %d: label %d and %d", (int)i, (int)a.lab[i], (int)b.lab[i]);
        classes.insert(a.lab[i]);
        for (da_int k = 0; k < P.nc; k++)
            REQUIRE(std::fabs(a.prob[i][k] - b.prob[i][k]) <= 8 * EPS<T> * (m + 1), "same", "row %d class %d: probability %.9g and %.9g", (int)i, (int)k, a.prob[i][k], b.prob[i][k]);
    }
    g.label(as_tree ? "decision tree" : "layout, threads, blocks");
    g.nontrivial(classes.size() > 1);
}

// calls that must be refused, and what the handle does afterwards
template <class T, class A> void errors_case(Gen &g) {
    perturb(g);
    da_order od = gen_order(g);
    da_int n = (da_int)g.range(4, 20), p = (da_int)g.range(1, 6);
    auto P = gen_problem<T>(g, n, p, od, 0);
    Handle h;
    init<T>(h, A::type());
    opt_order(h, od);
    opt_i(h, "seed", (da_int)g.below(50));
    if (!A::tree)
        opt_i(h, "number of trees", (da_int)g.range(1, 4));
    std::vector<T> out((size_t)(P.Q.n + 9) * (P.nc + 9), 3), scr(1);
    std::vector<da_int> lab(P.Q.n + 9, 3);
    auto want = [&](const char *what, da_status s, std::vector<da_status> ok) {
        REQUIRE(std::count(ok.begin(), ok.end(), s) > 0, "status", "%s returned %d", what, (int)s);
        for (auto v : out)
            REQUIRE(v == 3, "write", "%s failed but wrote probabilities", what);
        for (auto v : lab)
            REQUIRE(v == 3, "write", "%s failed but wrote labels", what);
    };
    da_int ldq = P.Q.ld, ldo = od == column_major ? P.Q.n : P.nc;
    want("fit without data", A::fit(h), {da_status_no_data});
    want("predict without data", A::predict(h, P.Q.n, p, P.Q.data(), ldq, lab.data()), {da_status_out_of_date, da_status_invalid_input});
    // rejected training data, before and after good ones
    auto bad_data = [&]() {
        switch (g.below(5)) {
        case 0:
            want("null X", A::set(h, n, p, P.nc, nullptr, P.X.ld, P.y.data(), nullptr), {da_status_invalid_pointer});
            break;
        case 1:
            want("null y", A::set(h, n, p, P.nc, P.X.data(), P.X.ld, nullptr, nullptr), {da_status_invalid_pointer});
            break;
        case 2:
            want("no samples", A::set(h, g.flip() ? 0 : -2, p, P.nc, P.X.data(), P.X.ld, P.y.data(), nullptr), {da_status_invalid_array_dimension});
            break;
        case 3:
            want("no features", A::set(h, n, g.flip() ? 0 : -2, P.nc, P.X.data(), P.X.ld, P.y.data(), nullptr), {da_status_invalid_array_dimension});
            break;
        default:
            want("short leading dimension", A::set(h, n, p, P.nc, P.X.data(), (od == column_major ? n : p) - 1, P.y.data(), nullptr), {da_status_invalid_leading_dimension});
        }
    };
    if (g.flip())
        bad_data();
    {
        // the library must not need the caller's copy of row-major data... it keeps column-major pointers
        OK(A::set(h, n, p, P.nc, P.X.data(), P.X.ld, P.y.data(), nullptr));
    }
    bool early = g.flip();
    if (early)
        bad_data();
    want("predict before fit", A::predict(h, P.Q.n, p, P.Q.data(), ldq, lab.data()), {da_status_out_of_date});
    OK(A::fit(h));
    auto a = predict_all<T, A>(g, h, P.Q, P.nc, false);
    for (int k = (int)g.range(1, 3); k > 0; k--) {
        switch (g.below(9)) {
        case 0:
            want("wrong features", A::predict(h, P.Q.n, p + 1, P.Q.data(), ldq + 1, lab.data()), {da_status_invalid_input});
            break;
        case 1:
            want("null labels", A::predict(h, P.Q.n, p, P.Q.data(), ldq, nullptr), {da_status_invalid_pointer, da_status_invalid_input});
            break;
        case 2:
            want("null queries", A::proba(h, P.Q.n, p, nullptr, ldq, out.data(), P.nc, ldo), {da_status_invalid_pointer});
            break;
        case 3:
            want("wrong classes", A::proba(h, P.Q.n, p, P.Q.data(), ldq, out.data(), P.nc + 1, ldo + 1), {da_status_invalid_input});
            break;
        case 4:
            want("wrong classes, log", A::logp(h, P.Q.n, p, P.Q.data(), ldq, out.data(), P.nc + 1, ldo + 1), {da_status_invalid_input});
            break;
        case 5:
            want("null probabilities", A::logp(h, P.Q.n, p, P.Q.data(), ldq, nullptr, P.nc, ldo), {da_status_invalid_pointer});
            break;
        case 6:
            want("short ld of probabilities", A::proba(h, P.Q.n, p, P.Q.data(), ldq, out.data(), P.nc, ldo - 1), {da_status_invalid_leading_dimension});
            break;
        case 7:
            want("null score", A::score(h, P.Q.n, p, P.Q.data(), ldq, lab.data(), nullptr), {da_status_invalid_pointer, da_status_invalid_input});
            break;
        default:
            want("null test labels", A::score(h, P.Q.n, p, P.Q.data(), ldq, nullptr, scr.data()), {da_status_invalid_pointer});
        }
    }
    bad_data();
    // the model is as before
    auto b = predict_all<T, A>(g, h, P.Q, P.nc, false);
    REQUIRE(a.lab == b.lab && a.prob == b.prob, "after-error", "predictions changed after failed calls");
    OK(A::fit(h));
    auto c = predict_all<T, A>(g, h, P.Q, P.nc, false);
    REQUIRE(a.lab == c.lab, "after-error", "fitting again after failed calls gave other predictions");
    for (da_int i = 0; i < P.Q.n; i++)
        for (da_int k = 0; k < P.nc; k++)
            REQUIRE(pbt::close(a.prob[i][k], c.prob[i][k], 32 * EPS<T>, 32 * EPS<T>), "after-error", "fitting again after failed calls gave other probabilities");
    // new data: the old model is gone
    da_int p2 = p + (da_int)g.below(3), n2 = (da_int)g.range(4, 20);
    auto P2 = gen_problem<T>(g, n2, p2, od, 0);
    OK(A::set(h, n2, p2, P2.nc_arg, P2.X.data(), P2.X.ld, P2.y.data(), nullptr));
    want("predict with replaced data", A::predict(h, P2.Q.n, p2, P2.Q.data(), P2.Q.ld, lab.data()), {da_status_out_of_date});
    if (g.flip()) { // a fit that fails
        opt_s(h, "histogram", "yes");
        OK(A::set(h, 3, p2, P2.nc_arg, P2.X.data(), P2.X.ld, P2.y.data(), nullptr));
        want("fit with too few samples for bins", A::fit(h), {da_status_invalid_option});
        want("predict after a failed fit", A::predict(h, P2.Q.n, p2, P2.Q.data(), P2.Q.ld, lab.data()), {da_status_out_of_date});
        opt_s(h, "histogram", "no");
        OK(A::set(h, n2, p2, P2.nc_arg, P2.X.data(), P2.X.ld, P2.y.data(), nullptr));
    }
    OK(A::fit(h));
    auto d = predict_all<T, A>(g, h, P2.Q, P2.nc, false);
    Handle f;
    init<T>(f, A::type());
    opt_order(f, od);
    T ri[8];
    rinfo<T>(h, ri, A::tree ? 8 : 6);
    opt_i(f, "seed", (da_int)ri[3]);
    if (!A::tree)
        opt_i(f, "number of trees", (da_int)ri[4]);
    OK(A::set(f, n2, p2, P2.nc_arg, P2.X.data(), P2.X.ld, P2.y.data(), nullptr));
    OK(A::fit(f));
    auto e = predict_all<T, A>(g, f, P2.Q, P2.nc, false);
    REQUIRE(d.lab == e.lab, "reuse", "a reused handle predicts otherwise than a fresh one");
    g.note("%s %s %s n=%d p=%d n2=%d p2=%d", tn<T>(), A::tree ? "tree" : "forest", on(od), (int)n, (int)p, (int)n2, (int)p2);
    g.nontrivial();
}

// the sorting, counting and scoring behind the splits
template <class T> void sort_case(Gen &g) {
    da_int n = (da_int)g.size(1, 200), lo = (da_int)g.below(n), m = (da_int)g.range(1, n - lo);
    int kind = (int)g.below(4);
    std::vector<T> v(n);
    std::vector<da_int> idx(n);
    da_int span = kind == 0 ? 3 : kind == 1 ? 20 : n + 5;
    for (da_int i = 0; i < n; i++) {
        v[i] = kind == 3 ? (T)(g.flip() ? i : n - i) : (T)g.below(span);
        idx[i] = i * 7 + 1;
    }
    auto v0 = v;
    auto i0 = idx;
    auto check = [&](const char *what) {
        std::vector<std::pair<T, da_int>> a, b;
        for (da_int i = 0; i < n; i++) {
            if (i < lo || i >= lo + m) {
                REQUIRE(v[i] == v0[i] && idx[i] == i0[i], what, "element %d outside the range changed", (int)i);
            } else {
                REQUIRE(i == lo || v[i - 1] <= v[i], what, "not sorted at %d", (int)i);
                a.push_back({v0[i], i0[i]});
                b.push_back({v[i], idx[i]});
            }
        }
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        REQUIRE(a == b, what, "the pairs of values and indices are not a permutation");
        v = v0;
        idx = i0;
    };
    df::multi_range_heap_sort(idx, v, lo, m);
    check("heap sort");
    df::multi_range_intro_sort(idx, v, lo, m, (da_int)g.below(20));
    check("intro sort");
    // buckets: values are categories of the samples in idx
    da_int ncat = span + (kind == 3 ? n + 1 : 0) + 1;
    std::vector<da_int> buckets((size_t)ncat * n), bi(ncat);
    df::bucket_sort_samples(idx, v, ncat, lo, m, n, buckets, bi);
    check("bucket sort");
    std::vector<da_int> s(m), cnt(n, 99);
    for (auto &x : s)
        x = (da_int)g.below(n);
    std::vector<da_int> c0(n, 0), u0;
    for (auto x : s)
        c0[x]++;
    for (da_int i = 0; i < n; i++)
        if (c0[i])
            u0.push_back(i);
    REQUIRE(df::compress_count_occurences(s, cnt) == da_status_success, "compress", "status");
    REQUIRE(s == u0 && cnt == c0, "compress", "distinct indices or their counts are wrong");
    da_int nc = (da_int)g.range(1, 6), tot = 0;
    std::vector<da_int> k(nc);
    for (auto &x : k)
        tot += x = (da_int)g.below(1000);
    if (tot) {
        std::vector<da_int> kk(k.begin(), k.end());
        double sc[3] = {(double)df::gini_score<T>(tot, nc, k), (double)df::entropy_score<T>(tot, nc, k), (double)df::misclassification_score<T>(tot, nc, k)};
        for (int c = 0; c < 3; c++)
            REQUIRE(pbt::close(sc[c], (double)impurity(c, kk), 0, 32 * EPS<T>), "score", "criterion %d: %.9g, expected %.9g", c, sc[c], (double)impurity(c, kk));
    }
    g.note("%s n=%d range %d+%d kind %d", tn<T>(), (int)n, (int)lo, (int)m, kind);
    g.nontrivial(m > 3);
}
} // namespace

// bins are split one against all, but predictions compare the value itself with the bin's number
static bool probe_hist_onevall() {
    Handle h;
    init<double>(h, da_handle_decision_tree);
    opt_s(h, "histogram", "yes");
    opt_i(h, "maximum bins", 6);
    opt_s(h, "category split strategy", "one-vs-all");
    double X[12], s = 0;
    da_int y[12];
    for (int i = 0; i < 12; i++) {
        X[i] = 10 * (i % 3 + 1);
        y[i] = i % 3 == 1;
    }
    OK(da_tree_set_training_data_d(h, 12, 1, 2, X, 12, y, nullptr));
    OK(da_tree_fit_d(h));
    OK(da_tree_score_d(h, 12, 1, X, 12, y, &s));
    return s != 1;
}
static pbt::FReg reg_hist_onevall({"C17", "hist-onevall", "a tree of one-vs-all splits on binned data predicts by comparing the feature value with the bin number", probe_hist_onevall});

PROPERTY(C17, greedy, 20000, 100000,
         "training sets with ties, constant, repeated, categorical and monotone features; all criteria, limits, histograms and layouts; the predictions on training points and queries must be those of some greedy tree, found by search; non-trivial: at least 3 leaves") {
    g.flip() ? tree_case<double>(g) : tree_case<float>(g);
}

PROPERTY(C17, errors, 2500, 30000,
         "refused calls on decision trees in random order and place; statuses, untouched outputs, unchanged model, later fits equal to a fresh handle; all non-trivial") {
    g.flip() ? errors_case<double, TreeAPI<double>>(g) : errors_case<float, TreeAPI<float>>(g);
}
PROPERTY(C17, pieces, 6000, 60000,
         "heap, intro and bucket sort of index ranges, counting of bootstrap samples and impurity functions against references; non-trivial: more than 3 elements") {
    g.flip() ? sort_case<double>(g) : sort_case<float>(g);
}
PROPERTY(C18, trees, 12000, 120000,
         "forests of 1 to 4 trees: draws revealed by forests of depth 0 with one class per sample, each further tree (difference of the forests with and without it) must be greedy on its draws, labels the plurality of votes; non-trivial: a tree with at least 3 leaves") {
    g.flip() ? forest_case<double>(g) : forest_case<float>(g);
}
PROPERTY(C18, same, 10000, 50000,
         "forests without bootstrap and with all features against the decision tree, and forests under other layouts, thread counts and block sizes; non-trivial: more than one label predicted") {
    g.flip() ? forest_same<double>(g) : forest_same<float>(g);
}
PROPERTY(C18, errors, 4000, 25000,
         "refused calls on forests in random order and place; statuses, untouched outputs, unchanged model, later fits equal to a fresh handle; all non-trivial") {
    g.flip() ? errors_case<double, ForestAPI<double>>(g) : errors_case<float, ForestAPI<float>>(g);
}
#include "pbt_main.cpp"
