#include "da.hpp"
#include "pbt_main.cpp"

static da_status split(da_order o, da_int m, da_int n, const double *X, da_int ld, da_int a, da_int b, const da_int *sh, double *tr, da_int l1, double *te, da_int l2) { return da_train_test_split_d(o, m, n, X, ld, a, b, sh, tr, l1, te, l2); }
static da_status split(da_order o, da_int m, da_int n, const float *X, da_int ld, da_int a, da_int b, const da_int *sh, float *tr, da_int l1, float *te, da_int l2) { return da_train_test_split_s(o, m, n, X, ld, a, b, sh, tr, l1, te, l2); }
static da_status split(da_order o, da_int m, da_int n, const da_int *X, da_int ld, da_int a, da_int b, const da_int *sh, da_int *tr, da_int l1, da_int *te, da_int l2) { return da_train_test_split_int(o, m, n, X, ld, a, b, sh, tr, l1, te, l2); }
static da_status shuffled(da_int m, da_int seed, da_int a, da_int b, da_int fp, const double *c, da_int *out) { return da_get_shuffled_indices_d(m, seed, a, b, fp, c, out); }
static da_status shuffled(da_int m, da_int seed, da_int a, da_int b, da_int fp, const float *c, da_int *out) { return da_get_shuffled_indices_s(m, seed, a, b, fp, c, out); }
static da_status shuffled(da_int m, da_int seed, da_int a, da_int b, da_int fp, const da_int *c, da_int *out) { return da_get_shuffled_indices_int(m, seed, a, b, fp, c, out); }

static da_int gen_n(Gen &g, da_int lo) { return g.chance(1, 12) ? (da_int)g.range(100, g.thorough ? 1500 : 400) : (da_int)g.size(lo, 60); }

// every element tells where it came from
template <class T> Mat<T> numbered(Gen &g, da_int n, da_int p, da_order o) {
    Mat<T> X(n, p, o, gen_extra(g));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            X(i, j) = (T)(i * p + j + 1);
    return X;
}
template <class T> void split_test(Gen &g) {
    da_int m = gen_n(g, 2), n = g.chance(1, 10) ? (da_int)g.range(30, 90) : (da_int)g.size(1, 20);
    da_order o = gen_order(g);
    Mat<T> X = numbered<T>(g, m, n, o);
    std::vector<T> X0 = X.v;
    da_int a = (da_int)g.range(1, m - 1), b = g.flip() ? m - a : (da_int)g.range(1, m - a);
    bool sh = g.flip();
    std::vector<da_int> idx(m);
    for (da_int i = 0; i < m; i++)
        idx[i] = i;
    if (sh) {
        if (g.flip())
            OK(shuffled(m, (da_int)g.below(1000), a, b, 10, (const T *)nullptr, idx.data()));
        else
            for (da_int i = m - 1; i > 0; i--)
                std::swap(idx[i], idx[g.below(i + 1)]);
        if (g.chance(1, 5)) // rows may be drawn twice
            idx[g.below(m)] = idx[g.below(m)];
    }
    Mat<T> A(a, n, o, gen_extra(g)), B(b, n, o, gen_extra(g));
    Threads th(gen_threads(g));
    g.note("%dx%d %s ldx=%d train=%d test=%d %s lds %d %d threads %d", (int)m, (int)n, on(o), (int)X.ld, (int)a, (int)b, sh ? "shuffled" : "in order", (int)A.ld, (int)B.ld, omp_get_max_threads());
    OK(split(o, m, n, X.data(), X.ld, a, b, sh ? idx.data() : nullptr, A.data(), A.ld, B.data(), B.ld));
    for (da_int i = 0; i < a; i++)
        for (da_int j = 0; j < n; j++)
            REQUIRE(A(i, j) == X(idx[i], j), "train", "row %d column %d of the training part is not that of row %d", (int)i, (int)j, (int)idx[i]);
    for (da_int i = 0; i < b; i++)
        for (da_int j = 0; j < n; j++)
            REQUIRE(B(i, j) == X(idx[a + i], j), "test", "row %d column %d of the test part is not that of row %d", (int)i, (int)j, (int)idx[a + i]);
    REQUIRE(A.pad_ok() && B.pad_ok(), "padding", "written");
    REQUIRE(X.v == X0, "input", "the input was changed");
    if (m > 3 && n > 1)
        g.nontrivial();
    g.label(std::string(on(o)) + (sh ? " shuffled" : ""));
}
PROPERTY(C22, train_test_split, 15000, 200000, "at least 4 rows and 2 columns") {
    switch ((int)g.below(3)) {
    case 0: return split_test<double>(g);
    case 1: return split_test<float>(g);
    default: return split_test<da_int>(g);
    }
}
template <class T> void shuffle_test(Gen &g) {
    da_int m = gen_n(g, 2), seed = (da_int)g.below(100000);
    da_int a = (da_int)g.range(1, m - 1), b = g.flip() ? m - a : (da_int)g.range(1, m - a);
    bool strat = g.chance(3, 4);
    Guarded<da_int> out(m), again(m);
    if (!strat) {
        OK(shuffled(m, seed, a, b, 10, (const T *)nullptr, out.data()));
        OK(shuffled(m, seed, a, b, 10, (const T *)nullptr, again.data()));
        REQUIRE(out.v == again.v, "seed", "the same seed gives another order");
        REQUIRE(out.ok(), "overrun", "written behind the indices");
        std::vector<char> seen(m);
        for (da_int i = 0; i < m; i++) {
            REQUIRE(out[i] >= 0 && out[i] < m && !seen[out[i]], "permutation", "index %d at %d", (int)out[i], (int)i);
            seen[out[i]] = 1;
        }
        if (m >= 40) {
            OK(shuffled(m, seed + 1, a, b, 10, (const T *)nullptr, again.data()));
            REQUIRE(out.v != again.v, "seed", "another seed gives the same order");
            da_int fixed = 0;
            for (da_int i = 0; i < m; i++)
                fixed += out[i] == i;
            REQUIRE(fixed < m / 2, "shuffled", "%d of %d stay in place", (int)fixed, (int)m);
        }
        if (m > 3)
            g.nontrivial();
        g.label("plain");
        return;
    }
    da_int nc = (da_int)g.range(1, 6), fp = g.pick({10, 100, 1000});
    std::vector<T> c(m);
    std::vector<long long> id(m);
    int kind = (int)g.below(3);
    for (da_int i = 0; i < m; i++) {
        da_int k = g.chance(1, 2) ? 0 : (da_int)g.below(nc);
        if constexpr (std::is_floating_point<T>::value) {
            // quarters of the resolution, negative ones too, so that some values are one class
            c[i] = kind == 0 ? (T)k : (T)((k - 2) * (kind == 1 ? 0.25 : 0.0625));
            id[i] = (long long)std::floor(c[i] * (T)fp);
        } else
            id[i] = c[i] = (T)(k * (kind == 0 ? 1 : kind == 1 ? -3 : 1000000));
    }
    std::map<long long, da_int> cnt;
    for (auto v : id)
        cnt[v]++;
    da_int least = m;
    for (auto &k : cnt)
        least = std::min(least, k.second);
    bool valid = cnt.size() >= 2 && least >= 2 && a >= (da_int)cnt.size() && b >= (da_int)cnt.size();
    g.note("m=%d seed=%d train=%d test=%d fp=%d classes:", (int)m, (int)seed, (int)a, (int)b, (int)fp);
    for (auto &k : cnt)
        g.note("%lld*%d", k.first, (int)k.second);
    da_status s = shuffled(m, seed, a, b, fp, c.data(), out.data());
    REQUIRE(out.ok(), "overrun", "written behind the indices");
    if (!valid) {
        REQUIRE(s == da_status_invalid_input, "status", "invalid stratification returned %d", (int)s);
        g.label("refused");
        return;
    }
    OK(s);
    OK(shuffled(m, seed, a, b, fp, c.data(), again.data()));
    REQUIRE(out.v == again.v, "seed", "the same seed gives another order");
    std::vector<char> seen(m);
    std::map<long long, da_int> tr, te;
    for (da_int i = 0; i < a + b; i++) {
        REQUIRE(out[i] >= 0 && out[i] < m && !seen[out[i]], "distinct", "index %d at %d", (int)out[i], (int)i);
        seen[out[i]] = 1;
        (i < a ? tr : te)[id[out[i]]]++;
    }
    for (auto &k : cnt) {
        // shares are rounded up or down to whole samples
        double want = (double)k.second * a / m, left = k.second - tr[k.first], w2 = left * b / (m - a);
        REQUIRE(std::fabs(tr[k.first] - want) < 1 + 1e-9, "train share", "class %lld: %d of %d, share %g", k.first, (int)tr[k.first], (int)a, want);
        REQUIRE(std::fabs(te[k.first] - w2) < 1 + 1e-9, "test share", "class %lld: %d of %d, share %g", k.first, (int)te[k.first], (int)b, w2);
        // the largest remainders are rounded up
        for (auto &q : cnt) {
            double w = (double)q.second * a / m;
            if (tr[k.first] > want + 1e-9 && tr[q.first] < w - 1e-9)
                REQUIRE(want - std::floor(want) > w - std::floor(w) - 1e-9, "rounding", "class %lld is rounded up and class %lld down", k.first, q.first);
        }
    }
    if (cnt.size() >= 2 && m >= 12)
        g.nontrivial();
    g.label("stratified");
}
PROPERTY(C22, shuffled_indices, 15000, 200000, "more than 3 indices, or 12 in at least 2 classes") {
    switch ((int)g.below(3)) {
    case 0: return shuffle_test<double>(g);
    case 1: return shuffle_test<float>(g);
    default: return shuffle_test<da_int>(g);
    }
}
template <class T> void order_test(Gen &g) {
    bool big = g.chance(1, 15);
    da_int n = big ? (da_int)g.range(60, 300) : (da_int)g.size(1, 40), p = big ? (da_int)g.range(60, 300) : (da_int)g.size(1, 40);
    da_order o = gen_order(g), r = o == row_major ? column_major : row_major;
    Mat<T> X = numbered<T>(g, n, p, o);
    if (g.chance(1, 3)) // any value is carried
        X(g.below(n), g.below(p)) = g.pick({std::numeric_limits<T>::infinity(), (T)-0.0, std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max()});
    Mat<T> Y(n, p, r, gen_extra(g));
    g.note("%dx%d %s ld %d -> %d", (int)n, (int)p, on(o), (int)X.ld, (int)Y.ld);
    std::vector<T> X0 = X.v;
    OK(DA(T, da_switch_order_copy, o, n, p, X.data(), X.ld, Y.data(), Y.ld));
    auto same = [](T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; };
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            REQUIRE(same(X(i, j), Y(i, j)), "copy", "element %d,%d is %g, was %g", (int)i, (int)j, (double)Y(i, j), (double)X(i, j));
    REQUIRE(Y.pad_ok(), "padding", "written");
    REQUIRE(memcmp(X0.data(), X.v.data(), X0.size() * sizeof(T)) == 0, "input", "changed");
    // in place, in an array with room for both
    size_t need = std::max(X.v.size(), Y.v.size());
    Guarded<T> W(need);
    std::copy(X.v.begin(), X.v.end(), W.v.begin());
    OK(DA(T, da_switch_order_in_place, o, n, p, W.data(), X.ld, Y.ld));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            REQUIRE(same(X(i, j), W[Y.at(i, j)]), "in place", "element %d,%d is %g, was %g", (int)i, (int)j, (double)W[Y.at(i, j)], (double)X(i, j));
    REQUIRE(W.ok(), "overrun", "written behind the array");
    if (n > 1 && p > 1)
        g.nontrivial();
    g.label(big ? "big" : "small");
}
PROPERTY(C22, switch_order, 12000, 150000, "at least 2 by 2") {
    if (g.flip())
        order_test<double>(g);
    else
        order_test<float>(g);
}
template <class T> void nan_test(Gen &g) {
    da_int n = (da_int)g.size(1, 40), p = (da_int)g.size(1, 40);
    da_order o = gen_order(g);
    Mat<T> X = gen_mat<T>(g, n, p, o);
    // what is not a NaN, however large or small
    int odd = (int)g.below(4);
    for (int i = 0; i < odd; i++)
        X(g.below(n), g.below(p)) = (T)g.pick({16777216.0, -33554432.0, 9007199254740992.0, 1e30, -1e-30, (double)std::numeric_limits<T>::max(), (double)std::numeric_limits<T>::min(), (double)std::numeric_limits<T>::denorm_min()});
    bool nan = g.flip();
    // the padding is not data
    da_int a = o == column_major ? n : p, b = o == column_major ? p : n;
    for (da_int j = 0; j < b; j++)
        for (da_int i = a; i < X.ld; i++)
            X.v[(size_t)j * X.ld + i] = std::numeric_limits<T>::quiet_NaN();
    if (nan) {
        T q = std::numeric_limits<T>::quiet_NaN();
        X(g.below(n), g.below(p)) = g.flip() ? q : -q;
    }
    g.note("%dx%d %s ld=%d nan=%d", (int)n, (int)p, on(o), (int)X.ld, (int)nan);
    da_status s = DA(T, da_check_data, o, n, p, X.data(), X.ld);
    REQUIRE(s == (nan ? da_status_invalid_input : da_status_success), "check", "returned %d for an array %s NaN: %s", (int)s, nan ? "with a" : "without", show(X).c_str());
    if (n * p > 1)
        g.nontrivial();
    g.label(nan ? "NaN" : odd ? "extreme" : "clean");
}
PROPERTY(C22, check_data, 12000, 100000, "at least 2 elements") {
    if (g.flip())
        nan_test<double>(g);
    else
        nan_test<float>(g);
}
template <class T> void refused(Gen &g) {
    da_int m = (da_int)g.range(2, 12), n = (da_int)g.range(1, 6), big = 1 << 30;
    da_order o = gen_order(g);
    Mat<T> X = numbered<T>(g, m, n, o);
    da_int a = (da_int)g.range(1, m - 1), b = m - a;
    Mat<T> A(a, n, o, 0), B(b, n, o, 0);
    std::vector<T> A0 = A.v, B0 = B.v;
    da_int la = A.ld, lb = B.ld, lx = X.ld, mm = m, nn = n;
    const T *px = X.data();
    T *pa = A.data(), *pb = B.data();
    std::vector<da_status> ok;
    int w = (int)g.below(12);
    g.note("%dx%d %s train=%d test=%d wrong thing %d", (int)m, (int)n, on(o), (int)a, (int)b, w);
    const auto LD = da_status_invalid_leading_dimension, IN = da_status_invalid_input, DIM = da_status_invalid_array_dimension, PTR = da_status_invalid_pointer;
    switch (w) {
    case 0: px = nullptr, ok = {PTR}; break;
    case 1: pa = nullptr, ok = {PTR}; break;
    case 2: pb = nullptr, ok = {PTR}; break;
    case 3: mm = g.pick({1, 0, -4}), ok = {DIM}; break;
    case 4: nn = g.pick({0, -1}), ok = {DIM}; break;
    case 5: lx = (o == row_major ? n : m) - 1, ok = {LD}; break;
    case 6: la = (o == row_major ? n : a) - 1, ok = {LD}; break;
    case 7: lb = (o == row_major ? n : b) - 1, ok = {LD}; break;
    case 8: a = g.pick({0, -1, -5}), ok = {IN}; break;
    case 9: b = g.pick({0, -1, -5}), ok = {IN}; break;
    case 10: b++, lb++, ok = {IN}; break;
    default: // their sum is not representable
        a = b = std::numeric_limits<da_int>::max() - (da_int)g.below(3);
        la = lb = std::numeric_limits<da_int>::max();
        ok = {IN};
    }
    (void)big;
    da_status s = split(o, mm, nn, px, lx, a, b, nullptr, pa, la, pb, lb);
    REQUIRE(std::find(ok.begin(), ok.end(), s) != ok.end(), "split status", "returned %d", (int)s);
    REQUIRE(A.v == A0 && B.v == B0, "written", "the call was refused and wrote its output");
    // the other functions
    std::vector<da_int> idx(m, -5);
    std::vector<T> cls(m, (T)1);
    if constexpr (!std::is_same_v<T, da_int>) {
        Mat<T> Y(m, n, o == row_major ? column_major : row_major, 0);
        da_int ly = Y.ld;
        da_status e, f;
        int k = (int)g.below(4);
        lx = X.ld, mm = m, nn = n;
        T *py = Y.data();
        switch (k) {
        case 0: mm = g.pick({0, -1}), e = DIM; break;
        case 1: nn = g.pick({0, -1}), e = DIM; break;
        case 2: lx = (o == row_major ? n : m) - 1, e = LD; break;
        default: ly = (o == row_major ? m : n) - 1, e = LD; break;
        }
        s = DA(T, da_switch_order_copy, o, mm, nn, X.data(), lx, py, ly);
        REQUIRE(s == e, "copy status", "wrong thing %d returned %d", k, (int)s);
        f = DA(T, da_switch_order_in_place, o, mm, nn, X.data(), lx, ly);
        REQUIRE(f == e, "in place status", "wrong thing %d returned %d", k, (int)f);
        if (k < 3)
            REQUIRE(DA(T, da_check_data, o, mm, nn, X.data(), lx) == e, "check status", "wrong thing %d", k);
        REQUIRE(DA(T, da_switch_order_copy, o, m, n, (const T *)nullptr, X.ld, py, Y.ld) == PTR && DA(T, da_switch_order_copy, o, m, n, X.data(), X.ld, (T *)nullptr, Y.ld) == PTR && DA(T, da_switch_order_in_place, o, m, n, (T *)nullptr, X.ld, Y.ld) == PTR && DA(T, da_check_data, o, m, n, (const T *)nullptr, X.ld) == PTR, "null", "accepted");
    }
    REQUIRE(shuffled(m, 1, 1, 1, 10, (const T *)nullptr, nullptr) == PTR, "shuffle null", "accepted");
    REQUIRE(shuffled(g.pick({1, 0, -3}), 1, 1, 1, 10, (const T *)nullptr, idx.data()) == DIM, "shuffle size", "accepted");
    REQUIRE(shuffled(m, g.pick({-2, -100}), 1, 1, 10, (const T *)nullptr, idx.data()) == IN, "shuffle seed", "accepted");
    REQUIRE(shuffled(m, 1, 1, 1, 10, cls.data(), idx.data()) == IN, "one class", "accepted");
    g.nontrivial();
}
PROPERTY(C22, refused, 4000, 40000, "every case has one thing wrong") {
    switch ((int)g.below(3)) {
    case 0: return refused<double>(g);
    case 1: return refused<float>(g);
    default: return refused<da_int>(g);
    }
}
