#include "da.hpp"
#include "pbt_main.cpp"

typedef long double L;

// dot, sums and norms of one pair of rows, in long double
struct Pair {
    L dot = 0, l1 = 0, l2 = 0, nx = 0, ny = 0, absdot = 0;
};
template <class T> static Pair pair(const Mat<T> &X, da_int i, const Mat<T> &Y, da_int j) {
    Pair r;
    for (da_int l = 0; l < X.p; l++) {
        L x = X(i, l), y = Y(j, l);
        r.dot += x * y;
        r.absdot += std::fabs(x * y);
        r.l1 += std::fabs(x - y);
        r.l2 += (x - y) * (x - y);
        r.nx += x * x;
        r.ny += y * y;
    }
    return r;
}

// shapes: mostly small, sometimes past the packing blocks (4/8, 32/64, 256/512, 1024)
static void gen_shapes(Gen &g, da_int &m, da_int &n, da_int &k, bool &big) {
    big = g.chance(1, 60);
    if (!big) {
        m = (da_int)g.size(1, 40);
        n = (da_int)g.size(1, 40);
        k = g.chance(1, 12) ? (da_int)g.range(30, 140) : (da_int)g.size(1, 20);
        return;
    }
    switch (g.below(4)) {
    case 0: m = (da_int)g.range(1, 20); n = (da_int)g.range(1020, 1100); k = (da_int)g.range(1, 6); break;
    case 1: m = (da_int)g.range(250, 530); n = (da_int)g.range(1, 20); k = (da_int)g.range(1, 40); break;
    case 2: m = (da_int)g.range(250, 560); n = (da_int)g.range(250, 560); k = (da_int)g.range(1, 4); break;
    default: m = (da_int)g.range(1020, 1060); n = (da_int)g.range(8, 40); k = (da_int)g.range(1, 5); break;
    }
}
static int big_threads(Gen &g, bool big) { return big ? (int)g.range(1, 4) : g.chance(1, 8) ? (int)g.range(2, 4) : 1; }

template <class T> static void distances(Gen &g) {
    static const da_metric MET[] = {da_euclidean, da_sqeuclidean, da_minkowski, da_manhattan, da_cosine, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product};
    static const char *NAME[] = {"euclidean", "sqeuclidean", "minkowski", "manhattan", "cosine", "euclidean_gemm", "sqeuclidean_gemm", "inner_product"};
    da_int m, n, k;
    bool big;
    gen_shapes(g, m, n, k, big);
    da_order o = gen_order(g);
    int w = (int)g.below(8);
    da_metric met = MET[w];
    double pw = met == da_minkowski ? g.pick({3.0, 1.0, 2.0, 1.5, 0.5, 2.5, 4.0, 7.0}) : g.pick({2.0, 0.0, -1.0});
    bool self = g.chance(1, 3);
    if (self && big && m > 560)
        m = 1030, k = 2; // more columns than one packed panel
    int kind = (int)g.below(6);
    Mat<T> X = gen_mat<T>(g, m, k, o, kind);
    if (self)
        n = m;
    Mat<T> Y = self ? X : gen_mat<T>(g, n, k, o, kind);
    if (g.chance(1, 4)) { // a zero row, or a row of X within Y
        da_int i = (da_int)g.below(m), j = (da_int)g.below(n);
        bool zero = g.flip();
        for (da_int l = 0; l < k; l++) {
            if (zero)
                X(i, l) = 0;
            if (!self && !zero)
                Y(j, l) = X(i, l);
            if (self && zero)
                Y(i, l) = 0;
        }
    }
    Mat<T> X0 = X, Y0 = Y;
    Mat<T> D(m, n, o, gen_extra(g));
    if (self && !big && g.chance(1, 2))
        n = (da_int)g.range(-1, 50); // n is not used when Y is null
    int th = big_threads(g, big);
    Threads tt(th);
    g.note("%s %s %s m=%d n=%d k=%d%s p=%g thr=%d X=%s", tn<T>(), NAME[w], on(o), m, D.p, k, self ? " (Y null)" : "", pw, th, show(X, 3).c_str());
    g.label(NAME[w]);
    g.label(self ? "X with itself" : "X with Y");
    if (big)
        g.label("past block sizes");
    g.nontrivial(m > 1 && D.p > 1 && k > 1);
    OK(DA(T, da_pairwise_distances, o, m, n, k, X.data(), X.ld, self ? nullptr : Y.data(), self ? -3 : Y.ld, D.data(), D.ld, (T)pw, met));
    n = D.p;
    REQUIRE(X.v == X0.v && Y.v == Y0.v, "inputs", "an input matrix was written");
    REQUIRE(D.pad_ok(), "padding", "the padding of D was written");
    double u = EPS<T> * 4, K = k + 8;
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < n; j++) {
            Pair q = pair(X, i, Y, j);
            L ref = 0, tol = 0;
            L nn = q.nx + q.ny;
            switch (met) {
            case da_euclidean: ref = sqrtl(q.l2); tol = u * K * ref; break;
            case da_sqeuclidean: ref = q.l2; tol = u * K * ref; break;
            case da_manhattan: ref = q.l1; tol = u * K * ref; break;
            case da_minkowski: {
                L s = 0;
                for (da_int l = 0; l < k; l++)
                    s += powl(fabsl((L)X(i, l) - Y(j, l)), (L)pw);
                ref = powl(s, 1.0L / (L)(T)pw);
                tol = 4 * u * (K + 10) * (1 + 1 / pw) * ref;
                break;
            }
            case da_cosine: {
                L a = sqrtl(q.nx), b = sqrtl(q.ny);
                // a row of zeros has norm 1 by convention; the diagonal is 0
                ref = self && i == j ? 0 : 1 - (q.nx == 0 || q.ny == 0 ? 0 : q.dot / (a * b));
                tol = self && i == j ? 0 : u * K;
                break;
            }
            case da_inner_product: ref = q.dot; tol = u * K * q.absdot; break;
            case da_sqeuclidean_gemm: ref = q.l2; tol = u * K * nn; break;
            default: {
                ref = sqrtl(q.l2);
                L e = u * K * nn;
                tol = ref == 0 ? sqrtl(e) : std::min(sqrtl(e), e / ref) + u * ref;
            }
            }
            if (self && i == j && met != da_inner_product && met != da_cosine)
                tol = 0;
            double got = D(i, j);
            if (!(std::fabs(got - (double)ref) <= (double)tol * 1.0001 + (tol > 0 ? 1e-300 : 0)))
                fail("value", "%s(%d,%d) = %.17g, reference %.17Lg, tolerance %.3Lg", NAME[w], i, j, got, ref, tol);
            if (self)
                REQUIRE(met == da_inner_product || met == da_cosine || met == da_sqeuclidean_gemm || got >= 0, "negative", "distance (%d,%d) is %g", i, j, got);
            if (self && (met == da_euclidean || met == da_sqeuclidean || met == da_manhattan || met == da_euclidean_gemm || met == da_sqeuclidean_gemm))
                REQUIRE(D(i, j) == D(j, i), "symmetry", "(%d,%d) = %.17g but (%d,%d) = %.17g", i, j, got, j, i, (double)D(j, i));
        }
}
PROPERTY(C08, distances, 40000, 600000,
         "random X and Y (or Y absent) in either order with padding, eight metrics, Minkowski exponents, threads, shapes past the packing blocks; every element of D against a long double reference, exact zero diagonal and symmetry; inputs and padding unchanged; non-trivial: more than one row of each and k > 1") {
    g.flip() ? distances<double>(g) : distances<float>(g);
}

template <class T> static void kernels(Gen &g) {
    static const char *NAME[] = {"rbf", "linear", "polynomial", "sigmoid"};
    da_int m, n, k;
    bool big;
    gen_shapes(g, m, n, k, big);
    if (big && g.flip()) // past the block size of the kernel matrix in one or both dimensions
        m = (da_int)g.range(1020, 1200), n = (da_int)g.range(16, 300), k = (da_int)g.range(1, 3);
    da_order o = gen_order(g);
    int w = (int)g.below(4);
    bool self = g.chance(1, 3);
    int kind = g.pick({0, 1, 2, 3});
    Mat<T> X = gen_mat<T>(g, m, k, o, kind);
    if (self)
        n = m;
    Mat<T> Y = self ? X : gen_mat<T>(g, n, k, o, kind);
    T gamma = (T)g.pick({1.0, 0.0, 0.5, 0.125, 0.01, 1.7}), c = (T)g.pick({0.0, 1.0, -1.0, 0.5, -2.25});
    da_int deg = (da_int)g.range(1, 5);
    Mat<T> X0 = X, Y0 = Y;
    Mat<T> D(m, n, o, gen_extra(g));
    int th = big_threads(g, big);
    Threads tt(th);
    g.note("%s %s %s m=%d n=%d k=%d%s gamma=%g c=%g deg=%d thr=%d X=%s", tn<T>(), NAME[w], on(o), m, n, k, self ? " (Y null)" : "", (double)gamma, (double)c, deg, th, show(X, 3).c_str());
    g.label(NAME[w]);
    g.label(self ? "X with itself" : "X with Y");
    if (big)
        g.label("past block sizes");
    g.nontrivial(m > 1 && n > 1 && gamma != 0);
    const T *y = self ? nullptr : Y.data();
    switch (w) {
    case 0: OK(DA(T, da_rbf_kernel, o, m, n, k, X.data(), X.ld, y, Y.ld, D.data(), D.ld, gamma)); break;
    case 1: OK(DA(T, da_linear_kernel, o, m, n, k, X.data(), X.ld, y, Y.ld, D.data(), D.ld)); break;
    case 2: OK(DA(T, da_polynomial_kernel, o, m, n, k, X.data(), X.ld, y, Y.ld, D.data(), D.ld, gamma, deg, c)); break;
    default: OK(DA(T, da_sigmoid_kernel, o, m, n, k, X.data(), X.ld, y, Y.ld, D.data(), D.ld, gamma, c));
    }
    REQUIRE(X.v == X0.v && Y.v == Y0.v, "inputs", "an input matrix was written");
    REQUIRE(D.pad_ok(), "padding", "the padding of D was written");
    double u = EPS<T> * 4, K = k + 8;
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < n; j++) {
            Pair q = pair(X, i, Y, j);
            L ref, tol;
            L G = gamma, b = G * q.dot + c, eb = u * (K * G * q.absdot + fabsl((L)c) + fabsl(b));
            switch (w) {
            case 0:
                ref = expl(-G * q.l2);
                tol = std::min<L>(1, G * u * K * (q.nx + q.ny)) + 4 * u;
                break;
            case 1: ref = q.dot; tol = u * K * q.absdot; break;
            case 2:
                ref = powl(b, deg);
                tol = 2 * deg * powl(fabsl(b) + eb, deg - 1) * eb + 16 * u * fabsl(ref);
                break;
            default: ref = tanhl(b); tol = eb + 4 * u;
            }
            double got = D(i, j);
            if (!(std::fabs(got - (double)ref) <= (double)tol))
                fail("value", "%s(%d,%d) = %.17g, reference %.17Lg, tolerance %.3Lg", NAME[w], i, j, got, ref, tol);
        }
}
PROPERTY(C08, kernels, 30000, 450000,
         "random X and Y (or Y absent), rbf, linear, polynomial and sigmoid kernels with random parameters, orders, padding, threads and shapes past the blocks; every element against a long double reference; non-trivial: more than one row of each and gamma not 0") {
    g.flip() ? kernels<double>(g) : kernels<float>(g);
}

// what the documentation promises to reject
template <class T> static void rejects(Gen &g) {
    da_int m = (da_int)g.range(1, 5), n = (da_int)g.range(1, 5), k = (da_int)g.range(1, 5);
    da_order o = gen_order(g);
    Mat<T> X = gen_mat<T>(g, m, k, o, 0), Y = gen_mat<T>(g, n, k, o, 0), D(m, n, o, 0);
    Mat<T> D0 = D;
    int f = (int)g.below(4), bad = (int)g.below(9);
    da_int ldx = X.ld, ldy = Y.ld, ldd = D.ld, M = m, N = n, K = k, deg = 2;
    T gam = 1, pw = 2, *x = X.data(), *d = D.data();
    da_status want = da_status_invalid_leading_dimension;
    da_metric met = da_euclidean;
    switch (bad) {
    case 0: ldx = (o == column_major ? m : k) - 1; break;
    case 1: ldy = (o == column_major ? n : k) - 1; break;
    case 2: ldd = (o == column_major ? m : n) - 1; break;
    case 3: M = (da_int)g.range(-2, 0); want = da_status_invalid_array_dimension; break;
    case 4: N = (da_int)g.range(-2, 0); want = da_status_invalid_array_dimension; break;
    case 5: K = (da_int)g.range(-2, 0); want = da_status_invalid_array_dimension; break;
    case 6: x = nullptr; want = da_status_invalid_pointer; break;
    case 7: d = nullptr; want = da_status_invalid_pointer; break;
    default:
        want = da_status_invalid_input;
        gam = -1;
        if (f == 1)
            f = 2;
        if (f == 2 && g.flip())
            gam = 1, deg = 0;
        met = da_minkowski;
        pw = (T)g.pick({0.0, -1.5});
    }
    g.note("%s %s f=%d bad=%d", tn<T>(), on(o), f, bad);
    g.nontrivial();
    da_status s;
    switch (f) {
    case 0: s = g.flip() ? DA(T, da_pairwise_distances, o, M, N, K, x, ldx, Y.data(), ldy, d, ldd, pw, met)
                         : DA(T, da_rbf_kernel, o, M, N, K, x, ldx, Y.data(), ldy, d, ldd, gam); break;
    case 1: s = DA(T, da_linear_kernel, o, M, N, K, x, ldx, Y.data(), ldy, d, ldd); break;
    case 2: s = DA(T, da_polynomial_kernel, o, M, N, K, x, ldx, Y.data(), ldy, d, ldd, gam, deg, (T)1); break;
    default: s = DA(T, da_sigmoid_kernel, o, M, N, K, x, ldx, Y.data(), ldy, d, ldd, gam, (T)1);
    }
    REQUIRE(s == want, "status", "invalid argument %d: status %d, documented %d", bad, (int)s, (int)want);
    REQUIRE(D.v == D0.v, "output", "the output was written although the call was rejected");
}
PROPERTY(C08, rejects, 4000, 40000,
         "one argument made invalid (dimension, leading dimension, pointer, exponent, gamma, degree): the documented status and an untouched output; every case is non-trivial") {
    g.flip() ? rejects<double>(g) : rejects<float>(g);
}
