// C06: sequences of calls, valid and not, on handles of every type.
#include "models.hpp"
#include "pbt_main.cpp"

template <class T> struct Args {
    da_int n, p, ld, k, nc, ldo;
    const T *x, *y;
    const da_int *lab;
    T *out;
    da_int *iout;
};
enum Role { SET, FIT, USE };
// what of the arguments a call looks at
enum { PX = 1, PY = 2, PLAB = 4, POUT = 8, PIOUT = 16, DN = 32, DP = 64, LDX = 128, LDO = 256 };
template <class T> struct Call {
    const char *name;
    da_handle_type type;
    Role role;
    int what;
    da_status (*f)(da_handle, Args<T> &);
};
#define CALL(nm, type, role, what, ...) {#nm, type, role, what, [](da_handle h, [[maybe_unused]] Args<T> &a) -> da_status { return DA(T, nm, h __VA_OPT__(,) __VA_ARGS__); }}
template <class T> const std::vector<Call<T>> &calls() {
    constexpr int X = PX | DN | DP | LDX, XS = X;
    static const std::vector<Call<T>> c = {
        CALL(da_pca_set_data, da_handle_pca, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_pca_compute, da_handle_pca, FIT, 0),
        CALL(da_pca_transform, da_handle_pca, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.ldo),
        CALL(da_pca_inverse_transform, da_handle_pca, USE, PX | DN | LDX | POUT | LDO, a.n, a.k, a.x, a.ld, a.out, a.ldo),
        CALL(da_kernel_pca_set_data, da_handle_kernel_pca, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_kernel_pca_compute, da_handle_kernel_pca, FIT, 0),
        CALL(da_kernel_pca_transform, da_handle_kernel_pca, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.ldo),
        CALL(da_kmeans_set_data, da_handle_kmeans, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_kmeans_compute, da_handle_kmeans, FIT, 0),
        CALL(da_kmeans_predict, da_handle_kmeans, USE, X | PIOUT, a.n, a.p, a.x, a.ld, a.iout),
        CALL(da_kmeans_transform, da_handle_kmeans, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.ldo),
        CALL(da_dbscan_set_data, da_handle_dbscan, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_dbscan_compute, da_handle_dbscan, FIT, 0),
        CALL(da_tree_set_training_data, da_handle_decision_tree, SET, XS | PLAB, a.n, a.p, a.nc, a.x, a.ld, a.lab, nullptr),
        CALL(da_tree_fit, da_handle_decision_tree, FIT, 0),
        CALL(da_tree_predict, da_handle_decision_tree, USE, X | PIOUT, a.n, a.p, a.x, a.ld, a.iout),
        CALL(da_tree_predict_proba, da_handle_decision_tree, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.nc, a.ldo),
        CALL(da_tree_predict_log_proba, da_handle_decision_tree, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.nc, a.ldo),
        CALL(da_tree_score, da_handle_decision_tree, USE, X | PLAB | POUT, a.n, a.p, a.x, a.ld, a.lab, a.out),
        CALL(da_forest_set_training_data, da_handle_decision_forest, SET, XS | PLAB, a.n, a.p, a.nc, a.x, a.ld, a.lab, nullptr),
        CALL(da_forest_fit, da_handle_decision_forest, FIT, 0),
        CALL(da_forest_predict, da_handle_decision_forest, USE, X | PIOUT, a.n, a.p, a.x, a.ld, a.iout),
        CALL(da_forest_predict_proba, da_handle_decision_forest, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.nc, a.ldo),
        CALL(da_forest_predict_log_proba, da_handle_decision_forest, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.nc, a.ldo),
        CALL(da_forest_score, da_handle_decision_forest, USE, X | PLAB | POUT, a.n, a.p, a.x, a.ld, a.lab, a.out),
        CALL(da_linmod_define_features, da_handle_linmod, SET, XS | PY, a.n, a.p, a.x, a.ld, a.y),
        CALL(da_linmod_fit, da_handle_linmod, FIT, 0),
        CALL(da_linmod_evaluate_model, da_handle_linmod, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out, nullptr, nullptr),
        CALL(da_nn_set_data, da_handle_nn, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_nn_set_labels, da_handle_nn, SET, DN | PLAB, a.n, a.lab),
        CALL(da_nn_set_targets, da_handle_nn, SET, DN | PY, a.n, a.y),
        CALL(da_nn_kneighbors, da_handle_nn, USE, X | PIOUT | POUT, a.n, a.p, a.x, a.ld, a.iout, a.out, 1, 1),
        CALL(da_nn_radius_neighbors, da_handle_nn, USE, X, a.n, a.p, a.x, a.ld, (T)0.5, 1, 1),
        CALL(da_nn_classifier_predict, da_handle_nn, USE, X | PIOUT, a.n, a.p, a.x, a.ld, a.iout, knn_search_mode),
        CALL(da_nn_classifier_predict_proba, da_handle_nn, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out, knn_search_mode),
        CALL(da_nn_regressor_predict, da_handle_nn, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out, knn_search_mode),
        CALL(da_nn_classifier_predict, da_handle_nn, USE, X | PIOUT, a.n, a.p, a.x, a.ld, a.iout, radius_search_mode),
        CALL(da_nn_classifier_predict_proba, da_handle_nn, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out, radius_search_mode),
        CALL(da_nn_regressor_predict, da_handle_nn, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out, radius_search_mode),
        CALL(da_approx_nn_set_training_data, da_handle_approx_nn, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_approx_nn_train_and_add, da_handle_approx_nn, FIT, 0),
        CALL(da_approx_nn_train, da_handle_approx_nn, FIT, 0),
        CALL(da_approx_nn_kneighbors, da_handle_approx_nn, USE, X | PIOUT | POUT, a.n, a.p, a.x, a.ld, a.iout, a.out, 1, 1),
        CALL(da_approx_nn_add, da_handle_approx_nn, USE, X, a.n, a.p, a.x, a.ld),
        CALL(da_svm_set_data, da_handle_svm, SET, XS | PY, a.n, a.p, a.x, a.ld, a.y),
        CALL(da_svm_compute, da_handle_svm, FIT, 0),
        CALL(da_svm_predict, da_handle_svm, USE, X | POUT, a.n, a.p, a.x, a.ld, a.out),
        CALL(da_svm_score, da_handle_svm, USE, X | PY | POUT, a.n, a.p, a.x, a.ld, a.y, a.out),
        CALL(da_svm_decision_function, da_handle_svm, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, ovr, a.out, a.ldo),
        CALL(da_svm_predict_proba, da_handle_svm, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.ldo),
        CALL(da_svm_predict_log_proba, da_handle_svm, USE, X | POUT | LDO, a.n, a.p, a.x, a.ld, a.out, a.ldo),
        CALL(da_tsne_set_data, da_handle_tsne, SET, XS, a.n, a.p, a.x, a.ld),
        CALL(da_tsne_compute, da_handle_tsne, FIT, 0),
        // no training data to speak of
        CALL(da_linmod_select_model, da_handle_linmod, SET, 0, linmod_model_mse),
        CALL(da_svm_select_model, da_handle_svm, SET, 0, svc),
        CALL(da_interpolation_select_model, da_handle_interpolation, SET, 0, interpolation_cubic_spline),
        CALL(da_interpolation_set_sites, da_handle_interpolation, SET, PX, a.n, a.x),
        CALL(da_interpolation_interpolate, da_handle_interpolation, FIT, 0),
        CALL(da_kmeans_set_init_centres, da_handle_kmeans, USE, PX, a.x, a.ld),
        CALL(da_tsne_set_init_embedding, da_handle_tsne, USE, PX, a.x, a.ld),
        CALL(da_nn_classes, da_handle_nn, USE, PIOUT, &a.k, a.iout),
    };
    return c;
}
static const da_handle_type TYPES[] = {da_handle_linmod, da_handle_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree, da_handle_decision_forest, da_handle_nn, da_handle_svm, da_handle_approx_nn, da_handle_kernel_pca, da_handle_tsne};
static const da_handle_type ALL[] = {da_handle_linmod, da_handle_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree, da_handle_decision_forest, da_handle_nlls, da_handle_nn, da_handle_svm, da_handle_interpolation, da_handle_approx_nn, da_handle_kernel_pca, da_handle_tsne};

// arguments that are right for queries to (or the training of) model m, with room to spare
template <class T> struct Bench {
    static constexpr int OUT = 8192;
    std::vector<T> out;
    std::vector<da_int> iout;
    std::vector<T> y, big;
    std::vector<da_int> lab;
    Args<T> a;
    Bench(const Model<T> &m, Role role) : out(OUT, (T)-77), iout(OUT, -77) {
        const Mat<T> &x = role == SET ? m.X : m.Q;
        y = m.y;
        lab = m.lab;
        y.resize(x.n);
        lab.resize(x.n);
        a = {x.n, x.p, x.ld, 1, m.nc, x.order == row_major ? 40 : (da_int)std::max<da_int>(x.n, 1) + 3, x.data(), y.data(), lab.data(), out.data(), iout.data()};
    }
    bool untouched() const {
        for (auto v : out)
            if (v != (T)-77)
                return false;
        for (auto v : iout)
            if (v != -77)
                return false;
        return true;
    }
};
static void message(da_handle h, bool failed) {
    char *msg = nullptr;
    OK(da_handle_get_error_message(h, &msg));
    REQUIRE(msg, "message", "none");
    std::string s = msg;
    free(msg);
    da_severity sev;
    OK(da_handle_get_error_severity(h, &sev));
    if (failed)
        REQUIRE(!s.empty(), "message", "the call failed and left no message");
    // and again
    OK(da_handle_get_error_message(h, &msg));
    std::string t = msg;
    free(msg);
    REQUIRE(s == t, "message repeats", "differs on the second reading");
}
// one call with one thing wrong; returns its name and status
template <class T> std::pair<std::string, da_status> bad_call(Gen &g, da_handle h, const Model<T> &m, Role role) {
    std::vector<const Call<T> *> c;
    for (auto &k : calls<T>())
        if (k.type == m.type && k.role == role && k.what)
            c.push_back(&k);
    if (c.empty())
        return {"", da_status_success};
    const Call<T> &k = *c[g.below(c.size())];
    Bench<T> b(m, role);
    std::vector<int> bits;
    for (int i = 0; i < 9; i++)
        if (k.what >> i & 1)
            bits.push_back(1 << i);
    int w = bits[g.below(bits.size())];
    std::string how;
    auto &a = b.a;
    std::vector<da_status> ok;
    switch (w) {
    case PX:
        a.x = nullptr, how = "null X", ok = {da_status_invalid_pointer, da_status_invalid_input};
        break;
    case PY:
        a.y = nullptr, how = "null y", ok = {da_status_invalid_pointer, da_status_invalid_input};
        break;
    case PLAB:
        a.lab = nullptr, how = "null labels", ok = {da_status_invalid_pointer, da_status_invalid_input};
        break;
    case POUT:
        a.out = nullptr, how = "null output", ok = {da_status_invalid_pointer, da_status_invalid_input};
        break;
    case PIOUT:
        a.iout = nullptr, how = "null output", ok = {da_status_invalid_pointer, da_status_invalid_input};
        break;
    case DN:
        a.n = (da_int)g.pick({0, -1, -7}), how = "n=" + std::to_string(a.n), ok = {da_status_invalid_input, da_status_invalid_array_dimension};
        break;
    case DP:
        if (role == SET)
            a.p = (da_int)g.pick({0, -1});
        else {
            da_int d = (da_int)g.pick({-1, 1, 2});
            a.p = g.chance(1, 4) ? 0 : a.p + d;
            a.ld = std::max<da_int>(a.ld, 40);
            b.big.assign((size_t)a.ld * 200, (T)0.5); // a checked array is read first
            a.x = b.big.data();
        }
        how = "p=" + std::to_string(a.p), ok = {da_status_invalid_input, da_status_invalid_array_dimension, da_status_invalid_leading_dimension};
        break;
    case LDX:
        a.ld = (m.X.order == row_major ? (k.name == std::string("da_pca_inverse_transform") ? a.k : a.p) : a.n) - 1 - (da_int)g.below(3), how = "ldx=" + std::to_string(a.ld), ok = {da_status_invalid_leading_dimension, da_status_invalid_array_dimension, da_status_invalid_input};
        break;
    case LDO:
        a.ldo = m.X.order == row_major ? (da_int)g.pick({0, -1}) : a.n - 1 - (da_int)g.below(3), how = "ldo=" + std::to_string(a.ldo), ok = {da_status_invalid_leading_dimension, da_status_invalid_array_dimension, da_status_invalid_input};
        break;
    }
    g.note("%s(%s)", k.name, how.c_str());
    da_status s = k.f(h, a);
    REQUIRE(s != 0, "accepted", "%s with %s succeeded", k.name, how.c_str());
    REQUIRE(b.untouched(), "written", "%s with %s failed with %d, having written to its output", k.name, how.c_str(), (int)s);
    // several things can be wrong at once: the state of the handle comes first or last
    ok.insert(ok.end(), {da_status_no_data, da_status_out_of_date, da_status_invalid_option, da_status_incompatible_options});
    if (m.type == da_handle_decision_tree || strstr(k.name, "inverse")) // probabilities were not asked for, number of components
        ok.push_back(da_status_invalid_input);
    REQUIRE(std::find(ok.begin(), ok.end(), s) != ok.end(), "status", "%s with %s returned %d", k.name, how.c_str(), (int)s);
    message(h, true);
    g.label(how.substr(0, how.find('=')));
    return {std::string(k.name) + " " + how, s};
}
template <class T> void bad_queries(Gen &g, da_handle h) {
    T v[4] = {0};
    da_int iv[4] = {0}, dim = 4;
    da_result q = (da_result)g.pick(std::vector<int>(std::begin(RESULTS), std::end(RESULTS)));
    switch ((int)g.below(5)) {
    case 0:
        REQUIRE(DA(T, da_handle_get_result, h, q, nullptr, v) != 0, "null dim", "accepted");
        REQUIRE(da_handle_get_result_int(h, q, nullptr, iv) != 0, "null dim", "accepted");
        break;
    case 1:
        REQUIRE(DA(T, da_handle_get_result, h, q, &dim, nullptr) != 0, "null result", "accepted");
        REQUIRE(da_handle_get_result_int(h, q, &dim, nullptr) != 0, "null result", "accepted");
        break;
    case 2: { // the other precision
        using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
        U u[4] = {0};
        da_status s = DA(U, da_handle_get_result, h, q, &dim, u);
        REQUIRE(s == da_status_wrong_type, "precision", "result: %d", (int)s);
        break;
    }
    case 3: {
        dim = 4;
        da_status s = DA(T, da_handle_get_result, h, (da_result)g.pick({0, 3, 99, 450, 700, 5000, -1}), &dim, v);
        REQUIRE(s == da_status_unknown_query || s == da_status_no_data || s == da_status_out_of_date, "unknown query", "status %d", (int)s);
        break;
    }
    default: {
        T r = 1;
        da_int i = 1;
        REQUIRE(da_options_set_int(h, "no such option", 1) != 0 && DA(T, da_options_set_real, h, "no such option", r) != 0 && da_options_set_string(h, "storage order", "diagonal") != 0 && da_options_get_int(h, "storage order", &i) != 0, "options", "accepted");
        using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
        REQUIRE(da_options_set_int(h, "storage order", 1) == da_status_option_wrong_type, "options", "type");
        (void)sizeof(U);
    }
    }
}
template <class T> void wrong_handle(Gen &g) {
    using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
    da_handle_type t = ALL[g.below(std::size(ALL))];
    Model<T> m = Model<T>::gen(g, TYPES[g.below(std::size(TYPES))]);
    auto &C = calls<T>();
    size_t at = g.below(C.size());
    const Call<T> &c = C[at];
    int how = (int)g.below(3);
    Bench<T> b(m, c.role);
    g.note("%s, %s", c.name, how == 0 ? "null handle" : how == 1 ? "wrong precision" : "wrong type");
    if (how == 0) {
        da_status s = c.f(nullptr, b.a);
        REQUIRE(s == da_status_handle_not_initialized, "null handle", "%s returned %d", c.name, (int)s);
    } else if (how == 1) {
        Handle h;
        init<U>(h, g.flip() ? c.type : t);
        da_status s = c.f(h, b.a);
        REQUIRE(s == da_status_wrong_type, "precision", "%s returned %d", c.name, (int)s);
        message(h, true);
        g.nontrivial();
    } else {
        if (t == c.type)
            throw pbt::Discard();
        Handle h;
        init<T>(h, t);
        da_status s = c.f(h, b.a);
        REQUIRE(s == da_status_invalid_handle_type, "type", "%s on a handle of type %s returned %d", c.name, hname(t), (int)s);
        message(h, true);
        g.nontrivial();
    }
    REQUIRE(b.untouched(), "written", "%s wrote to its output", c.name);
}
PROPERTY(C06, wrong_handle, 6000, 60000, "the handle is of another type or precision") {
    if (g.flip())
        wrong_handle<double>(g);
    else
        wrong_handle<float>(g);
}
template <class T> void too_early(Gen &g) {
    da_handle_type t = TYPES[g.below(std::size(TYPES))];
    Model<T> m = Model<T>::gen(g, t);
    g.note("%s", m.text().c_str());
    Handle h;
    init<T>(h, t);
    bool have_data = g.flip(), opts = t == da_handle_tsne || g.flip();
    if (opts)
        m.set_options(h);
    OK(m.select(h));
    // without the options the data may be laid out differently
    if (have_data) {
        if (!opts)
            OK(da_options_set_string(h, "storage order", m.X.order == row_major ? "row-major" : "column-major"));
        if (m.set_data(h) != 0)
            throw pbt::Discard();
        g.nontrivial();
    }
    int steps = (int)g.range(1, 5);
    for (int i = 0; i < steps; i++) {
        std::vector<const Call<T> *> c;
        for (auto &k : calls<T>())
            if (k.type == t && k.what && (k.role == USE || (k.role == FIT && !have_data)))
                c.push_back(&k);
        if (c.empty())
            throw pbt::Discard();
        const Call<T> &k = *c[g.below(c.size())];
        // a search needs nothing but the data, and these may come before it
        if (t == da_handle_nn && have_data)
            throw pbt::Discard();
        if (!strcmp(k.name, "da_kmeans_set_init_centres") || !strcmp(k.name, "da_tsne_set_init_embedding"))
            continue;
        Bench<T> b(m, USE);
        g.note("%s", k.name);
        da_status s = k.f(h, b.a);
        REQUIRE(t == da_handle_nn ? s != 0 : s == da_status_no_data || s == da_status_out_of_date || (s == da_status_invalid_input && (!have_data || (t == da_handle_svm && (m.sub == svr || m.sub == nusvr)))), "untrained", "%s before training returned %d", k.name, (int)s);
        REQUIRE(b.untouched(), "written", "%s wrote to its output", k.name);
        message(h, true);
    }
    Rec r;
    Model<T>::results(h, r, std::vector<int>(std::begin(RESULTS), std::end(RESULTS)));
    for (auto &i : r.items)
        REQUIRE(i.name == "int result 2" || (i.name == "result 1" && t == da_handle_linmod) || i.status == da_status_no_data || i.status == da_status_out_of_date || i.status == da_status_unknown_query || (i.status == 0 && have_data), "untrained result", "%s before training: %d", i.name.c_str(), i.status);
    std::vector<char> bytes;
    da_status s = da_handle_save_model(h, bytes);
    bool nn = t == da_handle_nn && have_data;
    REQUIRE(s != 0 || nn, "untrained save", "saved");
}
PROPERTY(C06, too_early, 1500, 20000, "a handle with data and no model") {
    Threads th(1);
    if (g.flip())
        too_early<double>(g);
    else
        too_early<float>(g);
}
// the information on a linear model contains the time it took
template <class T> Rec see(const Model<T> &m, da_handle h) {
    Rec r = m.observe(h);
    if (m.type == da_handle_linmod)
        for (auto &i : r.items)
            if (i.name == "result 1")
                i.bytes.clear();
    return r;
}
template <class T> void history(Gen &g) {
    da_handle_type t = TYPES[g.below(std::size(TYPES))];
    Model<T> m = Model<T>::gen(g, t);
    if (g.chance(1, 4))
        m.opts.push_back({"check data", 's', "yes", 0, 0});
    g.note("%s", m.text().c_str());
    Handle h;
    init<T>(h, t);
    da_status st = m.build(h);
    if (st != 0 && st != da_status_numerical_difficulties && st != da_status_maxit)
        throw pbt::Discard();
    auto fresh = [&](const Model<T> &mm) {
        Handle b;
        init<T>(b, t);
        da_status s2 = mm.build(b);
        REQUIRE(s2 == st, "status", "fresh handle: %d, used one: %d", (int)s2, (int)st);
        return see(mm, b);
    };
    Rec want = fresh(m);
    int steps = (int)g.range(1, 8), bad = 0;
    bool dropped = false;
    for (int i = 0; i < steps; i++) {
        switch ((int)g.below(6)) {
        case 0:
        case 1:
        case 2:
            bad += bad_call<T>(g, h, m, USE).second != 0;
            break;
        case 3:
            bad_queries<T>(g, h);
            bad++;
            break;
        case 4:
            // data that is refused may leave the handle without its model, nothing else
            if (bad_call<T>(g, h, m, SET).second != 0) {
                dropped = true;
                bad++;
            }
            break;
        default: {
            Rec r;
            m.operations(h, r);
        }
        }
    }
    if (bad)
        g.nontrivial();
    g.label(hname(t));
    Rec have = see(m, h);
    if (!dropped) {
        std::string d = differ(want, have, false);
        REQUIRE(d.empty(), "undisturbed", "after failed calls, %s", d.c_str());
    } else {
        // whatever still answers gives the answer from before
        std::map<std::string, const Rec::Item *> mw;
        for (auto &i : want.items)
            mw[i.name] = &i;
        for (auto &i : have.items) {
            if (i.name == "int result 2" || (i.name == "result 1" && t == da_handle_linmod)) // whether there is a model; -1 without one
                continue;
            auto it = mw.find(i.name);
            if (i.status == 0 && it != mw.end() && it->second->status == 0)
                REQUIRE(i.bytes == it->second->bytes, "stale", "after data was refused, %s answers differently", i.name.c_str());
            else
                REQUIRE(i.status != 0 || (it != mw.end() && it->second->status == 0), "stale", "after data was refused, %s answers for the first time", i.name.c_str());
        }
    }
    // and the handle still works
    if (g.flip()) {
        Model<T> m2 = Model<T>::gen(g, t, t == da_handle_nn ? m.X.n : 0);
        g.note("then %s", m2.text().c_str());
        // options that the new model leaves alone keep the values of the old one
        for (auto &o : m.opts)
            if (!m2.find(o.k.c_str()))
                m2.opts.push_back(o);
        if (t == da_handle_nn) // labels and targets stay
            m2.sub |= m.sub;
        auto metric = m2.find("metric");
        if (t == da_handle_nn && metric && metric->s == "inner product") // no radius search: the results of the last one stay
            throw pbt::Discard();
        da_status s = m2.build(h, false);
        Handle b;
        init<T>(b, t);
        da_status s2 = m2.build(b, false);
        if (s == 0 && s2 == 0) {
            Rec w2 = see(m2, b), h2 = see(m2, h);
            std::string d = differ(w2, h2, false);
            REQUIRE(d.empty(), "reused", "on the reused handle, %s", d.c_str());
            g.label("reused");
        } else
            g.label("reuse refused");
    } else if (dropped) {
        da_status s = m.build(h, false);
        if (s == st) {
            Rec h2 = see(m, h);
            std::string d = differ(want, h2, false);
            REQUIRE(d.empty(), "retrained", "trained again, %s", d.c_str());
            g.label("retrained");
        } else
            g.label("retraining refused");
    }
}
PROPERTY(C06, history, 1200, 30000, "a call failed on a trained handle") {
    Threads th(1);
    if (g.flip())
        history<double>(g);
    else
        history<float>(g);
}
template <class T> void sizes(Gen &g) {
    da_handle_type t = TYPES[g.below(std::size(TYPES))];
    Model<T> m = Model<T>::gen(g, t);
    g.note("%s", m.text().c_str());
    Handle h;
    init<T>(h, t);
    if (m.build(h) != 0)
        throw pbt::Discard();
    Rec r;
    m.operations(h, r);
    auto test = [&](auto get, auto zero, int w) {
        using E = decltype(zero);
        E one[1] = {(E)-77};
        da_int dim = 0;
        da_status s = get((da_result)w, &dim, one);
        if (s != da_status_invalid_array_dimension) {
            REQUIRE(s == da_status_unknown_query || s == da_status_no_data || s == da_status_out_of_date || s == da_status_invalid_option || s == da_status_invalid_input || s == da_status_not_implemented || (s == 0 && dim == 0), "query", "result %d with no room returned %d", w, (int)s);
            return;
        }
        REQUIRE(one[0] == (E)-77, "too small", "result %d wrote into an array of no elements", w);
        da_int need = dim;
        REQUIRE(need > 0, "size", "result %d needs %d", w, (int)need);
        // the size is a definite one
        if (need > 1) {
            std::vector<E> v(need - 1, (E)-77);
            da_int d = need - 1 - (da_int)g.below(need - 1);
            da_status s1 = get((da_result)w, &d, v.data());
            REQUIRE(s1 == da_status_invalid_array_dimension && d == need, "too small", "result %d: status %d, size %d instead of %d", w, (int)s1, (int)d, (int)need);
            for (auto e : v)
                REQUIRE(e == (E)-77, "too small", "result %d wrote into an array that was too small", w);
        }
        // exactly that many: the sanitizer watches the end
        auto exact = [&]() {
            std::vector<E> v(need, (E)-77);
            da_int d = need;
            OK(get((da_result)w, &d, v.data()));
            REQUIRE(d == need, "size", "result %d changed the size from %d to %d", w, (int)need, (int)d);
            return v;
        };
        auto v1 = exact(), v2 = exact();
        REQUIRE(!memcmp(v1.data(), v2.data(), need * sizeof(E)), "repeatable", "result %d differs on the second query", w);
        std::vector<E> big(need + 7, (E)-77);
        da_int d = need + 7;
        da_status s3 = get((da_result)w, &d, big.data());
        REQUIRE(s3 == 0 || s3 == da_status_invalid_array_dimension, "larger", "result %d into a larger array: %d", w, (int)s3);
        if (s3 == 0) {
            REQUIRE(!memcmp(v1.data(), big.data(), need * sizeof(E)), "larger", "result %d differs in a larger array", w);
            for (int i = 0; i < 7; i++)
                REQUIRE(big[need + i] == (E)-77, "larger", "result %d wrote beyond its %d entries", w, (int)need);
        }
        g.label("result " + std::to_string(w));
        g.nontrivial();
    };
    for (int w : RESULTS) {
        if (w > 604 && w < 700)
            continue;
        test([&](da_result q, da_int *d, T *p) { return DA(T, da_handle_get_result, h, q, d, p); }, (T)0, w);
        test([&](da_result q, da_int *d, da_int *p) { return da_handle_get_result_int(h, q, d, p); }, (da_int)0, w);
    }
}
PROPERTY(C06, result_sizes, 1200, 20000, "a result that needs room") {
    Threads th(1);
    if (g.flip())
        sizes<double>(g);
    else
        sizes<float>(g);
}
PROPERTY(C06, no_handle, 200, 400, "nothing but null pointers") {
    da_severity sev;
    char *msg = nullptr;
    double d;
    da_int i = 1;
    Handle h;
    init<double>(h, ALL[g.below(std::size(ALL))]);
    REQUIRE(da_handle_print_error_message(nullptr) != 0 && da_handle_get_error_message(nullptr, &msg) != 0 && da_handle_get_error_severity(nullptr, &sev) != 0, "null handle", "accepted");
    REQUIRE(da_handle_get_error_message(h, nullptr) != 0, "null message", "accepted");
    REQUIRE(da_handle_get_error_severity(h, nullptr) != 0, "null severity", "accepted");
    REQUIRE(da_handle_get_result_d(nullptr, da_rinfo, &i, &d) == da_status_handle_not_initialized && da_handle_get_result_int(nullptr, da_rinfo, &i, &i) == da_status_handle_not_initialized, "null handle", "result");
    REQUIRE(da_options_set_int(nullptr, "seed", 1) != 0 && da_options_set_string(nullptr, "seed", "x") != 0 && da_options_set_real_d(nullptr, "x", 1) != 0 && da_options_get_int(nullptr, "seed", &i) != 0 && da_options_get_real_d(nullptr, "x", &d) != 0, "null handle", "options");
    REQUIRE(da_options_get_int(h, "seed", nullptr) != 0 && da_options_set_string(h, "storage order", nullptr) != 0 && da_options_set_int(h, nullptr, 1) != 0, "null", "options");
    da_handle none = nullptr;
    da_handle_destroy(&none);
    da_handle_destroy(nullptr);
    REQUIRE(da_handle_init_d(nullptr, da_handle_pca) != 0, "null handle pointer", "init");
    REQUIRE(da_handle_save_model(nullptr, "/nonexistent/x") != 0, "null handle", "save");
    // a handle without a type has neither options nor results
    da_handle u = nullptr;
    da_status s = da_handle_init_d(&u, da_handle_uninitialized);
    if (u) {
        REQUIRE(da_handle_get_result_d(u, da_rinfo, &i, &d) != 0, "uninitialized", "result");
        REQUIRE(da_options_set_int(u, "seed", 1) != 0, "uninitialized", "options");
        Model<double> m = Model<double>::gen(g, da_handle_pca);
        auto &c = calls<double>()[g.below(calls<double>().size())];
        Bench<double> b(m, c.role);
        REQUIRE(c.f(u, b.a) != 0, "uninitialized", "%s", c.name);
        std::vector<char> bytes;
        REQUIRE(da_handle_save_model(u, bytes) != 0, "uninitialized", "save");
        g.nontrivial();
    }
    (void)s;
    da_handle_destroy(&u);
}
