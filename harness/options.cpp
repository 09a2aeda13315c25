// C05: option registries against a model built from the documented tables of options.
#include "da.hpp"
#include "options.hpp"
#include "pbt_main.cpp"
#include <fcntl.h>
#include <unistd.h>

static const int DATASTORE = -7;
struct Row {
    int handle;
    const char *name;
    char type;
    double lo;
    int lot; // 0 none, 1 open, 2 closed
    double hi;
    int hit;
    const char *labels, *def;
};
static const Row TABLE[] = {
#include "options_table.inc"
};
static const da_handle_type HT[] = {da_handle_linmod, da_handle_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree, da_handle_decision_forest,
                                    da_handle_nlls, da_handle_nn, da_handle_svm, da_handle_interpolation, da_handle_approx_nn, da_handle_kernel_pca, da_handle_tsne};
// labels with the same meaning; every other label is a choice of its own
static const char *ALIAS[][3] = {{"c", "row-major", ""}, {"f", "fortran", "column-major"}, {"chol", "cholesky", ""}, {"bfgs", "lbfgs", "lbfgsb"},
                                 {"cg", "sparse_cg", ""}, {"no", "none", ""}, {"standardise", "standardize", ""}, {"rsc", "reference category", ""},
                                 {"ssc", "symmetric", "symmetric side"}, {"l1", "cityblock", "manhattan"}, {"l2", "euclidean", ""},
                                 {"entropy", "cross-entropy", ""}, {"misclass", "misclassification", "misclassification-error"},
                                 {"scale", "scale only", ""}, {"linear solver", "more-sorensen", ""}, {"tr", "trust-region", ""}, {"reg", "regularization", ""}, {"poly", "polynomial", ""}};
static int alias_group(const std::string &s) {
    for (size_t i = 0; i < sizeof ALIAS / sizeof *ALIAS; i++)
        for (auto a : ALIAS[i])
            if (s == a && s != "")
                return (int)i;
    return -1;
}
static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> r;
    size_t a = 0;
    while (a <= s.size() && s != "") {
        size_t b = s.find('|', a);
        r.push_back(s.substr(a, b == std::string::npos ? b : b - a));
        if (b == std::string::npos)
            break;
        a = b + 1;
    }
    return r;
}
static std::string tidy(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        bool sp = c == ' ' || (c >= 9 && c <= 13);
        if (sp) {
            if (!r.empty() && r.back() != ' ')
                r += ' ';
        } else
            r += (char)tolower(c);
    }
    while (!r.empty() && r.back() == ' ')
        r.pop_back();
    return r;
}
// the same text, written with other blanks and cases
static std::string untidy(Gen &g, const std::string &s) {
    std::string r;
    auto blanks = [&](int lo) {
        int k = (int)g.range(lo, 3);
        for (int i = 0; i < k; i++)
            r += g.pick({' ', ' ', '\t', '\n'});
    };
    if (g.flip())
        blanks(0);
    for (char c : s) {
        if (c == ' ')
            blanks(1);
        else
            r += g.chance(1, 3) ? (char)toupper(c) : c;
    }
    if (g.flip())
        blanks(0);
    return r;
}

template <class T> struct Val { // the current value in the model
    const Row *r;
    da_int i = 0;
    T x = 0;
    std::string s;
    bool known = false; // a symbolic default is read from the handle once
    double lo, hi;
    int lot, hit;
};
template <class T> bool inside(const Val<T> &v, long double x) {
    if (std::isnan(x))
        return v.lot == 0 && v.hit == 0;
    if ((v.lot == 1 && !(x > v.lo)) || (v.lot == 2 && !(x >= v.lo)))
        return false;
    if ((v.hit == 1 && !(x < v.hi)) || (v.hit == 2 && !(x <= v.hi)))
        return false;
    return true;
}
template <class T> struct Target { // a handle or a store
    Handle h;
    da_datastore st = nullptr;
    int type;
    std::vector<Val<T>> vals;
    ~Target() {
        if (st)
            da_datastore_destroy(&st);
    }
    bool store() const { return type == DATASTORE; }
    void open(int t) {
        type = t;
        if (store())
            OK(da_datastore_init(&st));
        else
            init<T>(h, (da_handle_type)t);
        for (auto &r : TABLE)
            if (r.handle == t) {
                Val<T> v;
                v.r = &r;
                v.lo = r.lo, v.hi = r.hi, v.lot = r.lot, v.hit = r.hit;
                v.known = strcmp(r.def, "?") != 0;
                if (r.type == 's')
                    v.s = r.def;
                else if (v.known && r.type == 'i')
                    v.i = (da_int)atof(r.def);
                else if (v.known)
                    v.x = (T)atof(r.def);
                vals.push_back(v);
            }
    }
    Val<T> *find(const std::string &n) {
        for (auto &v : vals)
            if (n == v.r->name)
                return &v;
        return nullptr;
    }
    da_status set_i(const char *n, da_int v) { return store() ? da_datastore_options_set_int(st, n, v) : da_options_set_int(h, n, v); }
    da_status set_s(const char *n, const char *v) { return store() ? da_datastore_options_set_string(st, n, v) : da_options_set_string(h, n, v); }
    template <class U> da_status set_r(const char *n, U v) {
        return store() ? DA(U, da_datastore_options_set_real, st, n, v) : DA(U, da_options_set_real, h, n, v);
    }
    da_status get_i(const char *n, da_int *v) { return store() ? da_datastore_options_get_int(st, n, v) : da_options_get_int(h, n, v); }
    template <class U> da_status get_r(const char *n, U *v) {
        return store() ? DA(U, da_datastore_options_get_real, st, n, v) : DA(U, da_options_get_real, h, n, v);
    }
    std::string text(const char *n, da_int *key = nullptr) {
        char b[200];
        memset(b, 'x', sizeof b);
        da_int l = 150;
        da_status s = store() ? da_datastore_options_get_string(st, n, b, l) : key ? da_options_get_string_key(h, n, b, &l, key) : da_options_get_string(h, n, b, &l);
        REQUIRE(s == da_status_success, "get", "get of string '%s' returned %d", n, (int)s);
        size_t e = strnlen(b, 150);
        for (size_t i = e + 1; i < sizeof b; i++)
            REQUIRE(b[i] == 'x', "guard", "get of '%s' wrote beyond its terminator", n);
        return std::string(b, e);
    }
    void check(Val<T> &v) {
        const char *n = v.r->name;
        if (v.r->type == 'i') {
            da_int i = -12345;
            da_status s = get_i(n, &i);
            REQUIRE(s == 0, "get", "get of '%s' returned %d", n, (int)s);
            REQUIRE(i == v.i, "value", "'%s' is %lld, should be %lld", n, (long long)i, (long long)v.i);
        } else if (v.r->type == 'r') {
            T x = (T)-12345;
            da_status s = get_r<T>(n, &x);
            REQUIRE(s == 0, "get", "get of '%s' returned %d", n, (int)s);
            if (!v.known) {
                REQUIRE(inside(v, x), "default", "default %g of '%s' is not admissible", (double)x, n);
                v.x = x, v.known = true;
            }
            REQUIRE(x == v.x || (std::isnan(x) && std::isnan(v.x)), "value", "'%s' is %.9g, should be %.9g", n, (double)x, (double)v.x);
        } else {
            std::string s = text(n);
            REQUIRE(s == v.s, "value", "'%s' is '%s', should be '%s'", n, s.c_str(), v.s.c_str());
        }
    }
    void check_all() {
        for (auto &v : vals)
            check(v);
    }
};

template <class T> void history(Gen &g) {
    int type = g.chance(1, 12) ? DATASTORE : (int)HT[g.below(13)];
    Target<T> a, b, other;
    a.open(type), b.open(type);
    int steps = (int)g.range(1, g.thorough ? 40 : 20), sets = 0, rejected = 0;
    g.note("%s handle %d steps %d", tn<T>(), type, steps);
    a.check_all();
    for (int st = 0; st < steps; st++) {
        Target<T> &t = g.chance(1, 5) ? b : a;
        // a name: of this handle, of any, or unknown
        std::string name;
        int how = (int)g.below(8);
        if (how < 6)
            name = t.vals[g.below(t.vals.size())].r->name;
        else if (how == 6)
            name = TABLE[g.below(sizeof TABLE / sizeof *TABLE)].name;
        else {
            name = t.vals[g.below(t.vals.size())].r->name;
            switch (g.below(3)) {
            case 0: name += "x"; break;
            case 1: name.erase(g.below(name.size()), 1); break;
            default: name = ""; break;
            }
        }
        if (g.chance(1, 4))
            name = untidy(g, name);
        Val<T> *v = t.find(tidy(name));
        const char *n = name.c_str();
        char ty = v && g.chance(5, 6) ? v->r->type : g.pick({'i', 'r', 's'});
        da_status s, want = da_status_success;
        if (!v)
            want = da_status_option_not_found;
        else if (ty != v->r->type)
            want = da_status_option_wrong_type;
        if (g.chance(1, 6)) { // a get
            if (ty == 'i') {
                da_int i = -12345;
                s = t.get_i(n, &i);
                REQUIRE(want != 0 || i == v->i, "value", "get of '%s'", n);
                REQUIRE(want == 0 || i == -12345, "get-written", "a failing get wrote");
            } else if (ty == 'r') {
                T x = (T)-12345;
                s = t.template get_r<T>(n, &x);
                REQUIRE(want != 0 || !v->known || x == v->x || (std::isnan(x) && std::isnan(v->x)), "value", "get of '%s'", n);
                REQUIRE(want == 0 || x == (T)-12345, "get-written", "a failing get wrote");
            } else {
                char buf[64];
                memset(buf, 'x', sizeof buf);
                da_int l = (da_int)g.range(1, 40), l0 = l;
                bool key = g.flip() && !t.store();
                da_int k = -9;
                s = t.store() ? da_datastore_options_get_string(t.st, n, buf, l) : key ? da_options_get_string_key(t.h, n, buf, &l, &k) : da_options_get_string(t.h, n, buf, &l);
                if (want == 0 && (da_int)v->s.size() >= l0) {
                    want = da_status_invalid_input;
                    REQUIRE(t.store() || l == (da_int)v->s.size() + 1, "size", "length %lld reported for '%s'", (long long)l, v->s.c_str());
                    for (char c : buf)
                        REQUIRE(c == 'x', "get-written", "a failing get wrote");
                } else if (want == 0) {
                    REQUIRE(strncmp(buf, v->s.c_str(), 64) == 0, "value", "get of '%s'", n);
                    REQUIRE(buf[v->s.size() + 1] == 'x', "guard", "get wrote too much");
                }
            }
        } else {
            sets++;
            if (ty == 'i') {
                // values at and around the bounds
                int64_t lo = v && v->lot ? (int64_t)v->lo : -3, hi = v && v->hit ? (int64_t)v->hi : 2147483647;
                int64_t x;
                switch (g.below(7)) {
                case 0: x = lo + g.range(-1, 1); break;
                case 1: x = hi + g.range(-1, 1); break;
                case 2: x = g.range(-5, 70000); break;
                case 3: x = g.pick({(int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)0, (int64_t)-1}); break;
                default: x = lo + g.range(0, std::min<int64_t>(hi - lo, 100)); break;
                }
                da_int xi = (da_int)std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, x));
                if (want == 0 && !inside(*v, (long double)xi))
                    want = da_status_option_invalid_value;
                g.note("i %s=%lld", n, (long long)xi);
                s = t.set_i(n, xi);
                if (want == 0)
                    v->i = xi;
            } else if (ty == 'r') {
                T lo = v && v->lot ? (T)v->lo : (T)-2, hi = v && v->hit ? (T)v->hi : lo + (T)10, x;
                T inf = std::numeric_limits<T>::infinity();
                switch (g.below(8)) {
                case 0: x = lo; break;
                case 1: x = hi; break;
                case 2: x = std::nextafter(lo, g.flip() ? inf : -inf); break;
                case 3: x = std::nextafter(hi, g.flip() ? inf : -inf); break;
                case 4: x = g.pick({std::numeric_limits<T>::max(), (T)0, (T)-0.0, std::numeric_limits<T>::lowest(), std::numeric_limits<T>::quiet_NaN(), inf, -inf}); break;
                default: x = lo + (T)g.unit() * (hi - lo); break;
                }
                if (want == 0 && !inside(*v, (long double)x))
                    want = da_status_option_invalid_value;
                g.note("r %s=%.9g", n, (double)x);
                s = t.template set_r<T>(n, x);
                if (want == 0)
                    v->x = x, v->known = true;
            } else {
                std::string x;
                auto lab = v ? split(v->r->labels) : std::vector<std::string>();
                if (!lab.empty() && g.chance(4, 5)) {
                    x = lab[g.below(lab.size())];
                    if (g.chance(1, 6) && !x.empty())
                        x.erase(g.below(x.size()), 1);
                } else
                    x = g.pick({std::string(""), std::string("yes"), std::string(" "), std::string("no "), std::string("Euclidean"), std::string("0"), std::string(";")});
                bool un = !lab.empty() && g.chance(1, 4);
                if (un)
                    x = untidy(g, x);
                std::string tx = tidy(x);
                if (want == 0 && !lab.empty() && std::find(lab.begin(), lab.end(), tx) == lab.end())
                    want = da_status_option_invalid_value;
                g.note("s %s='%s'", n, x.c_str());
                s = t.set_s(n, x.c_str());
                if (want == 0)
                    v->s = lab.empty() ? x : tx;
            }
            rejected += want != 0;
        }
        REQUIRE(s == want, "status", "option '%s' type %c: status %d instead of %d", n, ty, (int)s, (int)want);
        if (!t.store()) {
            // the wrong precision is refused whatever the name
            if (g.chance(1, 10)) {
                using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
                U u = (U)0.5;
                da_status q = g.flip() ? t.template set_r<U>(n, u) : t.template get_r<U>(n, &u);
                REQUIRE(q == da_status_wrong_type, "precision", "real of the other precision: status %d", (int)q);
            }
        }
        if (g.chance(1, 6) || st + 1 == steps)
            a.check_all(), b.check_all();
        else if (v)
            t.check(*v);
    }
    g.nontrivial(sets > rejected && rejected > 0);
    g.label(type == DATASTORE ? "store" : "handle");
}
PROPERTY(C05, history, 30000, 1500000,
         "a history of sets and gets (names and values at, around and beyond the documented bounds, of right and wrong type, with other blanks and cases) on two "
         "handles or stores; non-trivial if some set was taken and some refused") {
    g.flip() ? history<float>(g) : history<double>(g);
}

// the set of option names is the documented one; labels share a key exactly when they are aliases
template <class T> void table(Gen &g) {
    int type = (int)HT[g.below(13)];
    Target<T> t;
    t.open(type);
    g.note("%s handle %d", tn<T>(), type);
    char path[] = "/tmp/c05XXXXXX";
    int fd = mkstemp(path);
    REQUIRE(fd >= 0, "tmp", "mkstemp");
    unlink(path);
    fflush(stdout);
    std::cout.flush();
    int save = dup(1);
    dup2(fd, 1);
    da_status s = da_options_print(t.h);
    std::cout.flush();
    fflush(stdout);
    dup2(save, 1);
    close(save);
    std::string out;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;)
        out.append(b, k);
    close(fd);
    REQUIRE(s == 0, "print", "da_options_print returned %d", (int)s);
    std::set<std::string> names, want;
    for (size_t p = 0; (p = out.find("Name: '", p)) != std::string::npos;) {
        p += 7;
        names.insert(out.substr(p, out.find('\'', p) - p));
    }
    for (auto &v : t.vals)
        want.insert(v.r->name);
    for (auto &n : want)
        REQUIRE(names.count(n), "missing", "documented option '%s' is not printed", n.c_str());
    for (auto &n : names)
        REQUIRE(want.count(n), "undocumented", "option '%s' is not documented", n.c_str());
    for (auto &v : t.vals) {
        if (v.r->type != 's')
            continue;
        auto lab = split(v.r->labels);
        std::vector<da_int> keys;
        for (auto &l : lab) {
            OK(t.set_s(v.r->name, l.c_str()));
            da_int k = -99;
            std::string x = t.text(v.r->name, &k);
            REQUIRE(x == l, "value", "'%s' set to '%s' is '%s'", v.r->name, l.c_str(), x.c_str());
            keys.push_back(k);
        }
        for (size_t i = 0; i < lab.size(); i++)
            for (size_t j = 0; j < i; j++) {
                bool al = alias_group(lab[i]) >= 0 && alias_group(lab[i]) == alias_group(lab[j]);
                if (type == da_handle_dbscan && lab[i] == "l2")
                    continue; // euclidean is computed otherwise there
                REQUIRE((keys[i] == keys[j]) == al, "alias", "keys of '%s' and '%s' of '%s': %lld, %lld", lab[i].c_str(), lab[j].c_str(), v.r->name, (long long)keys[i],
                        (long long)keys[j]);
            }
    }
    g.nontrivial();
}
PROPERTY(C05, table, 400, 1500, "every option and label of a handle type against the documented table; all are non-trivial") {
    g.flip() ? table<float>(g) : table<double>(g);
}

// bounds that follow the data: number of components, clusters, perplexity
template <class T> void data_bounds(Gen &g) {
    int type = (int)g.pick({da_handle_pca, da_handle_kmeans, da_handle_kernel_pca, da_handle_tsne});
    Target<T> t;
    t.open(type);
    std::vector<Mat<T>> keep;
    keep.reserve(4);
    int rounds = (int)g.range(1, 3);
    const char *nc = type == da_handle_kmeans ? "n_clusters" : "n_components";
    for (int r = 0; r < rounds; r++) {
        da_int n = (da_int)g.range(type == da_handle_tsne ? 4 : 1, 12), p = (da_int)g.range(1, 8);
        if (type == da_handle_kmeans && r > 0)
            n = std::max(n, keep[0].n);
        keep.push_back(gen_mat<T>(g, n, p, column_major, 1));
        auto *v = t.find(nc);
        da_int hi0 = v->hit ? (da_int)v->hi : 40;
        da_int set = (da_int)g.range((int64_t)v->lo, hi0);
        OK(t.set_i(nc, set));
        v->i = set;
        if (type == da_handle_tsne && r == 0) {
            auto *w = t.find("perplexity");
            T px = (T)(1 + g.unit() * 15);
            OK(t.template set_r<T>("perplexity", px));
            w->x = px, w->known = true;
        }
        da_int ub = type == da_handle_kmeans || type == da_handle_kernel_pca ? n : type == da_handle_pca ? std::min(n, p) : std::min<da_int>(3, p);
        auto &m = keep.back();
        da_status s = type == da_handle_pca      ? DA(T, da_pca_set_data, t.h, n, p, m.data(), m.ld)
                      : type == da_handle_kmeans ? DA(T, da_kmeans_set_data, t.h, n, p, m.data(), m.ld)
                      : type == da_handle_tsne   ? DA(T, da_tsne_set_data, t.h, n, p, m.data(), m.ld)
                                                 : DA(T, da_kernel_pca_set_data, t.h, n, p, m.data(), m.ld);
        g.note("handle %d %lldx%lld %s=%lld", type, (long long)n, (long long)p, nc, (long long)set);
        v->hit = 2, v->hi = (double)ub;
        v->i = std::min(v->i, ub);
        bool reduced = set > ub;
        if (type == da_handle_tsne) {
            auto *w = t.find("perplexity");
            w->hit = 2, w->hi = (double)std::max<da_int>(1, n - 1);
            reduced = reduced || w->x > (T)w->hi;
            w->x = std::min<T>(w->x, (T)w->hi);
        }
        REQUIRE(s == (reduced ? da_status_incompatible_options : da_status_success), "status", "set_data returned %d", (int)s);
        t.check_all();
        da_status q = t.set_i(nc, ub + 1);
        REQUIRE(q == da_status_option_invalid_value, "bound", "%s=%lld accepted (%d) for %lldx%lld", nc, (long long)ub + 1, (int)q, (long long)n, (long long)p);
        t.check_all();
        OK(t.set_i(nc, ub));
        v->i = ub;
        t.check_all();
        g.nontrivial(set > ub);
    }
}
PROPERTY(C05, data_bounds, 4000, 100000, "data sets given to a handle whose bounds follow them; non-trivial if the set value had to be reduced") {
    g.flip() ? data_bounds<float>(g) : data_bounds<double>(g);
}

// the registry itself, with generated options
PROPERTY(C05, registry, 10000, 600000, "a registry of up to 6 generated options (any bounds and labels, some invalid) under sets, gets, locks and duplicates; non-trivial if a set succeeded and one failed") {
    using namespace da_options;
    OptionRegistry reg;
    struct M {
        std::string name;
        int t; // 0 int, 1 float, 2 double, 3 bool, 4 string
        double lo, hi, v;
        lbound_t l;
        ubound_t u;
        std::map<std::string, da_int> lab;
        std::string s;
    };
    std::vector<M> ms;
    const char *NAMES[] = {"alpha", "beta rate", "gamma", "max iter", "tol", "opt a"};
    const char *LABS[] = {"one", "two", "two two", "three", "x-y"};
    int n = (int)g.range(1, 6), ok = 0, bad = 0;
    auto val = [&](double c) { return c + g.pick({0., 1., -1., 0.5, 0., 2.}); };
    for (int i = 0; i < n; i++) {
        M m;
        m.name = NAMES[g.below(6)];
        m.t = (int)g.below(5);
        m.lo = (double)g.range(-3, 3), m.hi = m.lo + (double)g.range(-1, 4);
        m.l = (lbound_t)g.below(3), m.u = (ubound_t)g.below(3);
        m.v = (double)g.range(-4, 7);
        if (m.t == 3)
            m.v = g.flip();
        bool dup = false;
        for (auto &k : ms)
            dup = dup || k.name == m.name;
        std::shared_ptr<OptionBase> o;
        bool thrown = false;
        auto in = [&](double x) {
            return !(m.l == greaterthan && !(x > m.lo)) && !(m.l == greaterequal && !(x >= m.lo)) && !(m.u == lessthan && !(x < m.hi)) && !(m.u == lessequal && !(x <= m.hi));
        };
        bool valid = m.t >= 3 || (in(m.v) && !(m.u != p_inf && m.hi < m.lo) && !(m.hi == m.lo && m.l != m_inf && m.u != p_inf && !(m.l == greaterequal && m.u == lessequal)));
        bool strict = g.flip();
        try {
            if (m.t == 0)
                o = std::make_shared<OptionNumeric<da_int>>(m.name, "d", (da_int)m.lo, m.l, (da_int)m.hi, m.u, (da_int)m.v, "", strict);
            else if (m.t == 1)
                o = std::make_shared<OptionNumeric<float>>(m.name, "d", (float)m.lo, m.l, (float)m.hi, m.u, (float)m.v, "", strict);
            else if (m.t == 2)
                o = std::make_shared<OptionNumeric<double>>(m.name, "d", m.lo, m.l, m.hi, m.u, m.v, "", strict);
            else if (m.t == 3)
                o = std::make_shared<OptionNumeric<bool>>(m.name, "d", m.v != 0, strict);
            else {
                int k = (int)g.below(5);
                for (int j = 0; j < k; j++)
                    m.lab[LABS[j]] = (da_int)g.below(4);
                m.s = LABS[g.below(k ? k : 5)];
                o = std::make_shared<OptionString>(m.name, "d", m.lab, m.s, strict);
            }
        } catch (std::invalid_argument &) {
            thrown = true;
        }
        REQUIRE(thrown == !valid, "constructor", "%s: type %d [%g,%g] %d %d value %g: thrown %d", m.name.c_str(), m.t, m.lo, m.hi, (int)m.l, (int)m.u, m.v, thrown);
        if (thrown)
            continue;
        da_status s = reg.register_opt(o);
        REQUIRE((s == 0) == !dup, "duplicate", "register_opt returned %d", (int)s);
        if (!dup)
            ms.push_back(m);
    }
    if (ms.empty())
        return;
    bool locked = false;
    auto all = [&]() {
        for (auto &m : ms) {
            if (m.t == 0) {
                da_int x;
                REQUIRE(reg.get(m.name, x) == 0 && (double)x == m.v, "value", "%s", m.name.c_str());
            } else if (m.t == 1) {
                float x;
                REQUIRE(reg.get(m.name, x) == 0 && (x == (float)m.v || std::isnan(m.v)), "value", "%s", m.name.c_str());
            } else if (m.t == 2) {
                double x;
                REQUIRE(reg.get(m.name, x) == 0 && (x == m.v || std::isnan(m.v)), "value", "%s", m.name.c_str());
            } else if (m.t == 3) {
                bool x;
                REQUIRE(reg.get(m.name, x) == 0 && x == (m.v != 0), "value", "%s", m.name.c_str());
            } else {
                std::string x;
                da_int id = -5;
                REQUIRE(reg.get(m.name, x, id) == 0 && x == m.s && id == (m.lab.empty() ? -1 : m.lab[m.s]), "value", "%s", m.name.c_str());
                if (!m.lab.empty()) {
                    std::string y;
                    da_int k = id;
                    REQUIRE(reg.query_map(m.name, y, k, false) == 0 && m.lab.at(y) == id, "map", "%s", m.name.c_str());
                    k = -5;
                    REQUIRE(reg.query_map(m.name, m.s, k, true) == 0 && k == id, "map", "%s", m.name.c_str());
                }
            }
        }
    };
    int steps = (int)g.range(1, 25);
    for (int k = 0; k < steps; k++) {
        if (g.chance(1, 12)) {
            locked = !locked;
            locked ? reg.lock() : reg.unlock();
            continue;
        }
        M &m = ms[g.below(ms.size())];
        int t = g.chance(4, 5) ? m.t : (int)g.below(5);
        std::string nm = g.chance(1, 4) ? untidy(g, m.name) : m.name;
        double x = t == 3 ? (double)g.flip() : t == 0 ? std::floor(val(g.flip() ? m.lo : m.hi)) : val(g.flip() ? m.lo : m.hi);
        if (t == 1 || t == 2)
            x = g.chance(1, 20) ? NAN : x;
        std::string sv = LABS[g.below(5)];
        setby_t by = (setby_t)g.below(3);
        da_status s = t == 0   ? reg.set(nm, (da_int)x, by)
                      : t == 1 ? reg.set(nm, (float)x, by)
                      : t == 2 ? reg.set(nm, x, by)
                      : t == 3 ? reg.set(nm, x != 0, by)
                      : g.flip() ? reg.set(nm, sv, by)
                               : reg.set(nm, sv.c_str(), by);
        da_status want = da_status_success;
        bool in = !(m.l == greaterthan && !(x > m.lo)) && !(m.l == greaterequal && !(x >= m.lo)) && !(m.u == lessthan && !(x < m.hi)) && !(m.u == lessequal && !(x <= m.hi)) && !(std::isnan(x) && (m.l != m_inf || m.u != p_inf));
        if (locked)
            want = da_status_option_locked;
        else if (t != m.t)
            want = da_status_option_wrong_type;
        else if (t < 3 && !in)
            want = da_status_option_invalid_value;
        else if (t == 4 && !m.lab.empty() && !m.lab.count(sv))
            want = da_status_option_invalid_value;
        REQUIRE(s == want, "status", "set of %s (type %d as %d) to %g/%s: %d instead of %d", m.name.c_str(), m.t, t, x, sv.c_str(), (int)s, (int)want);
        (want == 0 ? ok : bad)++;
        if (want == 0)
            m.v = x, m.s = t == 4 ? sv : m.s;
        all();
    }
    all();
    g.nontrivial(ok > 0 && bad > 0);
}
