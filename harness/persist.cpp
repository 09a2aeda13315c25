// C07: a model saved and loaded again behaves as the one that was saved.
#include "models.hpp"
#include "pbt_main.cpp"
#include <fstream>
#include <unistd.h>

static std::string scratch() {
    static std::string d;
    if (d.empty()) {
        char t[] = "/tmp/pbt_persist_XXXXXX";
        REQUIRE(mkdtemp(t), "scratch", "mkdtemp failed");
        d = t;
        static std::string keep = d;
        atexit([] { (void)!system(("rm -rf " + keep).c_str()); });
    }
    return d;
}
static std::vector<char> slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    return std::vector<char>(std::istreambuf_iterator<char>(i), {});
}
static bool same(const std::vector<char> &a, const std::vector<char> &b) { return a == b; }

template <class T> static void no_time(Rec &r) {
    for (auto &i : r.items)
        if (i.name == "result 1" && i.bytes.size() > 4 * sizeof(T))
            memset(&i.bytes[3 * sizeof(T)], 0, sizeof(T));
}
template <class T> static void roundtrip(Gen &g, da_handle_type type, bool after) {
    Threads th(1); // sums over threads come in any order
    Model<T> m = Model<T>::gen(g, type);
    g.note("%s", m.text().c_str());
    g.label(hname(type));
    Handle h;
    init<T>(h, type);
    Rec r0;
    da_status s = m.build(h);
    // after a warning the flag tells whether there is a model
    da_int one = 1, flag = 0;
    da_status st = da_handle_get_result_int(h, da_trained, &one, &flag);
    if (type != da_handle_nn)
        REQUIRE(st == 0 && (s != 0 || flag == 1), "trained flag", "fit returned %d, the flag %d", (int)s, (int)flag);
    bool trained = s == 0 || flag == 1;
    g.label(trained ? (s ? "warning" : "fitted") : "not fitted");
    if (!trained && g.chance(2, 3))
        throw pbt::Discard();
    // the model may have been used before it is saved, or not
    bool used = g.flip();
    if (used)
        r0 = m.observe(h);
    std::vector<char> buf;
    std::string f = scratch() + "/a";
    bool file = g.flip();
    if (file) {
        s = da_handle_save_model(h, f.c_str());
        if (s == 0)
            buf = slurp(f);
    } else
        s = da_handle_save_model(h, buf);
    if (s != 0) {
        REQUIRE(!trained, "save", "saving a fitted model returned %d", (int)s);
        g.label("save refused");
        return;
    }
    Rec r1 = m.observe(h);
    if (used) {
        std::string d = differ(r0, r1, false);
        REQUIRE(d == "", "saving changes the model", "%s", d.c_str());
    }
    Handle l;
    if (g.chance(1, 4)) { // a handle in use is not overwritten
        init<T>(l, g.pick({da_handle_pca, da_handle_nn, da_handle_linmod}));
        da_handle was = l.h;
        s = file ? da_handle_load_model(&l.h, f.c_str()) : da_handle_load_model(&l.h, buf.data(), buf.size());
        REQUIRE(s != 0 && l.h == was, "overwrite", "loading into a handle in use returned %d", (int)s);
        da_handle_destroy(&l.h);
    }
    s = file ? da_handle_load_model(&l.h, f.c_str()) : da_handle_load_model(&l.h, buf.data(), buf.size());
    REQUIRE(s == 0, "load", "loading a model just saved returned %d (%s)", (int)s, trained ? "fitted" : "not fitted");
    if (g.chance(1, 2)) { // the loaded model stands on its own
        da_handle_destroy(&h.h);
        g.label("original destroyed");
    }
    Rec r2 = m.observe(l), r2full = r2;
    if (type == da_handle_linmod) // a loaded linear model does not know the course of its solver
        for (auto &i : r1.items)
            for (auto &k : r2.items)
                if (i.name == "result 1" && k.name == i.name && i.bytes.size() == k.bytes.size())
                    for (size_t e = 0; e < i.bytes.size(); e += sizeof(T)) {
                        if (e >= 10 * sizeof(T) && e < 16 * sizeof(T))
                            continue;
                        T v;
                        memcpy(&v, &k.bytes[e], sizeof v);
                        if (v == -1)
                            memcpy(&i.bytes[e], &v, sizeof v);
                    }
    if (type == da_handle_decision_forest) // nor a loaded forest the threads it was trained with
        for (auto *r : {&r1, &r2})
            for (auto &i : r->items)
                if (i.name == "result 1" && i.bytes.size() == 6 * sizeof(T))
                    i.bytes.resize(5 * sizeof(T));
    int refused = 0;
    std::string d = differ(r1, r2, true, &refused);
    REQUIRE(d == "", ("loaded " + std::string(hname(type)) + " " + d.substr(0, d.find(':'))).c_str(), "original and loaded differ: %s", d.c_str());
    if (refused)
        g.label(std::string("refuses a result ") + hname(type));
    // and can be saved again
    std::vector<char> buf2;
    s = da_handle_save_model(l, buf2);
    REQUIRE(s == 0, "save again", "saving a loaded model returned %d", (int)s);
    Handle l2;
    OK(da_handle_load_model(&l2.h, buf2.data(), buf2.size()));
    Rec r3 = m.observe(l2);
    d = differ(r2full, r3, false);
    REQUIRE(d == "", "second generation", "%s: first and second loaded model differ: %s", hname(type), d.c_str());
    if (after && trained) {
        // the loaded handle can be used as any other: other data, other options
        // the number of samples of a nearest neighbors handle is set once
        Model<T> m2 = Model<T>::gen(g, type, type == da_handle_nn ? m.X.n : 0);
        m2.nc = std::max(m2.nc, m.nc); // labels of the first data may remain
        g.note("then %s", m2.text().c_str());
        da_status sb = m2.build(l2, false);
        // as a handle that was not saved in between
        Handle f3;
        init<T>(f3, type);
        m.build(f3);
        m.observe(f3);
        da_status sa = m2.build(f3, false);
        if (sa >= 400 || sb >= 400) // bounds of options set by earlier data are not kept
            return;
        REQUIRE(sa == sb, "retrain", "%s: training a loaded handle returned %d, a fresh one %d", hname(type), (int)sb, (int)sa);
        if (sa == 0) {
            Rec a = m2.observe(f3), b = m2.observe(l2);
            if (type == da_handle_linmod) { // times may differ
                no_time<T>(a);
                no_time<T>(b);
            }
            d = differ(a, b, false);
            REQUIRE(d == "", "retrain", "%s: retrained loaded handle and fresh handle differ: %s", hname(type), d.c_str());
            g.label("retrained");
        }
    }
    if (trained)
        g.nontrivial();
}
PROPERTY(C07, saved_model_behaves_as_the_original, 4000, 40000, "fitted, saved, loaded and every operation compared") {
    da_handle_type t = SAVABLE[g.below(9)];
    bool d = g.chance(2, 3);
    perturb(g);
    d ? roundtrip<double>(g, t, false) : roundtrip<float>(g, t, false);
}
PROPERTY(C07, loaded_model_can_be_trained_again, 1200, 12000, "fitted, loaded and fitted to other data") {
    da_handle_type t = SAVABLE[g.below(9)];
    perturb(g);
    g.flip() ? roundtrip<double>(g, t, true) : roundtrip<float>(g, t, true);
}
