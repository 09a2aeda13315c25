// C02: the data store and the internal containers against plain models, over generated
// histories of operations.
#include <cfloat>
#include "da.hpp"
#include "pbt_main.cpp"
#include "interval_map.hpp"
#include "interval_set.hpp"
#include "da_vector.hpp"
#include "da_cache.hpp"

// ------------------------------------------------------------------ data store
enum { INT, DBL, FLT, U8, STR };
static const char *TYN[] = {"int", "double", "float", "uint8", "str"};
struct Cell {
    double v = 0;
    std::string s;
    bool operator==(const Cell &o) const { return s == o.s && (v == o.v || (std::isnan(v) && std::isnan(o.v))); }
};
struct Col {
    int t;
    std::vector<Cell> c;
    std::string label;
    bool last = false; // last column of the block it was loaded with: row pieces end there
};
struct Sel {
    std::set<da_int> r, c;
};
static bool missing(int t, const Cell &c) {
    switch (t) {
    case INT: return c.v == (double)std::numeric_limits<da_int>::max();
    case U8: return c.v == 255;
    case STR: return false;
    default: return std::isnan(c.v);
    }
}
static std::vector<std::shared_ptr<void>> *KEEP; // user memory of blocks that were not copied
struct Buf {
    virtual ~Buf() {}
};
template <class T> struct BufT : Buf {
    std::vector<T> v;
};
struct Store {
    da_datastore h = nullptr;
    da_int m = 0; // rows
    std::vector<Col> cols;
    da_int pend = 0, pend_rows = 0; // first column and rows of an incomplete row block
    std::map<std::string, Sel> sel;
    da_int n() const { return (da_int)cols.size(); }
    Store() { OK(da_datastore_init(&h)); }
    ~Store() { da_datastore_destroy(&h); }
    void reset() {
        da_datastore_destroy(&h);
        REQUIRE(h == nullptr, "destroy", "a destroyed store is not null");
        OK(da_datastore_init(&h));
        m = pend = pend_rows = 0;
        cols.clear();
        sel.clear();
    }
};
static Cell gen_cell(Gen &g, int t) {
    Cell c;
    bool miss = g.chance(1, 9);
    switch (t) {
    case INT: c.v = miss ? (double)std::numeric_limits<da_int>::max() : g.chance(1, 12) ? -2147483648.0 : (double)g.range(-999, 999); break;
    case U8: c.v = miss ? 255 : (double)g.below(255); break;
    case DBL: c.v = miss ? NAN : (double)g.range(-999, 999) / 8; break;
    case FLT: c.v = miss ? NAN : (double)g.range(-999, 999) / 8; break;
    default:
        for (da_int i = (da_int)g.below(6); i > 0; i--)
            c.s += "ab, \"\\z\xc3"[g.below(8)];
    }
    return c;
}
template <class T> static da_status load(bool row, da_datastore h, da_int r, da_int c, T *p, da_order o, da_int cp) {
    if constexpr (std::is_same_v<T, da_int>)
        return row ? da_data_load_row_int(h, r, c, p, o, cp) : da_data_load_col_int(h, r, c, p, o, cp);
    else if constexpr (std::is_same_v<T, double>)
        return row ? da_data_load_row_real_d(h, r, c, p, o, cp) : da_data_load_col_real_d(h, r, c, p, o, cp);
    else if constexpr (std::is_same_v<T, float>)
        return row ? da_data_load_row_real_s(h, r, c, p, o, cp) : da_data_load_col_real_s(h, r, c, p, o, cp);
    else
        return row ? da_data_load_row_uint8(h, r, c, p, o, cp) : da_data_load_col_uint8(h, r, c, p, o, cp);
}
template <class T> static da_status get_el(da_datastore h, da_int i, da_int j, T *p) {
    if constexpr (std::is_same_v<T, da_int>)
        return da_data_get_element_int(h, i, j, p);
    else if constexpr (std::is_same_v<T, double>)
        return da_data_get_element_real_d(h, i, j, p);
    else if constexpr (std::is_same_v<T, float>)
        return da_data_get_element_real_s(h, i, j, p);
    else
        return da_data_get_element_uint8(h, i, j, p);
}
template <class T> static da_status set_el(da_datastore h, da_int i, da_int j, T p) {
    if constexpr (std::is_same_v<T, da_int>)
        return da_data_set_element_int(h, i, j, p);
    else if constexpr (std::is_same_v<T, double>)
        return da_data_set_element_real_d(h, i, j, p);
    else if constexpr (std::is_same_v<T, float>)
        return da_data_set_element_real_s(h, i, j, p);
    else
        return da_data_set_element_uint8(h, i, j, p);
}
template <class T> static da_status get_col(da_datastore h, da_int j, da_int d, T *p) {
    if constexpr (std::is_same_v<T, da_int>)
        return da_data_extract_column_int(h, j, d, p);
    else if constexpr (std::is_same_v<T, double>)
        return da_data_extract_column_real_d(h, j, d, p);
    else if constexpr (std::is_same_v<T, float>)
        return da_data_extract_column_real_s(h, j, d, p);
    else if constexpr (std::is_same_v<T, char *>)
        return da_data_extract_column_str(h, j, d, p);
    else
        return da_data_extract_column_uint8(h, j, d, p);
}
template <class T> static da_status get_sel(da_datastore h, const char *k, da_order o, T *p, da_int ld) {
    if constexpr (std::is_same_v<T, da_int>)
        return da_data_extract_selection_int(h, k, o, p, ld);
    else if constexpr (std::is_same_v<T, double>)
        return da_data_extract_selection_real_d(h, k, o, p, ld);
    else if constexpr (std::is_same_v<T, float>)
        return da_data_extract_selection_real_s(h, k, o, p, ld);
    else
        return da_data_extract_selection_uint8(h, k, o, p, ld);
}
// calls f with a value of the type
template <class F> static auto with(int t, F f) {
    switch (t) {
    case INT: return f((da_int)0);
    case DBL: return f(0.0);
    case FLT: return f(0.0f);
    default: return f((uint8_t)0);
    }
}
#define IS(want)                                                                         \
    REQUIRE(s == (want), "status", "%s returned %d, expected %d", op.c_str(), (int)s, (int)(want))

template <class T> static void check_col(Gen &, Store &S, da_int j, bool typed) {
    const Col &c = S.cols[j];
    Guarded<T> out(S.m, T{});
    da_status s = get_col<T>(S.h, j, S.m, out.data());
    std::string op = "extract_column";
    if (!typed) {
        REQUIRE(s == da_status_invalid_input, "status", "extracting a column of another type returned %d", (int)s);
        return;
    }
    IS(da_status_success);
    REQUIRE(out.ok(), "overrun", "extract_column wrote past the rows");
    for (da_int i = 0; i < S.m; i++) {
        Cell x;
        if constexpr (std::is_same_v<T, char *>)
            x.s = out[i];
        else
            x.v = (double)out[i];
        REQUIRE(x == c.c[i], "cell", "column %d row %d: %g '%s', expected %g '%s'", (int)j, (int)i, x.v, x.s.c_str(), c.c[i].v, c.c[i].s.c_str());
    }
}
static void check_all(Gen &g, Store &S) {
    da_int v = -5;
    OK(da_data_get_n_cols(S.h, &v));
    REQUIRE(v == S.n(), "size", "n_cols %d, expected %d", (int)v, (int)S.n());
    if (S.pend == 0) {
        OK(da_data_get_n_rows(S.h, &v));
        REQUIRE(v == S.m, "size", "n_rows %d, expected %d", (int)v, (int)S.m);
    }
    for (da_int j = 0; j < S.n(); j++) {
        if (S.pend == 0) {
            if (S.cols[j].t == STR)
                check_col<char *>(g, S, j, true);
            else
                with(S.cols[j].t, [&](auto z) { check_col<decltype(z)>(g, S, j, true); });
        }
        char buf[40];
        da_int sz = 40;
        OK(da_data_get_col_label(S.h, j, &sz, buf));
        REQUIRE(S.cols[j].label == buf, "label", "label of column %d is '%s', expected '%s'", (int)j, buf, S.cols[j].label.c_str());
    }
    for (const char *l : {"a", "b", "long_label", "c"}) {
        bool any = false;
        for (auto &c : S.cols)
            any = any || c.label == l;
        da_int idx = -7;
        da_status s = da_data_get_col_idx(S.h, l, &idx);
        REQUIRE(s == (any ? da_status_success : da_status_invalid_input), "label", "looking up label %s returned %d, %s", l, (int)s, any ? "it exists" : "it does not exist");
        REQUIRE(!any || (idx >= 0 && idx < S.n() && S.cols[idx].label == l), "label", "label %s found at %d, which does not carry it", l, (int)idx);
    }
}
static void op_load(Gen &g, Store &S, std::vector<std::shared_ptr<Buf>> &keep) {
    bool row = g.chance(1, 2);
    int t = (int)g.below(5);
    da_int avail = S.n() - S.pend, r, c;
    if (row && S.n() > 0 && g.chance(4, 5)) {
        // a piece that fits: the widest run of one type, or part of it
        t = S.cols[S.pend].t;
        da_int run = 1;
        while (run < avail && S.cols[S.pend + run].t == t)
            run++;
        if (g.flip())
            while (run > 1 && !S.cols[S.pend + run - 1].last)
                run--;
        c = g.chance(1, 2) ? run : (da_int)g.range(1, run);
        if (g.chance(4, 5))
            while (!S.cols[S.pend + c - 1].last)
                c++;
        r = S.pend ? S.pend_rows : (da_int)g.range(1, 4);
        if (g.chance(1, 10))
            r = (da_int)g.range(1, 5);
        if (g.chance(1, 10))
            c = (da_int)g.range(1, avail + 1);
    } else {
        r = S.m > 0 && !row && g.chance(9, 10) ? S.m : (da_int)g.range(1, 5);
        c = (da_int)g.range(1, 4);
    }
    if (g.chance(1, 25))
        r = (da_int)g.range(-2, 0);
    if (g.chance(1, 25))
        c = (da_int)g.range(-2, 0);
    da_order o = gen_order(g);
    bool cp = g.flip();
    da_int R = std::max<da_int>(r, 0), C = std::max<da_int>(c, 0);
    std::vector<Cell> cells((size_t)R * C);
    for (auto &x : cells)
        x = gen_cell(g, t);
    std::string op = std::string(row ? "load_row " : "load_col ") + TYN[t];
    g.note("%s %dx%d %s%s;", op.c_str(), (int)r, (int)c, on(o), cp ? " copied" : "");
    da_status s;
    if (t == STR) {
        std::vector<std::string> str(cells.size());
        std::vector<const char *> p(cells.size() + 1, "guard");
        for (da_int i = 0; i < R; i++)
            for (da_int j = 0; j < C; j++)
                str[rc(o, R, C, i, j)] = cells[i * C + j].s;
        for (size_t i = 0; i < str.size(); i++)
            p[i] = str[i].c_str();
        s = row ? da_data_load_row_str(S.h, r, c, p.data(), o) : da_data_load_col_str(S.h, r, c, p.data(), o);
    } else {
        s = with(t, [&](auto z) {
            typedef decltype(z) T;
            auto b = std::make_shared<BufT<T>>();
            b->v.resize(cells.size() + 1);
            for (da_int i = 0; i < R; i++)
                for (da_int j = 0; j < C; j++)
                    b->v[rc(o, R, C, i, j)] = (T)cells[i * C + j].v;
            da_status s = load<T>(row, S.h, r, c, b->v.data(), o, cp);
            if (cp)
                for (auto &x : b->v)
                    x = (T)77; // the store has its own copy
            else
                keep.push_back(b);
            return s;
        });
    }
    if (!row && S.pend) {
        IS(da_status_missing_block);
        return;
    }
    if (r <= 0 || c <= 0) {
        IS(da_status_invalid_input);
        return;
    }
    if (!row || S.n() == 0) {
        if (S.n() > 0 && r != S.m) {
            IS(da_status_invalid_input);
            return;
        }
        IS(da_status_success);
        S.m = r;
        for (da_int j = 0; j < c; j++) {
            Col k;
            k.t = t;
            k.last = j == c - 1;
            for (da_int i = 0; i < r; i++)
                k.c.push_back(cells[i * c + j]);
            S.cols.push_back(k);
        }
        g.label("columns added");
        return;
    }
    bool ok = c <= avail && (S.pend == 0 || r == S.pend_rows) && S.cols[S.pend + c - 1].last;
    for (da_int j = 0; ok && j < c; j++)
        ok = S.cols[S.pend + j].t == t;
    if (!ok) {
        IS(da_status_invalid_input);
        g.label("rows refused");
        return;
    }
    IS(da_status_success);
    for (da_int j = 0; j < c; j++)
        for (da_int i = 0; i < r; i++)
            S.cols[S.pend + j].c.push_back(cells[i * c + j]);
    S.pend_rows = r;
    S.pend += c;
    g.label(S.pend == c && S.pend == S.n() ? "rows added" : "rows added in pieces");
    if (S.pend == S.n()) {
        S.pend = 0;
        S.m += r;
    }
}
static const char *KEYS[] = {"k", "K2", "", "dainternal_All"};
static void gen_iv(Gen &g, da_int n, da_int &a, da_int &b) {
    a = (da_int)g.range(0, std::max<da_int>(n - 1, 0));
    b = (da_int)g.range(a, std::max<da_int>(n - 1, a));
    if (g.chance(1, 12))
        a = (da_int)g.range(-2, n + 1);
    if (g.chance(1, 12))
        b = (da_int)g.range(-2, n + 1);
}
static void op_select(Gen &g, Store &S) {
    const char *key = KEYS[g.chance(1, 12) ? g.below(4) : g.below(2)];
    bool internal = !strncmp(key, "dainternal_", 11);
    da_int r0, r1, c0, c1;
    gen_iv(g, S.m, r0, r1);
    gen_iv(g, S.n(), c0, c1);
    bool rok = r0 <= r1 && r0 >= 0 && r1 < S.m, cok = c0 <= c1 && c0 >= 0 && c1 < S.n();
    int what = (int)g.below(6);
    bool full = g.flip();
    da_status s, want;
    std::string op;
    switch (what) {
    case 0: op = "select_rows"; s = da_data_select_rows(S.h, key, r0, r1); cok = true; break;
    case 1: op = "select_columns"; s = da_data_select_columns(S.h, key, c0, c1); rok = true; break;
    case 2: op = "select_slice"; s = da_data_select_slice(S.h, key, r0, r1, c0, c1); break;
    case 3: op = "remove_rows"; s = da_data_select_remove_rows(S.h, key, r0, r1); cok = true; break;
    case 4: op = "remove_columns"; s = da_data_select_remove_columns(S.h, key, c0, c1); rok = true; break;
    default: op = "select_non_missing"; s = da_data_select_non_missing(S.h, key, full); rok = cok = S.m > 0;
    }
    g.note("%s %s %d..%d %d..%d%s;", op.c_str(), key, (int)r0, (int)r1, (int)c0, (int)c1, what == 5 && full ? " full" : "");
    bool remove = what == 3 || what == 4;
    want = internal && !remove ? da_status_invalid_input
           : S.pend            ? da_status_missing_block
           : !rok || !cok      ? da_status_invalid_input
           : remove && !S.sel.count(key) ? da_status_invalid_input
                                         : da_status_success;
    IS(want);
    if (want != da_status_success)
        return;
    Sel &q = S.sel[key];
    if (what == 0 || what == 2)
        for (da_int i = r0; i <= r1; i++)
            q.r.insert(i);
    if (what == 1 || what == 2)
        for (da_int i = c0; i <= c1; i++)
            q.c.insert(i);
    if (what == 3)
        for (da_int i = r0; i <= r1; i++)
            q.r.erase(i);
    if (what == 4)
        for (da_int i = c0; i <= c1; i++)
            q.c.erase(i);
    if (what == 5) {
        if (q.r.empty())
            for (da_int i = 0; i < S.m; i++)
                q.r.insert(i);
        for (da_int i = 0; i < S.m; i++)
            for (da_int j = 0; j < S.n(); j++)
                if ((full || q.c.empty() || q.c.count(j)) && missing(S.cols[j].t, S.cols[j].c[i]))
                    q.r.erase(i);
        g.label("non-missing");
    }
}
template <class T> static void extract(Gen &g, Store &S, int t) {
    const char *key = KEYS[g.chance(1, 12) ? g.below(4) : g.below(2)];
    da_order o = gen_order(g);
    da_status want = da_status_success, s;
    Sel q;
    if (S.sel.empty())
        want = da_status_full_extraction;
    else if (!S.sel.count(key))
        want = da_status_invalid_input;
    else
        q = S.sel[key];
    for (da_int i = 0; q.r.empty() && i < S.m; i++)
        ;
    if (q.r.empty())
        for (da_int i = 0; i < S.m; i++)
            q.r.insert(i);
    if (q.c.empty())
        for (da_int i = 0; i < S.n(); i++)
            q.c.insert(i);
    da_int nr = (da_int)q.r.size(), nc = (da_int)q.c.size(), need = o == column_major ? nr : nc;
    da_int ld = need + (g.flip() ? 0 : (da_int)g.range(1, 3));
    if (g.chance(1, 12))
        ld = (da_int)g.range(-1, need - 1);
    for (da_int j : q.c)
        if (S.cols[j].t != t && want != da_status_invalid_input)
            want = da_status_invalid_input;
    if (ld < need)
        want = da_status_invalid_input;
    if (S.pend)
        want = da_status_missing_block;
    std::string op = "extract_selection";
    g.note("extract %s %s ld %d;", key, on(o), (int)ld);
    Mat<T> out(nr, nc, o, std::max<da_int>(ld, need) - need);
    T pad = (T)91;
    std::fill(out.v.begin(), out.v.end(), pad);
    size_t used = out.v.size();
    out.v.resize(used + 8, pad);
    s = get_sel<T>(S.h, key, o, out.data(), ld);
    if (S.m == 0 && !S.pend) {
        REQUIRE(s != da_status_success && s != da_status_full_extraction, "status", "extraction from an empty store succeeded");
        return;
    }
    IS(want);
    for (size_t i = used; i < out.v.size(); i++)
        REQUIRE(out.v[i] == pad, "overrun", "extract_selection wrote past the array");
    if (want != da_status_success && want != da_status_full_extraction)
        return;
    for (da_int j = 0; j < (o == column_major ? nc : nr); j++)
        for (da_int i = need; i < ld; i++)
            REQUIRE(out.v[(size_t)j * ld + i] == pad, "pad", "extract_selection wrote into the padding");
    da_int a = 0;
    for (da_int i : q.r) {
        da_int b = 0;
        for (da_int j : q.c) {
            Cell x;
            x.v = (double)out(a, b);
            REQUIRE(x == S.cols[j].c[i], "selection", "extracted (%d,%d) is %g, cell (%d,%d) holds %g", (int)a, (int)b, x.v, (int)i, (int)j, S.cols[j].c[i].v);
            b++;
        }
        a++;
    }
    g.label(o == row_major ? "extracted by row" : "extracted by column");
}
static void op_element(Gen &g, Store &S) {
    da_int i = g.chance(1, 8) ? (da_int)g.range(-1, S.m + 2) : (da_int)g.range(0, std::max<da_int>(S.m - 1, 0));
    da_int j = g.chance(1, 8) ? (da_int)g.range(-1, S.n() + 1) : (da_int)g.range(0, std::max<da_int>(S.n() - 1, 0));
    bool in = i >= 0 && i < S.m && j >= 0 && j < S.n();
    int t = in && S.cols[j].t != STR && !g.chance(1, 6) ? S.cols[j].t : (int)g.below(4);
    bool set = g.flip();
    Cell x = gen_cell(g, t), y;
    std::string op = set ? "set_element" : "get_element";
    g.note("%s %s %d,%d;", op.c_str(), TYN[t], (int)i, (int)j);
    da_status s = with(t, [&](auto z) {
        typedef decltype(z) T;
        if (set)
            return set_el<T>(S.h, i, j, (T)x.v);
        T v = (T)0;
        da_status s = get_el<T>(S.h, i, j, &v);
        y.v = (double)v;
        return s;
    });
    if (S.pend) { // rows are incomplete: complete ones may be served, nothing else
        REQUIRE(s == da_status_missing_block || s == da_status_invalid_input || (in && s == da_status_success), "status", "%s returned %d while a row block is incomplete", op.c_str(), (int)s);
        if (s != da_status_success)
            return;
    }
    IS(in && S.cols[j].t == t ? da_status_success : da_status_invalid_input);
    if (s != da_status_success)
        return;
    if (set)
        S.cols[j].c[i] = x;
    else
        REQUIRE(y == S.cols[j].c[i], "cell", "get_element gave %g, expected %g", y.v, S.cols[j].c[i].v);
}
static void op_label(Gen &g, Store &S) {
    const char *l = g.pick({"a", "b", "long_label", "c"});
    da_int j = g.chance(1, 10) ? (da_int)g.range(-1, S.n() + 1) : (da_int)g.range(0, std::max<da_int>(S.n() - 1, 0));
    bool in = j >= 0 && j < S.n();
    std::string op;
    da_status s;
    if (g.chance(2, 3)) {
        op = "label_column";
        g.note("label %d %s;", (int)j, l);
        s = da_data_label_column(S.h, l, j);
        IS(in ? da_status_success : da_status_invalid_input);
        if (in)
            S.cols[j].label = l;
    } else {
        char buf[32];
        memset(buf, 'x', sizeof buf);
        da_int sz = g.chance(1, 2) ? (da_int)g.range(-2, 14) : 20, sz0 = sz;
        op = "get_col_label";
        g.note("get label %d size %d;", (int)j, (int)sz);
        s = da_data_get_col_label(S.h, j, &sz, buf);
        da_int need = in ? (da_int)S.cols[j].label.size() + 1 : 0;
        IS(in && sz0 >= need ? da_status_success : da_status_invalid_input);
        if (in && sz0 < need)
            REQUIRE(sz == need, "label", "the needed size of a label was given as %d, not %d", (int)sz, (int)need);
        if (s == da_status_success)
            REQUIRE(S.cols[j].label == buf, "label", "label '%s', expected '%s'", buf, S.cols[j].label.c_str());
        for (da_int i = s == da_status_success ? need : 0; i < 32; i++)
            REQUIRE(buf[i] == 'x', "overrun", "get_col_label wrote outside the label");
    }
}
PROPERTY(C02, table, 200000, 6000000,
         "one or two data stores run a history of up to 40 operations (columns and row pieces of five types, layouts, copied or not; selections, missing values, elements, labels, concatenation; one call in ten invalid) beside a plain table; statuses after each call and all cells and labels at random points are compared; non-trivial: at least 5 operations took effect and the store holds two blocks or more") {
    std::vector<std::shared_ptr<Buf>> keep; // outlives the stores
    Store A, B;
    int ops = (int)g.size(1, 40), eff = 0;
    bool two = g.chance(1, 2);
    for (int i = 0; i < ops; i++) {
        Store &S = two && g.chance(1, 3) ? B : A;
        Store &O = &S == &A ? B : A;
        if (&S == &B)
            g.note("B:");
        switch (g.below(9)) {
        case 0:
        case 1:
        case 2: op_load(g, S, keep); break;
        case 3:
        case 4: op_select(g, S); break;
        case 5: {
            int t = S.n() > 0 ? S.cols[g.below(S.n())].t : 0;
            if (t == STR)
                t = (int)g.below(4);
            with(t, [&](auto z) { extract<decltype(z)>(g, S, t); });
            break;
        }
        case 6: op_element(g, S); break;
        case 7: op_label(g, S); break;
        default:
            if (two && g.flip()) {
                g.note("hconcat;");
                std::string op = "hconcat";
                da_status s;
                if (g.chance(1, 8)) {
                    da_datastore same = S.h;
                    s = da_data_hconcat(&S.h, &same);
                    REQUIRE(s != da_status_success && S.h == same, "status", "a store was concatenated with itself");
                    break;
                }
                s = da_data_hconcat(&S.h, &O.h);
                bool ok = S.m == O.m && !S.pend && !O.pend;
                if (!ok) {
                    REQUIRE(s != da_status_success && O.h != nullptr, "status", "incompatible stores were concatenated");
                    break;
                }
                IS(da_status_success);
                REQUIRE(O.h == nullptr, "hconcat", "the second store is still there");
                for (auto &c : O.cols)
                    S.cols.push_back(c);
                O.reset();
                g.label("concatenated stores");
                break;
            }
            if (g.flip())
                check_all(g, S);
            else if (S.n() > 0 && !S.pend) {
                da_int j = (da_int)g.below(S.n());
                int t = (int)g.below(5);
                if (t == STR)
                    check_col<char *>(g, S, j, S.cols[j].t == STR);
                else
                    with(t, [&](auto z) { check_col<decltype(z)>(g, S, j, S.cols[j].t == t); });
                double d[1];
                da_status s = da_data_extract_column_real_d(S.h, g.flip() ? -1 : S.n(), S.m, d);
                REQUIRE(s == da_status_invalid_input, "status", "extracting a column that does not exist returned %d", (int)s);
            }
        }
        eff++;
    }
    check_all(g, A);
    check_all(g, B);
    g.nontrivial(eff >= 5 && A.n() >= 2 && A.m >= 1);
}

// ------------------------------------------------------------------ interval map and set
PROPERTY(C02, interval_map, 200000, 6000000,
         "histories of insert, find (by key, by interval), closest and erase on an interval map beside a plain list of intervals; non-trivial: at least two intervals were present at some point") {
    da_interval::interval_map<int> M;
    std::map<da_int, std::pair<da_int, int>> R; // lower -> upper, value
    int ops = (int)g.size(1, 40), val = 0;
    size_t most = 0;
    auto owner = [&](da_int k) {
        for (auto it = R.begin(); it != R.end(); ++it)
            if (it->first <= k && k <= it->second.first)
                return it;
        return R.end();
    };
    for (int i = 0; i < ops; i++) {
        da_int k = (da_int)g.range(-3, 30);
        switch (g.below(5)) {
        case 0:
        case 1: {
            da_int u = k + (g.chance(1, 10) ? (da_int)g.range(-3, 20) : (da_int)g.range(0, 4));
            bool ok = k <= u;
            for (auto &r : R)
                ok = ok && (r.second.first < k || u < r.first);
            g.note("insert %d..%d;", (int)k, (int)u);
            da_status s = M.insert({k, u}, ++val);
            REQUIRE(s == (ok ? da_status_success : da_status_invalid_input), "insert", "inserting %d..%d returned %d", (int)k, (int)u, (int)s);
            if (ok)
                R[k] = {u, val};
            break;
        }
        case 2: {
            g.note("find %d;", (int)k);
            int v = -1;
            da_int lb = -99, ub = -99;
            bool f = M.find(k, v, lb, ub);
            auto it = owner(k);
            REQUIRE(f == (it != R.end()), "find", "find(%d) gave %d", (int)k, f);
            if (f)
                REQUIRE(v == it->second.second && lb == it->first && ub == it->second.first, "find", "find(%d) gave %d in %d..%d", (int)k, v, (int)lb, (int)ub);
            auto jt = M.find(k);
            REQUIRE((jt != M.end()) == (it != R.end()), "find", "the iterator find(%d) disagrees", (int)k);
            if (it != R.end())
                REQUIRE(jt->second == it->second.second, "find", "the iterator find(%d) found another interval", (int)k);
            break;
        }
        case 3: {
            g.note("erase %d;", (int)k);
            auto it = owner(k);
            M.erase(k);
            if (it != R.end())
                R.erase(it);
            break;
        }
        default:
            if (g.chance(1, 3) && !R.empty()) {
                auto f = M.find(std::next(R.begin(), g.below(R.size()))->first);
                da_int lo = f->first.lower;
                M.erase(f);
                R.erase(lo);
                g.note("erase at %d;", (int)lo);
            }
        }
        most = std::max(most, R.size());
        auto r = R.begin();
        for (auto it = M.begin(); it != M.end(); ++it, ++r)
            REQUIRE(r != R.end() && it->first.lower == r->first && it->first.upper == r->second.first && it->second == r->second.second, "contents", "the interval map holds other intervals than were inserted");
        REQUIRE(r == R.end(), "contents", "the interval map lost an interval");
        REQUIRE(M.empty() == R.empty(), "empty", "empty() is wrong");
    }
    g.nontrivial(most >= 2);
}
PROPERTY(C02, interval_set, 200000, 6000000,
         "histories of insert, erase, find and clear on an interval set beside a set of integers, whose maximal runs must be the stored intervals; non-trivial: at least two intervals were present at some point") {
    da_interval::interval_set M;
    std::set<da_int> R;
    int ops = (int)g.size(1, 40);
    size_t most = 0;
    da_int lim = g.pick({12, 30, 60});
    for (int i = 0; i < ops; i++) {
        da_int k = (da_int)g.range(-2, lim), u = k + (g.chance(1, 8) ? (da_int)g.range(-3, 20) : (da_int)g.range(0, 5));
        int what = (int)g.below(8);
        if (what < 4 || what == 4 || what == 5) {
            bool ins = what < 4;
            g.note("%s %d..%d;", ins ? "insert" : "erase", (int)k, (int)u);
            da_status s = ins ? M.insert({k, u}) : M.erase({k, u});
            REQUIRE(s == (k <= u ? da_status_success : da_status_invalid_input), "status", "%d..%d returned %d", (int)k, (int)u, (int)s);
            for (da_int x = k; x <= u; x++)
                if (ins)
                    R.insert(x);
                else
                    R.erase(x);
        } else if (what == 6) {
            da_interval::interval v;
            bool f = M.find(k, v);
            REQUIRE(f == (R.count(k) > 0), "find", "find(%d) gave %d", (int)k, f);
            REQUIRE(!f || v.contains(k), "find", "find(%d) gave an interval without it", (int)k);
            auto it = M.find(k);
            REQUIRE((it != M.end()) == (R.count(k) > 0), "find", "the iterator find(%d) disagrees", (int)k);
            REQUIRE(it == M.end() || it->contains(k), "find", "the iterator find(%d) gave an interval without it", (int)k);
        } else if (g.chance(1, 6)) {
            M.clear();
            R.clear();
            g.note("clear;");
        }
        auto r = R.begin();
        size_t count = 0;
        for (auto it = M.begin(); it != M.end(); ++it) {
            REQUIRE(r != R.end() && it->lower == *r, "contents", "an interval starts at %d", (int)it->lower);
            da_int x = *r;
            for (; r != R.end() && *r == x; ++r)
                x++;
            REQUIRE(it->upper == x - 1, "contents", "the interval from %d ends at %d, expected %d", (int)it->lower, (int)it->upper, (int)x - 1);
            count++;
        }
        REQUIRE(r == R.end() && M.empty() == R.empty(), "contents", "integers were lost");
        most = std::max(most, count);
    }
    g.nontrivial(most >= 2);
}

// ------------------------------------------------------------------ growing vector
template <class T> static void vec(Gen &g) {
    perturb(g);
    size_t n0 = g.flip() ? 0 : g.below(200);
    std::vector<da_vector::da_vector<T>> V;
    std::vector<std::vector<T>> R(2);
    V.emplace_back();
    V.emplace_back(n0);
    R[1].resize(n0);
    for (size_t i = 0; i < n0; i++)
        V[1][i] = R[1][i] = (T)i;
    int ops = (int)g.size(1, 40), c = 0;
    bool grew = false;
    for (int i = 0; i < ops; i++) {
        int a = (int)g.below(2), b = 1 - a;
        switch (g.below(8)) {
        case 0:
        case 1:
            for (int64_t k = g.size(1, 150); k > 0; k--) {
                V[a].push_back((T)++c);
                R[a].push_back((T)c);
            }
            break;
        case 2:
            if (R[a].size() > 4000)
                break;
            V[a].append(V[b]);
            R[a].insert(R[a].end(), R[b].begin(), R[b].end());
            break;
        case 3: {
            std::vector<T> w;
            for (int64_t k = g.size(0, 150); k > 0; k--)
                w.push_back((T)++c);
            V[a].append(w);
            R[a].insert(R[a].end(), w.begin(), w.end());
            break;
        }
        case 4: {
            size_t n = g.chance(1, 2) ? g.below(R[a].size() + 1) : g.below(300), old = R[a].size();
            V[a].resize(n);
            R[a].resize(n);
            REQUIRE(V[a].size() == n, "size", "resize(%zu) gave size %zu", n, V[a].size());
            for (size_t k = old; k < n; k++)
                V[a][k] = R[a][k] = (T)++c;
            break;
        }
        case 5: {
            size_t n = g.below(600);
            V[a].reserve(n);
            REQUIRE(V[a].capacity() >= n, "capacity", "reserve(%zu) gave capacity %zu", n, V[a].capacity());
            break;
        }
        case 6:
            if (g.chance(1, 3)) {
                V[a].clear();
                R[a].clear();
            }
            break;
        default:
            if (g.flip()) {
                V[a] = V[b];
                R[a] = R[b];
            } else if (g.flip()) {
                V[a] = std::move(V[b]);
                R[a] = R[b];
                V[b] = da_vector::da_vector<T>();
                R[b].clear();
            } else {
                da_vector::da_vector<T> t(std::move(V[a]));
                V[a] = std::move(t);
            }
        }
        for (int q = 0; q < 2; q++) {
            REQUIRE(V[q].size() == R[q].size(), "size", "size %zu, expected %zu", V[q].size(), R[q].size());
            REQUIRE(V[q].capacity() >= V[q].size(), "capacity", "capacity below size");
            for (size_t k = 0; k < R[q].size(); k++)
                REQUIRE(V[q].data()[k] == R[q][k], "contents", "element %zu is %g, expected %g", k, (double)V[q][k], (double)R[q][k]);
            grew = grew || R[q].size() > 64;
        }
    }
    g.nontrivial(grew);
}
PROPERTY(C02, vector, 30000, 600000,
         "histories of push_back, append, resize, reserve, clear, copies and moves on two growing vectors beside std::vector; non-trivial: a vector grew past its first block") {
    switch (g.below(3)) {
    case 0: vec<da_int>(g); break;
    case 1: vec<float>(g); break;
    default: vec<double>(g);
    }
}

// ------------------------------------------------------------------ column cache
template <class T> static void cache(Gen &g) {
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    da_cache::LRUCache<T> C(err);
    da_int cap = (da_int)g.range(g.chance(1, 10) ? 0 : 1, 40), len = (da_int)g.range(1, 6);
    if (g.chance(2, 3))
        cap = std::min<da_int>(cap, 6);
    Threads th(gen_threads(g));
    OK(C.set_size(cap, len));
    REQUIRE(C.get_capacity() == cap && C.active_ == (cap > 0), "capacity", "capacity %d", (int)C.get_capacity());
    std::vector<std::pair<da_int, std::vector<T>>> R; // front: most recent
    int ops = (int)g.size(1, 40);
    bool evicted = false;
    da_int keys = g.pick({8, 20, 80});
    auto look = [&](da_int k) {
        for (size_t i = 0; i < R.size(); i++)
            if (R[i].first == k)
                return (int)i;
        return -1;
    };
    auto cmp = [&](da_int k) {
        int i = look(k);
        T *p = C.get(k);
        REQUIRE((p != nullptr) == (i >= 0), "get", "key %d %s", (int)k, p ? "found though evicted or never put" : "is missing");
        if (i < 0)
            return;
        for (da_int j = 0; j < len; j++)
            REQUIRE(p[j] == R[i].second[j], "get", "column of key %d holds %g at %d, expected %g", (int)k, (double)p[j], (int)j, (double)R[i].second[j]);
        auto e = R[i];
        R.erase(R.begin() + i);
        R.insert(R.begin(), e);
    };
    int c = 0;
    for (int i = 0; i < ops; i++) {
        if (g.chance(1, 2)) {
            da_int k = (da_int)g.below(keys);
            g.note("get %d;", (int)k);
            cmp(k);
            continue;
        }
        // distinct keys, as the callers pass them; some may be in the cache already
        std::vector<da_int> ks;
        da_int n = g.chance(1, 6) ? (da_int)g.range(0, 40) : (da_int)g.range(1, 4), stride = len + (g.flip() ? 0 : (da_int)g.range(1, 3));
        bool again = g.chance(1, 8);
        for (da_int q = 0; q < n; q++) {
            da_int k = (da_int)g.below(keys);
            if (std::find(ks.begin(), ks.end(), k) == ks.end() && (again || look(k) < 0))
                ks.push_back(k);
        }
        std::vector<T> d(std::max<size_t>(1, ks.size() * stride));
        for (auto &x : d)
            x = (T)++c;
        g.note("put");
        for (da_int k : ks)
            g.note("%d", (int)k);
        g.note(";");
        OK(C.put(ks, d.data(), stride));
        size_t m = std::min<size_t>(ks.size(), cap);
        // keys that are updated keep one entry; room for the others is made at the old end
        for (size_t q = 0; q < m; q++) {
            int w = look(ks[q]);
            if (w >= 0)
                R.erase(R.begin() + w);
        }
        while (R.size() + m > (size_t)cap) {
            R.pop_back();
            evicted = true;
        }
        for (size_t q = 0; q < m; q++)
            R.insert(R.begin(), {ks[q], std::vector<T>(d.begin() + q * stride, d.begin() + q * stride + len)});
        for (auto &x : d)
            x = (T)-1; // the cache has its own copy
    }
    // what is left, without disturbing the order more than once per key
    for (da_int k = 0; k < keys; k++)
        cmp(k);
    g.nontrivial(evicted);
}
PROPERTY(C02, cache, 100000, 2000000,
         "histories of put (of several distinct keys, some already held) and get on the column cache beside a least-recently-used list; non-trivial: something was evicted") {
    g.flip() ? cache<double>(g) : cache<float>(g);
}
