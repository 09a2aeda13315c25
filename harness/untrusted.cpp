// C04: bytes from outside (CSV files, saved models) never break the process.
#include "models.hpp"
#include "pbt_main.cpp"
#include <fcntl.h>
#include <fstream>
#include <unistd.h>

static std::string file(const char *n) {
    const char *s = getenv("VERIF_SCRATCH");
    return std::string(s ? s : "/tmp") + "/" + n + std::to_string(getpid());
}
static void spit(const std::string &f, const std::string &b) {
    std::ofstream o(f, std::ios::binary);
    o.write(b.data(), (std::streamsize)b.size());
}
static std::string csv_bytes(Gen &g) {
    // pieces that mean something to a reader of CSV files, and some that mean nothing
    static const std::vector<std::string> P = {",", ",", ",", "\n", "\n", "\r\n", "\r", "\"", "\"", "\"\"", "\\", "#", " ", "\t", ";", "'", "0", "1", "-1", "+", "-", ".", "1.5", "1e5", "1e999", "-1e-999",
                                               "e", "E", "nan", "inf", "-inf", "true", "FALSE", "True", "abc", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "2147483648", "0x1F", "1,000", "\xef\xbb\xbf", "\xff", "N/A", ""};
    std::string s;
    if (g.chance(1, 8))
        s = "\xef\xbb\xbf";
    int mode = (int)g.below(5);
    int n = (int)g.size(0, mode == 4 ? 400 : 40);
    for (int i = 0; i < n; i++) {
        if (mode == 0)
            s += (char)g.below(256);
        else if (mode == 1) {
            s += std::to_string(g.range(-50, 50));
            s += g.chance(1, 4) ? "\n" : ",";
        } else if (mode == 2 || mode == 4)
            s += P[g.below(P.size())];
        else {
            s += g.flip() ? P[g.below(P.size())] : std::string(1, (char)g.below(256));
            if (g.chance(1, 10))
                s += '\0';
        }
    }
    if (g.chance(1, 30)) { // longer than a buffer of the reader
        std::string long_field((size_t)g.range(1000, g.thorough ? 600000 : 300000), g.pick({'a', '1', ' ', '"', ',', '\n'}));
        s.insert(g.below(s.size() + 1), long_field);
        g.label("long");
    }
    return s;
}
static void csv_options(Gen &g, da_datastore st) {
    auto ch = [&](const char *k) {
        static const char *c[] = {",", ";", "\t", "\"", "'", "\\", "#", ".", " ", "e", "a", "1", ""};
        if (g.chance(1, 4))
            da_datastore_options_set_string(st, k, c[g.below(13)]);
    };
    for (const char *k : {"delimiter", "thousands", "decimal", "comment character", "quote character", "escape character", "line terminator", "scientific notation character"})
        ch(k);
    for (const char *k : {"double quote", "whitespace delimiter", "skip empty lines", "skip initial space", "skip footer", "warn for missing data", "use header row"})
        if (g.chance(1, 4))
            da_datastore_options_set_int(st, k, 1);
    if (g.chance(1, 4))
        da_datastore_options_set_int(st, "row start", (da_int)g.range(0, 4));
    if (g.chance(1, 6))
        da_datastore_options_set_string(st, "skip rows", g.pick({"1", "0,2", "1,2,3", "x", "", ",", "99999999999999999999", "-1", "1,,2"}));
    if (g.chance(1, 2))
        da_datastore_options_set_string(st, "datatype", g.pick({"auto", "float", "double", "integer", "string", "boolean"}));
    if (g.chance(1, 4))
        da_datastore_options_set_string(st, "storage order", g.pick({"row-major", "column-major"}));
}
template <class T, class F> static void read_array(Gen &g, const char *what, F f, const std::string &name, da_datastore st) {
    T *A = nullptr;
    da_int r = 0, c = 0;
    char **h = nullptr;
    bool head = g.flip();
    if (head)
        da_datastore_options_set_int(st, "use header row", 1);
    da_status s = f(st, name.c_str(), &A, &r, &c, &h);
    g.label(std::string(what) + (s == 0 ? " read" : " refused"));
    if (s == 0 || A) {
        REQUIRE(r >= 0 && c >= 0 && (A || (int64_t)r * c == 0), "dimensions", "%d x %d", (int)r, (int)c);
        // every element is there
        volatile size_t sum = 0;
        for (int64_t i = 0; i < (int64_t)r * c; i++)
            if constexpr (std::is_same_v<T, char *>)
                sum = sum + strlen(A[i]);
            else
                sum = sum + (A[i] == A[i]);
        if (h)
            for (da_int i = 0; i < c; i++)
                sum = sum + strlen(h[i]);
        if (s == 0)
            g.nontrivial();
        if constexpr (std::is_same_v<T, char *>)
            da_delete_string_array(&A, r * c);
        else
            free(A);
        if (h)
            da_delete_string_array(&h, c);
    }
}
PROPERTY(C04, csv_bytes, 20000, 400000, "the bytes were read as a table") {
    std::string b = csv_bytes(g), f = file("csv");
    g.note("%zu bytes", b.size());
    if (b.size() < 200) {
        std::string t;
        for (unsigned char c : b) {
            char x[8];
            snprintf(x, sizeof x, c < 32 || c > 126 ? "\\x%02x" : "%c", c);
            t += x;
        }
        g.note("%s", t.c_str());
    }
    spit(f, b);
    da_datastore st = nullptr;
    OK(da_datastore_init(&st));
    csv_options(g, st);
    int k = (int)g.below(7);
    if (k == 0)
        read_array<double>(g, "double", da_read_csv_d, f, st);
    else if (k == 1)
        read_array<float>(g, "float", da_read_csv_s, f, st);
    else if (k == 2)
        read_array<da_int>(g, "int", da_read_csv_int, f, st);
    else if (k == 3)
        read_array<uint8_t>(g, "bool", da_read_csv_uint8, f, st);
    else if (k == 4)
        read_array<char *>(g, "string", da_read_csv_string, f, st);
    else {
        da_status s = da_data_load_from_csv(st, f.c_str());
        g.label(s == 0 ? "store loaded" : "store refused");
        if (s == 0)
            g.nontrivial();
        da_int r = 0, c = 0;
        da_data_get_n_rows(st, &r);
        da_data_get_n_cols(st, &c);
        REQUIRE(s != 0 || (r >= 0 && c >= 0), "dimensions", "%d x %d", (int)r, (int)c);
        for (da_int j = 0; j < std::min<da_int>(c, 20); j++) {
            std::vector<double> d(r + 1);
            std::vector<da_int> in(r + 1);
            std::vector<char *> ss(r + 1);
            if (r > 0) {
                da_data_extract_column_real_d(st, j, r, d.data());
                da_data_extract_column_int(st, j, r, in.data());
                if (da_data_extract_column_str(st, j, r, ss.data()) == 0) {
                    volatile size_t sum = 0;
                    for (da_int i = 0; i < r; i++)
                        sum = sum + strlen(ss[i]);
                }
            }
            da_data_select_columns(st, "s", j, j);
        }
    }
    da_datastore_destroy(&st);
    unlink(f.c_str());
}

// what a program does with a model it has just loaded, short of inference
static void poke(da_handle h) {
    da_int iv;
    char buf[64];
    da_int len = sizeof buf;
    double d;
    float s;
    da_options_get_int(h, "seed", &iv);
    da_options_get_string(h, "storage order", buf, &len);
    da_options_get_real_d(h, "alpha", &d);
    da_options_get_real_s(h, "alpha", &s);
    da_options_set_string(h, "check data", "yes");
    char *msg = nullptr;
    da_handle_get_error_message(h, &msg);
    free(msg);
    da_int dim = 1, flag = 0;
    da_handle_get_result_int(h, da_trained, &dim, &flag);
}
static da_status load(Gen &g, const std::vector<char> &b, da_handle *h) {
    if (g.flip()) {
        // exactly as many bytes as there are
        std::unique_ptr<char[]> p(new char[b.size() + 1]);
        char *q = (char *)malloc(b.size() ? b.size() : 1);
        if (b.size()) memcpy(q, b.data(), b.size());
        da_status s = da_handle_load_model(h, q, b.size());
        free(q);
        return s;
    }
    std::string f = file("model");
    spit(f, std::string(b.begin(), b.end()));
    if (g.chance(1, 4)) { // metadata only
        fflush(stdout);
        da_print_model_metadata(f.c_str());
    }
    da_status s = da_handle_load_model(h, f.c_str());
    unlink(f.c_str());
    return s;
}
template <class T> static std::vector<char> model_bytes(Gen &g, std::string &text) {
    da_handle_type t = SAVABLE[g.below(9)];
    Model<T> m = Model<T>::gen(g, t);
    text = m.text();
    g.label(hname(t));
    Handle h;
    init<T>(h, t);
    std::vector<char> b;
    if (m.build(h) != 0 || da_handle_save_model(h, b) != 0)
        throw pbt::Discard();
    return b;
}
static std::vector<char> any_model(Gen &g) {
    std::string t;
    auto b = g.flip() ? model_bytes<double>(g, t) : model_bytes<float>(g, t);
    g.note("%s, %zu bytes", t.c_str(), b.size());
    return b;
}
PROPERTY(C04, truncated_model, 2000, 30000, "a proper prefix of a saved model") {
    Threads th(1);
    auto b = any_model(g);
    // short prefixes cut the header, others anything
    size_t n = g.flip() ? g.below(std::min<size_t>(b.size(), 120)) : g.flip() ? b.size() - 1 - g.below(std::min<size_t>(b.size() - 1, 40)) : g.below(b.size());
    g.note("first %zu bytes", n);
    b.resize(n);
    da_handle h = nullptr;
    da_status s = load(g, b, &h);
    REQUIRE(s != 0, "truncated", "the first %zu bytes were loaded as a model", n);
    if (h)
        poke(h);
    da_handle_destroy(&h);
    g.nontrivial();
}
PROPERTY(C04, changed_model, 12000, 400000, "a saved model with bytes changed, added or removed") {
    Threads th(1);
    auto b = any_model(g);
    int edits = (int)g.range(1, 4);
    for (int e = 0; e < edits; e++) {
        size_t at = g.chance(1, 3) ? g.below(std::min<size_t>(b.size(), 100)) : g.below(b.size());
        switch ((int)g.below(6)) {
        case 0:
            b[at] = (char)g.below(256);
            break;
        case 1:
            b[at] ^= (char)(1 << g.below(8));
            break;
        case 2:
        case 3: { // a count
            int64_t v = g.pick<int64_t>({0, 1, -1, 2, 255, 65536, 1 << 30, INT32_MAX, INT32_MIN, (int64_t)1 << 32, ((int64_t)1 << 31) + 1, INT64_MAX, INT64_MIN, (int64_t)1 << 60, (int64_t)1 << 61});
            if (at + 8 <= b.size())
                memcpy(&b[at], &v, 8);
            break;
        }
        case 4: {
            size_t k = g.range(1, 16);
            if (g.flip())
                b.insert(b.begin() + at, k, (char)g.below(256));
            else
                b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + k));
            break;
        }
        default: { // a piece from elsewhere
            size_t from = g.below(b.size()), k = std::min<size_t>(g.range(1, 64), std::min(b.size() - from, b.size() - at));
            std::vector<char> p(b.begin() + from, b.begin() + from + k);
            std::copy(p.begin(), p.end(), b.begin() + at);
        }
        }
        if (b.empty())
            break;
    }
    da_handle h = nullptr;
    da_status s = load(g, b, &h);
    g.label(s == 0 ? "loaded" : "refused");
    if (h) {
        poke(h);
        g.label("handle");
    }
    da_handle_destroy(&h);
    REQUIRE(h == nullptr, "destroy", "handle not null");
    g.nontrivial();
}
PROPERTY(C04, header_of_model, 600, 8000, "a saved model whose header says otherwise") {
    // the keyword, the version and the type of handle decide before anything else is read
    Threads th(1);
    auto b = any_model(g);
    int64_t len;
    memcpy(&len, b.data(), 8);
    REQUIRE(len > 0 && len < 100, "keyword", "length %lld", (long long)len);
    size_t is = 8 + len, ver = is + 8, type = ver + 8;
    int what = (int)g.below(5);
    bool refuse = true;
    auto put = [&](size_t at, int64_t v) { memcpy(&b[at], &v, 8); };
    auto get = [&](size_t at) {
        int64_t v;
        memcpy(&v, &b[at], 8);
        return v;
    };
    if (what == 0) {
        size_t at = g.below(is);
        b[at] = (char)(b[at] + 1 + g.below(254));
        g.note("byte %zu of the keyword", at);
    } else if (what == 1) {
        int64_t v = g.pick<int64_t>({0, 1, 2, 3, 5, 7, 16, -1, -8, 127});
        put(is, v);
        g.note("integer size %lld", (long long)v);
    } else if (what == 2) {
        int64_t was = get(ver), v = g.flip() ? g.range(-3, 12) : g.pick<int64_t>({INT32_MAX, INT32_MIN, 100, 1000000});
        if (v == was)
            v = was + 1;
        put(ver, v);
        g.note("version %lld instead of %lld", (long long)v, (long long)was);
    } else if (what == 3) {
        size_t at = type + g.below(8);
        b[at] = (char)(b[at] + 1 + g.below(254));
        refuse = false;
        g.note("byte %zu", at);
    } else {
        // the size of handle types in the file is that of their integer
        size_t at = type;
        while (at < type + 9 && !(get(at) == 4 || get(at) == 8))
            at++;
        bool found = at < type + 9;
        if (!found)
            throw pbt::Discard();
        int64_t v = g.pick<int64_t>({0, 1, 2, 3, 5, 16, -4, -8});
        if (g.flip())
            v = 12 - get(at);
        g.note("precision %lld instead of %lld", (long long)v, (long long)get(at));
        put(at, v);
    }
    da_handle h = nullptr;
    da_status s = load(g, b, &h);
    bool known = s == 0 || s == da_status_io_error || s == da_status_invalid_file_data || s == da_status_version_mismatch || s == da_status_memory_error || s == da_status_invalid_input || s == da_status_wrong_type || s == da_status_internal_error || s == da_status_not_implemented || s == da_status_incompatible_options || s == da_status_invalid_option || s == da_status_option_invalid_value;
    g.label("status " + std::to_string((int)s));
    REQUIRE(known, "status", "status %d", (int)s);
    if (refuse)
        REQUIRE(s != 0, "header", "loaded nevertheless");
    if (h)
        poke(h);
    da_handle_destroy(&h);
    g.nontrivial();
}
PROPERTY(C04, any_bytes_as_model, 3000, 100000, "bytes that were not a saved model") {
    std::vector<char> b;
    static std::vector<char> head;
    if (head.empty()) {
        Gen s;
        s.rng = 7;
        Handle h;
        init<double>(h, da_handle_pca);
        Mat<double> x(6, 2, column_major, 0);
        for (int i = 0; i < 6; i++)
            x(i, 0) = i * i, x(i, 1) = i % 3;
        OK(da_pca_set_data_d(h, 6, 2, x.data(), x.ld));
        OK(da_pca_compute_d(h));
        OK(da_handle_save_model(h, head));
    }
    if (g.flip())
        b.assign(head.begin(), head.begin() + g.range(0, 90));
    size_t n = (size_t)g.size(0, 300);
    for (size_t i = 0; i < n; i++)
        b.push_back(g.flip() ? (char)g.below(4) : (char)g.below(256));
    da_handle h = nullptr;
    da_status s = load(g, b, &h);
    REQUIRE(s != 0, "bytes", "%zu random bytes were loaded as a model", b.size());
    if (h)
        poke(h);
    da_handle_destroy(&h);
    g.nontrivial();
}
