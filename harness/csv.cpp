// C03: what a CSV file says is what is read.
// A table of typed cells is generated, written out in a generated dialect (delimiter,
// quotes, escapes, comments, skipped and empty lines, line ends, byte order mark, number
// formats) and read back through the public interface.
#include "pbt_main.cpp"
#include "da.hpp"
#include <cfloat>
#include <unistd.h>

using std::string;
using std::vector;

enum Kind { INT, BIG, FP, BOOL, STR, EMPTY };

struct Cell {
    Kind kind = EMPTY;
    string raw;       // the field's characters
    double d = 0;     // its value
    da_int i = 0;
    bool sub = false; // too small for full relative precision (in double or in float)
    bool fl = true;   // in the range of float
};

struct Dialect {
    char delim = ',', quote = '"', escape = '\\', comment = '#', thousands = 0, decimal = '.', sci = 'e', term = 0;
    string eol = "\n";
    bool dbl = false, white = false, skip_empty = false, skip_init = false, footer = false, header = false, row_major = false;
    bool warn = false;
    int row_start = 0;
    vector<int> skips;
};

static bool special(const Dialect &D, char c) {
    return c == D.delim || c == D.quote || c == D.escape || c == D.comment || c == D.term || c == '\n' || c == '\r' || (D.white && (c == ' ' || c == '\t'));
}

static string digits(Gen &g, int n) {
    string s;
    for (int i = 0; i < n; i++)
        s += (char)('0' + g.below(10));
    return s;
}

static string group(Gen &g, const Dialect &D, const string &s) {
    if (!D.thousands || g.flip())
        return s;
    string out;
    for (size_t i = 0; i < s.size(); i++) {
        if (i && (s.size() - i) % 3 == 0)
            out += D.thousands;
        out += s[i];
    }
    return out;
}

static string pad(Gen &g, const Dialect &D, const string &s) {
    if (g.chance(7, 8))
        return s;
    static const char *w[] = {" ", "  ", "\t"};
    string b = w[g.below(3)], a = w[g.below(3)];
    return (g.flip() ? b : "") + s + (g.flip() ? a : "");
}

static Cell make_cell(Gen &g, const Dialect &D, Kind k) {
    Cell c;
    c.kind = k;
    switch (k) {
    case INT:
    case BIG: {
        string s;
        if (k == INT) {
            switch (g.below(4)) {
            case 0: s = std::to_string(g.range(0, 99)); break;
            case 1: s = std::to_string(g.below(2147483648ull)); break;
            case 2: s = "2147483647"; break;
            default: s = string(g.range(1, 20), '0') + std::to_string(g.below(100000));
            }
        } else {
            s = std::to_string(2147483649ull + g.below(1) + (g.flip() ? g.below(1000000000000000ull) : 0));
        }
        bool neg = g.flip();
        if (k == INT && s == "2147483647" && neg && g.flip())
            s = "2147483648";
        c.d = strtod(((neg ? "-" : "") + s).c_str(), nullptr);
        c.i = k == INT ? (da_int)c.d : 0;
        c.raw = pad(g, D, (neg ? "-" : g.chance(1, 5) ? "+" : "") + group(g, D, s));
        break;
    }
    case FP: {
        // a plain text and the same text in the dialect
        string ip, fp, ex;
        int shape = g.below(6);
        if (shape == 0) { // ordinary
            ip = std::to_string(g.below(1000));
            fp = digits(g, g.range(1, 4));
        } else if (shape == 1) { // many digits
            ip = digits(g, g.range(1, 12));
            fp = digits(g, g.range(1, 25));
        } else if (shape == 2) { // small with leading zeros
            ip = g.flip() ? "0" : g.flip() ? "" : string(g.range(1, 12), '0');
            fp = string(g.range(0, 25), '0') + digits(g, g.range(1, 20));
        } else { // with an exponent
            ip = std::to_string(g.below(10000));
            if (g.flip())
                fp = digits(g, g.range(0, 12));
            int e = g.flip() ? g.range(0, 5) : g.flip() ? g.range(0, 33) : g.range(0, 300);
            ex = (g.flip() ? "-" : g.flip() ? "+" : "") + string(g.chance(1, 6) ? g.range(1, 3) : 0, '0') + std::to_string(e);
        }
        bool point = !fp.empty() || ex.empty() || g.chance(1, 4);
        if (ip.empty() && fp.empty())
            ip = "0";
        bool neg = g.flip();
        string plain = (neg ? "-" : "") + ip + (point ? "." + fp : "") + (ex.empty() ? "" : "e" + ex);
        c.d = strtod(plain.c_str(), nullptr);
        double a = std::fabs(c.d);
        c.fl = a <= 3.4e38;
        if (!c.fl && a < 3.5e38)
            return make_cell(g, D, INT);
        c.sub = a != 0 && a < 1e-290;
        char s = g.flip() ? toupper(D.sci) : D.sci;
        c.raw = pad(g, D, (neg ? "-" : g.chance(1, 6) ? "+" : "") + group(g, D, ip) + (point ? D.decimal + fp : "") + (ex.empty() ? "" : s + ex));
        break;
    }
    case BOOL: {
        c.i = g.flip();
        c.raw = c.i ? "TRUE" : "FALSE";
        for (char &ch : c.raw)
            if (g.flip())
                ch = tolower(ch);
        c.raw = pad(g, D, c.raw);
        break;
    }
    case STR: {
        if (g.chance(1, 3)) { // nearly something else
            static const char *w[] = {"12abc", "2020-01-02", "10:30", "1e5x", "TRUEx", "true story", "1 2", "--3", "+-3", "0x1f", "nan", "-", "1e", "1e+", "falsehood", "+", "false,false"};
            c.raw = w[g.below(17)];
        } else {
            c.raw = string(1, "ghxyz_"[g.below(6)]);
            int n = g.size(0, 12);
            static const char alpha[] = "ab\" ,;#\\'\t\n\r|:.-1\xc3\xa9$%";
            for (int i = 0; i < n; i++)
                c.raw += alpha[g.below(sizeof alpha - 1)];
            c.raw += "kz9"[g.below(3)]; // white space at the end is not kept
        }
        break;
    }
    case EMPTY:
        break;
    }
    return c;
}

// the field as written
static string field(Gen &g, const Dialect &D, const Cell &c, bool must, bool last) {
    bool q = must || c.raw.empty() ? (must || g.flip()) : g.chance(1, 5);
    if (D.white && c.raw.empty())
        q = true;
    bool sp = false;
    for (char ch : c.raw)
        sp = sp || special(D, ch);
    if (!D.white && D.skip_init && !c.raw.empty() && c.raw[0] == ' ')
        sp = true; // would be eaten, harmlessly
    string lead = (!D.white && D.skip_init && g.chance(1, 3)) ? string(g.range(1, 2), ' ') : "";
    bool escaped = sp && !D.white && D.escape && g.chance(1, 4); // unquoted, every special character escaped
    if (escaped && !q) {
        string s;
        for (char ch : c.raw) {
            if (special(D, ch))
                s += D.escape;
            s += ch;
        }
        return lead + s;
    }
    if (!q && !sp)
        return lead + c.raw;
    string s(1, D.quote);
    for (char ch : c.raw) {
        if (ch == D.quote)
            s += D.dbl && (!D.escape || g.flip()) ? D.quote : D.escape;
        else if (D.escape && ch == D.escape)
            s += D.escape;
        s += ch;
    }
    return lead + s + D.quote;
}

static string readable(const string &s) {
    string o;
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '\n')
            o += "\\n";
        else if (ch == '\r')
            o += "\\r";
        else if (ch == '\t')
            o += "\\t";
        else if (ch < 32 || ch > 126) {
            snprintf(b, 8, "\\x%02x", ch);
            o += b;
        } else
            o += ch;
    }
    return o;
}

struct File {
    char path[64];
    File(const string &content) {
        snprintf(path, sizeof path, "/tmp/pbtcsv.%d", (int)getpid());
        FILE *f = fopen(path, "wb");
        if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) {
            perror("scratch file");
            _exit(3);
        }
        fclose(f);
    }
    ~File() { unlink(path); }
};

struct Case {
    Dialect D;
    vector<vector<Cell>> T; // as the reader should see it
    vector<Cell> head;
    string text;
    int m, n;
    string desc;
};

static Dialect make_dialect(Gen &g) {
    Dialect D;
    D.header = g.flip();
    D.row_major = g.flip();
    D.warn = g.chance(1, 3);
    D.skip_empty = g.flip();
    D.dbl = g.chance(1, 3);
    D.skip_init = g.chance(1, 4);
    D.footer = g.chance(1, 6);
    D.white = g.chance(1, 7);
    if (g.chance(1, 3))
        D.delim = g.pick({';', '|', ':', '!', '\t', ' '});
    if (D.delim == ' ')
        D.skip_init = false;
    if (g.chance(1, 6))
        D.quote = '\'';
    if (g.chance(1, 6))
        D.escape = g.pick({'~', '^'});
    if (g.chance(1, 6))
        D.comment = g.pick({'%', '$'});
    if (g.chance(1, 5))
        D.decimal = ',';
    if (g.chance(1, 4))
        D.thousands = g.pick({'_', '`'});
    else if (g.chance(1, 6))
        D.thousands = D.decimal == ',' ? '.' : ',';
    if (g.chance(1, 6))
        D.sci = g.pick({'d', 'p'});
    switch (g.below(8)) {
    case 0: D.eol = "\r\n"; break;
    case 1: D.eol = "\r"; break;
    case 2:
        D.term = g.pick({'&', '@'});
        D.eol = string(1, D.term);
        break;
    default: break;
    }
    if (g.chance(1, 5))
        D.row_start = g.range(1, 3);
    return D;
}

static string junk_line(Gen &g, const Dialect &D) {
    // a line that is not to be read, possibly odd but without open quotes
    string s;
    int n = g.size(0, 10);
    static const char alpha[] = "a1,;|: .#%-";
    for (int i = 0; i < n; i++)
        s += alpha[g.below(sizeof alpha - 1)];
    if (g.chance(1, 4)) {
        s += D.white ? ' ' : D.delim;
        s += string(1, D.quote) + "x" + (g.flip() ? D.eol : "y") + string(1, D.quote);
    }
    string o;
    for (char c : s)
        if (c != D.term || D.term == 0 || c == D.eol[0])
            o += c;
    return o;
}

static Case make_case(Gen &g, bool quiet_missing = false) {
    Case C;
    C.D = make_dialect(g);
    Dialect &D = C.D;
    C.m = g.size(1, 12);
    C.n = g.size(1, 6);
    // column kinds
    vector<int> ck(C.n);
    for (int &k : ck)
        k = g.below(8);
    auto cell = [&](int col) {
        int k = ck[col];
        if (g.chance(1, 25) && !quiet_missing)
            return make_cell(g, D, EMPTY);
        switch (k) {
        case 0: return make_cell(g, D, INT);
        case 1: return make_cell(g, D, FP);
        case 2: return make_cell(g, D, STR);
        case 3: return make_cell(g, D, BOOL);
        case 4: return make_cell(g, D, g.chance(1, 3) ? FP : INT);
        case 5: return make_cell(g, D, g.chance(1, 6) ? BIG : INT);
        case 6: return make_cell(g, D, g.chance(1, 5) ? BOOL : INT);
        default: return make_cell(g, D, (Kind)g.below(6));
        }
    };
    for (int i = 0; i < C.m; i++) {
        C.T.emplace_back();
        for (int j = 0; j < C.n; j++)
            C.T[i].push_back(cell(j));
    }
    int lineno = 0; // as the reader counts: records, comments, empty lines
    string &t = C.text;
    if (g.chance(1, 10))
        t += "\xef\xbb\xbf";
    for (int k = 0; k < D.row_start; k++) {
        t += junk_line(g, D) + D.eol;
        lineno++;
    }
    auto extras = [&](bool allow_comment = true) {
        while (g.chance(1, 8)) {
            int k = g.below(3);
            if (k == 0 && D.comment && allow_comment) {
                t += D.comment;
                int n = g.size(0, 8);
                for (int i = 0; i < n; i++)
                    t += "a,\"1 #;\\'"[g.below(9)];
                t += D.eol;
                lineno++;
            } else if (k == 1 && D.skip_empty) {
                if (!D.white || g.flip())
                    t += g.flip() ? string(g.range(1, 3), D.delim != ' ' && (D.delim == '\t' || g.flip()) ? ' ' : '\t') : "";
                t += D.eol;
                lineno++;
            } else if (k == 2) {
                D.skips.push_back(lineno);
                t += junk_line(g, D) + D.eol;
                lineno++;
            }
        }
    };
    if (g.chance(1, 40)) { // push the rest over a buffer's edge
        t += D.comment + string(262144 - g.range(1, 60) - t.size(), 'c') + D.eol;
        lineno++;
        g.label("crosses the read buffer");
    }
    extras();
    if (D.header) {
        for (int j = 0; j < C.n; j++) {
            Cell c = make_cell(g, D, g.chance(1, 8) ? INT : STR);
            if (g.flip()) {
                c.kind = STR;
                c.raw = "col" + std::to_string(j);
            }
            C.head.push_back(c);
        }
    }
    vector<vector<Cell>> rows;
    if (D.header)
        rows.push_back(C.head);
    for (auto &r : C.T)
        rows.push_back(r);
    if (D.footer) {
        vector<Cell> f;
        for (int j = 0; j < C.n; j++)
            f.push_back(make_cell(g, D, (Kind)g.below(6)));
        rows.push_back(f);
    }
    for (size_t i = 0; i < rows.size(); i++) {
        string line;
        bool lastrow = i + 1 == rows.size();
        bool lead_blank = false;
        if (D.white && g.chance(1, 6)) {
            line += string(g.range(1, 2), ' ');
            lead_blank = true;
        }
        (void)lead_blank;
        // cells left out at the end of a line are missing
        int n = C.n;
        bool tail = i > 0;
        for (int j = 0; j < C.n; j++)
            ;
        while (tail && n > 1 && rows[i][n - 1].kind == EMPTY && g.flip())
            n--;
        for (int j = 0; j < n; j++) {
            if (j)
                line += D.white ? string(g.range(1, 2), g.flip() ? ' ' : '\t') : string(1, D.delim);
            bool all_empty = j == 0 && n == 1;
            bool blank0 = j == 0 && D.skip_empty;
            const Cell &c = rows[i][j];
            bool must = all_empty && c.raw.empty();
            // with empty lines skipped a line must not look empty
            if (blank0 && n == 1 && c.raw.find_first_not_of(" \t") == string::npos)
                must = true;
            line += field(g, D, c, must, lastrow && j == n - 1);
        }
        if (D.white && g.chance(1, 6))
            line += " ";
        if (D.comment && g.chance(1, 10))
            line += string(1, D.comment) + "note, " + (g.flip() ? "\"x" : "");
        t += line;
        lineno++;
        if (!lastrow || g.chance(3, 4)) {
            t += D.eol;
            if (!lastrow || !D.footer || true)
                extras();
        }
    }
    C.desc = readable(C.text.substr(0, 10000).size() > 1500 ? C.text.substr(C.text.size() - 1500) : C.text);
    g.note("file (%zu bytes): %s", C.text.size(), C.desc.c_str());
    g.note("delim %c quote %c esc %c comment %c tsep %d dec %c sci %c eol %s term %d dbl %d white %d skipempty %d skipinit %d footer %d header %d rowmaj %d warn %d rowstart %d", D.delim, D.quote, D.escape, D.comment, D.thousands, D.decimal, D.sci, readable(D.eol).c_str(), D.term, D.dbl, D.white, D.skip_empty, D.skip_init, D.footer, D.header, D.row_major, D.warn, D.row_start);
    string s;
    for (int k : D.skips)
        s += std::to_string(k) + " ";
    if (!s.empty())
        g.note("skip rows %s", s.c_str());
    return C;
}

struct Reader {
    da_datastore h = nullptr;
    Reader() { OK(da_datastore_init(&h)); }
    ~Reader() { da_datastore_destroy(&h); }
    void str(const char *o, const string &v) { REQUIRE(da_datastore_options_set_string(h, o, v.c_str()) == da_status_success, "option", "setting %s to '%s' failed", o, v.c_str()); }
    void integer(const char *o, da_int v) { REQUIRE(da_datastore_options_set_int(h, o, v) == da_status_success, "option", "setting %s to %d failed", o, (int)v); }
    void set(Gen &g, const Dialect &D) {
        auto ch = [](char c) { return c ? string(1, c) : string(); };
        str("delimiter", ch(D.delim));
        str("quote character", ch(D.quote));
        str("escape character", ch(D.escape));
        str("comment", ch(D.comment));
        str("thousands", ch(D.thousands));
        str("decimal", ch(D.decimal));
        str("scientific notation character", ch(D.sci));
        str("line terminator", ch(D.term));
        integer("double quote", D.dbl);
        integer("whitespace delimiter", D.white);
        integer("skip empty lines", D.skip_empty);
        integer("skip initial space", D.skip_init);
        integer("skip footer", D.footer);
        integer("use header row", D.header);
        integer("warn for missing data", D.warn);
        integer("row start", D.row_start);
        str("storage order", D.row_major ? "row-major" : "column-major");
        string s;
        for (int k : D.skips)
            s += (s.empty() ? "" : g.flip() ? ", " : g.flip() ? " " : ",") + std::to_string(k);
        str("skip rows", s);
    }
};

static string rtrim(const string &s, const Dialect &D) {
    string r = s;
    while (!r.empty() && isspace((unsigned char)r.back()))
        r.pop_back();
    if (D.skip_init) {
        size_t k = 0;
        while (k < r.size() && isspace((unsigned char)r[k]))
            k++;
        r = r.substr(k);
    }
    return r;
}

template <class T> struct tag {};
static da_status rd(da_datastore s, const char *f, double **A, da_int *m, da_int *n, char ***h) { return da_read_csv_d(s, f, A, m, n, h); }
static da_status rd(da_datastore s, const char *f, float **A, da_int *m, da_int *n, char ***h) { return da_read_csv_s(s, f, A, m, n, h); }
static da_status rd(da_datastore s, const char *f, da_int **A, da_int *m, da_int *n, char ***h) { return da_read_csv_int(s, f, A, m, n, h); }
static da_status rd(da_datastore s, const char *f, uint8_t **A, da_int *m, da_int *n, char ***h) { return da_read_csv_uint8(s, f, A, m, n, h); }
static da_status rd(da_datastore s, const char *f, char ***A, da_int *m, da_int *n, char ***h) { return da_read_csv_string(s, f, A, m, n, h); }

// is the cell of type T, and does x hold its value?
static bool valid(const Cell &c, double) { return c.kind == INT || c.kind == BIG || c.kind == FP; }
static bool valid(const Cell &c, float) { return (c.kind == INT || c.kind == BIG || c.kind == FP) && c.fl; }
static bool valid(const Cell &c, da_int) { return c.kind == INT; }
static bool valid(const Cell &c, uint8_t) { return c.kind == BOOL; }
static bool valid(const Cell &, char *) { return true; }
static bool near(const Cell &c, const Dialect &, double x) {
    return std::fabs(x - c.d) <= 4 * DBL_EPSILON * std::fabs(c.d) + (c.sub ? 1e-305 : 0);
}
static bool near(const Cell &c, const Dialect &, float x) {
    return std::fabs((double)x - c.d) <= 6 * (double)FLT_EPSILON * std::fabs(c.d) + (std::fabs(c.d) < 1e-35 ? 1e-42 : 0);
}
static bool near(const Cell &c, const Dialect &, da_int x) { return x == c.i; }
static bool near(const Cell &c, const Dialect &, uint8_t x) { return x == c.i; }
static bool near(const Cell &c, const Dialect &D, char *x) { return x && rtrim(c.raw, D) == rtrim(x, D) && strlen(x) <= std::max<size_t>(1, rtrim(c.raw, D).size()); }
static bool missing(double x) { return std::isnan(x); }
static bool missing(float x) { return std::isnan(x); }
static bool missing(da_int x) { return x == std::numeric_limits<da_int>::max(); }
static bool missing(uint8_t x) { return x == 255; }
static bool missing(char *) { return false; }
static string show(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }
static string show(float x) { return show((double)x); }
static string show(da_int x) { return show((double)x); }
static string show(uint8_t x) { return show((double)x); }
static string show(char *x) { return x ? readable(x) : "(null)"; }
template <class T> static void dispose(T *&A, da_int) { free(A); A = nullptr; }
static void dispose(char **&A, da_int n) { if (A) da_delete_string_array(&A, n); A = nullptr; }

static void check_head(const Case &C, char **h) {
    REQUIRE(h != nullptr, "headings", "no headings returned");
    for (int j = 0; j < C.n; j++)
        REQUIRE(h[j] && rtrim(C.head[j].raw, C.D) == rtrim(h[j], C.D), "headings", "heading %d is '%s', the file says '%s'", j, h[j] ? readable(h[j]).c_str() : "(null)", readable(C.head[j].raw).c_str());
}

template <class T> static void read_typed(Gen &g, const Case &C, Reader &R, const char *path) {
    T *A = nullptr;
    da_int m = -7, n = -7;
    char **h = nullptr;
    bool bad = false;
    for (auto &r : C.T)
        for (auto &c : r)
            bad = bad || !valid(c, T());
    da_status st = rd(R.h, path, &A, &m, &n, &h);
    if (bad && !C.D.warn) {
        REQUIRE(st == da_status_parsing_error, "bad-cell", "a cell that is not of the type read: status %d", (int)st);
        REQUIRE(A == nullptr, "bad-cell", "refused, but an array was returned");
        g.label("unparsable cell refused");
        if (h)
            da_delete_string_array(&h, C.n);
        return;
    }
    REQUIRE(st == (bad ? da_status_missing_data : da_status_success), "read", "status %d (%s)", (int)st, bad ? "some cell is missing" : "every cell is readable");
    REQUIRE(m == C.m && n == C.n, "shape", "%d x %d read, the file has %d x %d", (int)m, (int)n, C.m, C.n);
    for (int i = 0; i < C.m; i++)
        for (int j = 0; j < C.n; j++) {
            const Cell &c = C.T[i][j];
            T x = C.D.row_major ? A[i * C.n + j] : A[i + (size_t)C.m * j];
            if (valid(c, T()))
                REQUIRE(near(c, C.D, x), "value", "row %d column %d: '%s' was read as %s", i, j, readable(c.raw).c_str(), show(x).c_str());
            else
                REQUIRE(missing(x), "missing", "row %d column %d: '%s' was read as %s, not as missing", i, j, readable(c.raw).c_str(), show(x).c_str());
        }
    dispose(A, m * n);
    if (C.D.header) {
        check_head(C, h);
        da_delete_string_array(&h, n);
    }
    g.label(bad ? "with missing data" : "all read");
    g.nontrivial(C.m * C.n > 3);
}

static void coerce(Gen &g, Case &C, int t) {
    // most cells of a case made for one type are of that type: regenerate is done by the caller
    (void)g;
    (void)C;
    (void)t;
}

PROPERTY(C03, typed_read, 40000, 1000000, "more than three cells, written in a generated dialect") {
    Case C = make_case(g);
    Reader R;
    R.set(g, C.D);
    File f(C.text);
    int rounds = g.chance(1, 5) ? 2 : 1; // a reader is reused
    for (int r = 0; r < rounds; r++) {
        // choose a type all of whose cells are valid when possible
        int t = g.below(5);
        bool ok[5] = {true, true, true, true, true};
        for (auto &row : C.T)
            for (auto &c : row) {
                ok[0] = ok[0] && valid(c, 0.0);
                ok[1] = ok[1] && valid(c, 0.f);
                ok[2] = ok[2] && valid(c, (da_int)0);
                ok[3] = ok[3] && valid(c, (uint8_t)0);
            }
        if (!ok[t] && g.chance(2, 3))
            t = 4;
        static const char *nm[] = {"double", "float", "int", "bool", "string"};
        g.note("read as %s", nm[t]);
        g.label(nm[t]);
        switch (t) {
        case 0: read_typed<double>(g, C, R, f.path); break;
        case 1: read_typed<float>(g, C, R, f.path); break;
        case 2: read_typed<da_int>(g, C, R, f.path); break;
        case 3: read_typed<uint8_t>(g, C, R, f.path); break;
        default: read_typed<char *>(g, C, R, f.path); break;
        }
    }
    (void)coerce;
}

// tables of one type, so that typed reads mostly succeed
PROPERTY(C03, numbers, 40000, 1000000, "more than three numbers") {
    Case C;
    C.D = make_dialect(g);
    Dialect &D = C.D;
    D.header = D.footer = D.white = false;
    D.row_start = 0;
    D.skips.clear();
    C.m = g.size(1, 20);
    C.n = g.size(1, 4);
    int t = g.below(3);
    for (int i = 0; i < C.m; i++) {
        C.T.emplace_back();
        string line;
        for (int j = 0; j < C.n; j++) {
            Cell c = make_cell(g, D, t == 2 ? (g.chance(1, 30) ? BIG : INT) : g.chance(1, 4) ? INT : g.chance(1, 8) ? BIG : FP);
            if (t == 1 && !c.fl)
                c = make_cell(g, D, INT);
            C.T[i].push_back(c);
            line += (j ? string(1, D.delim) : "") + field(g, D, c, false, false);
        }
        C.text += line + D.eol;
    }
    g.note("file: %s", readable(C.text).c_str());
    g.note("delim %c tsep %d dec %c sci %c", D.delim, D.thousands, D.decimal, D.sci);
    Reader R;
    R.set(g, D);
    File f(C.text);
    if (t == 0)
        read_typed<double>(g, C, R, f.path);
    else if (t == 1)
        read_typed<float>(g, C, R, f.path);
    else
        read_typed<da_int>(g, C, R, f.path);
}

// into a data store, with a declared type or with automatic detection
enum CT { T_INT, T_FLOAT, T_DOUBLE, T_BOOL, T_STR };

template <class T> static da_status extract(da_datastore, da_int, da_int, T *);
template <> da_status extract(da_datastore h, da_int j, da_int d, da_int *p) { return da_data_extract_column_int(h, j, d, p); }
template <> da_status extract(da_datastore h, da_int j, da_int d, float *p) { return da_data_extract_column_real_s(h, j, d, p); }
template <> da_status extract(da_datastore h, da_int j, da_int d, double *p) { return da_data_extract_column_real_d(h, j, d, p); }
template <> da_status extract(da_datastore h, da_int j, da_int d, uint8_t *p) { return da_data_extract_column_uint8(h, j, d, p); }
template <> da_status extract(da_datastore h, da_int j, da_int d, char **p) { return da_data_extract_column_str(h, j, d, p); }

template <class T> static void check_col(const Case &C, da_datastore h, int j, bool miss_ok) {
    vector<T> v(C.m);
    da_status st = extract<T>(h, j, C.m, v.data());
    REQUIRE(st == da_status_success, "column-type", "column %d cannot be extracted with the type its cells call for (status %d)", j, (int)st);
    for (int i = 0; i < C.m; i++) {
        const Cell &c = C.T[i][j];
        if (valid(c, T()))
            REQUIRE(near(c, C.D, v[i]), "value", "row %d column %d: '%s' was read as %s", i, j, readable(c.raw).c_str(), show(v[i]).c_str());
        else
            REQUIRE(miss_ok && missing(v[i]), "value", "row %d column %d: '%s' was read as %s", i, j, readable(c.raw).c_str(), show(v[i]).c_str());
    }
}

PROPERTY(C03, data_store, 40000, 1000000, "at least two columns of different types, or a declared type") {
    Case C = make_case(g);
    Reader R;
    R.set(g, C.D);
    int declared = g.chance(1, 3) ? 1 + g.below(5) : 0;
    bool single = g.chance(1, 3), iafp = g.chance(1, 4);
    static const char *nm[] = {"auto", "integer", "float", "double", "boolean", "string"};
    R.str("datatype", nm[declared]);
    R.str("datastore precision", single ? "single" : "double");
    R.integer("integers as floats", iafp);
    g.note("datatype %s precision %s integers as floats %d", nm[declared], single ? "single" : "double", iafp);
    File f(C.text);
    bool bad = false;
    if (declared)
        for (auto &r : C.T)
            for (auto &c : r)
                bad = bad || !(declared == 1 ? valid(c, (da_int)0) : declared == 2 ? valid(c, 0.f) : declared == 3 ? valid(c, 0.0) : declared == 4 ? valid(c, (uint8_t)0) : true);
    da_status st = da_data_load_from_csv(R.h, f.path);
    if (bad && !C.D.warn) {
        REQUIRE(st == da_status_parsing_error, "bad-cell", "a cell that is not of the declared type: status %d", (int)st);
        da_int m = -1;
        REQUIRE(da_data_get_n_rows(R.h, &m) != da_status_success || m == 0, "bad-cell", "refused, but the store has %d rows", (int)m);
        g.label("refused");
        return;
    }
    REQUIRE(st == (bad ? da_status_missing_data : da_status_success), "read", "status %d (%s)", (int)st, bad ? "some cell is missing" : "every cell is readable");
    da_int m = -1, n = -1;
    OK(da_data_get_n_rows(R.h, &m));
    OK(da_data_get_n_cols(R.h, &n));
    REQUIRE(m == C.m && n == C.n, "shape", "%d x %d read, the file has %d x %d", (int)m, (int)n, C.m, C.n);
    std::map<int, int> types;
    for (int j = 0; j < C.n; j++) {
        int ct = declared == 1 ? T_INT : declared == 2 ? T_FLOAT : declared == 3 ? T_DOUBLE : declared == 4 ? T_BOOL : T_STR;
        if (!declared) {
            bool ints = true, nums = true, bools = true;
            for (int i = 0; i < C.m; i++) {
                const Cell &c = C.T[i][j];
                ints = ints && c.kind == INT;
                nums = nums && (single ? valid(c, 0.f) : valid(c, 0.0));
                bools = bools && c.kind == BOOL;
            }
            ct = ints && !iafp ? T_INT : nums ? (single ? T_FLOAT : T_DOUBLE) : bools ? T_BOOL : T_STR;
        }
        types[ct]++;
        switch (ct) {
        case T_INT: check_col<da_int>(C, R.h, j, bad); break;
        case T_FLOAT: check_col<float>(C, R.h, j, bad); break;
        case T_DOUBLE: check_col<double>(C, R.h, j, bad); break;
        case T_BOOL: check_col<uint8_t>(C, R.h, j, bad); break;
        default: check_col<char *>(C, R.h, j, bad);
        }
    }
    if (C.D.header)
        for (int j = 0; j < C.n; j++) {
            char buf[200];
            da_int sz = sizeof buf;
            OK(da_data_get_col_label(R.h, j, &sz, buf));
            REQUIRE(rtrim(buf, C.D) == rtrim(C.head[j].raw, C.D), "headings", "label of column %d is '%s', the file says '%s'", j, readable(buf).c_str(), readable(C.head[j].raw).c_str());
        }
    // a second load is refused and changes nothing
    if (g.chance(1, 6)) {
        REQUIRE(da_data_load_from_csv(R.h, f.path) == da_status_parsing_error, "reload", "a second load was not refused");
        da_int m2 = -1;
        OK(da_data_get_n_rows(R.h, &m2));
        REQUIRE(m2 == m, "reload", "a refused load changed the store");
    }
    g.label(declared ? "declared type" : types.size() > 1 ? "mixed types detected" : "one type detected");
    g.nontrivial(declared || types.size() > 1);
}

// files that must be refused, whatever came before in the same reader
PROPERTY(C03, refusals, 12000, 300000, "a file that breaks a rule is read") {
    Case C = make_case(g);
    C.D.footer = false;
    Reader R;
    R.set(g, C.D);
    string text = C.text;
    int how = g.below(4);
    da_status want = da_status_parsing_error;
    const char *what = "";
    string name;
    switch (how) {
    case 0: // the file ends inside quotes
        if (text.empty() || text.substr(text.size() - C.D.eol.size()) != C.D.eol)
            text += C.D.eol;
        text += string(1, C.D.quote) + "abc";
        what = "ends inside quotes";
        break;
    case 1: { // a line too long
        if (text.substr(text.size() - C.D.eol.size()) != C.D.eol)
            text += C.D.eol;
        for (int j = 0; j < C.n + (int)g.range(1, 3); j++)
            text += (j ? string(1, C.D.white ? ' ' : C.D.delim) : "") + "1";
        text += C.D.eol;
        what = "has a long line at its end";
        break;
    }
    case 2:
        what = "does not exist";
        want = da_status_file_reading_error;
        break;
    default:
        what = "is a directory";
        want = da_status_file_reading_error;
        name = "/proc";
    }
    g.note("the file %s", what);
    File f(text);
    if (how == 2)
        name = string(f.path) + ".absent";
    if (name.empty())
        name = f.path;
    char **A = nullptr, **h = nullptr;
    da_int m = 0, n = 0;
    da_status st = da_read_csv_string(R.h, name.c_str(), &A, &m, &n, &h);
    REQUIRE(st == want || (how == 3 && st == da_status_parsing_error), "refusal", "a file that %s: status %d", what, (int)st);
    REQUIRE(A == nullptr, "refusal", "refused, but an array was returned");
    if (h)
        da_delete_string_array(&h, n);
    st = da_data_load_from_csv(R.h, name.c_str());
    REQUIRE(st == want || (how == 3 && st == da_status_parsing_error), "refusal", "a file that %s loaded into a store: status %d", what, (int)st);
    g.label(what);
    g.nontrivial(true);
    // and then a good one
    File f2(C.text);
    C.D.footer = false;
    Case E;
    E.D = C.D;
    if (!C.D.header && C.D.skips.empty() && C.D.row_start == 0 && g.flip()) {
        string t = "1" + string(1, C.D.white ? ' ' : C.D.delim) + "2" + C.D.eol;
        File f3(t);
        da_int *B = nullptr;
        OK(da_read_csv_int(R.h, f3.path, &B, &m, &n, &h));
        REQUIRE(m == 1 && n == 2 && B[0] == 1 && B[1] == 2, "after-refusal", "a good file read after a refused one gives other values");
        free(B);
        g.label("good file read afterwards");
    }
}

// options changed between reads of the same reader
PROPERTY(C03, reused_reader, 12000, 300000, "two files in different dialects are read with one reader") {
    Reader R;
    int rounds = g.range(2, 3);
    for (int r = 0; r < rounds; r++) {
        Case C = make_case(g);
        R.set(g, C.D);
        File f(C.text);
        read_typed<char *>(g, C, R, f.path);
    }
}
