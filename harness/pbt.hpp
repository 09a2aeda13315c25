// A small property-based testing engine: every random choice of a case is one entry of
// a "tape". A tape generates, replays and shrinks a case; it is the replay file.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string tag, msg;
};

struct Discard {};

inline uint64_t mix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Gen {
  public:
    // generation
    uint64_t rng = 0;
    // replay
    const std::vector<uint64_t> *in = nullptr;
    size_t pos = 0;
    // recording (shared memory, so that it survives a crash)
    uint64_t *rec = nullptr;
    uint64_t *rec_n = nullptr;
    size_t rec_cap = 0;
    // classification
    bool nontriv = false;
    std::map<std::string, long> *labels = nullptr;
    std::string desc;
    char *shm_desc = nullptr; // survives a crash
    uint64_t hash = 1469598103934665603ull;
    bool thorough = false;

    // uniform in [0, n); 0 is the simplest value
    uint64_t below(uint64_t n) {
        uint64_t v;
        if (n <= 1)
            return 0;
        if (in) {
            v = pos < in->size() ? (*in)[pos] : 0;
            pos++;
            if (v >= n)
                v = n - 1;
        } else {
            v = n == 0 ? mix(rng) : mix(rng) % n;
        }
        if (rec && *rec_n < rec_cap)
            rec[(*rec_n)++] = v;
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; false is simpler
    bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
    bool flip() { return below(2) == 1; }
    template <class C> auto pick(const C &c) -> typename C::value_type {
        return c[below(c.size())];
    }
    template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
    // small sizes more often than large ones
    int64_t size(int64_t lo, int64_t hi) {
        int64_t span = hi - lo;
        switch (below(4)) {
        case 0:
            return lo + (int64_t)below(std::min<int64_t>(span, 4) + 1);
        case 1:
            return lo + (int64_t)below(std::min<int64_t>(span, 12) + 1);
        default:
            return lo + (int64_t)below(span + 1);
        }
    }
    double unit() { return (double)below(1ull << 40) / (double)(1ull << 40); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double normal() {
        double u = unit(), v = unit();
        return std::sqrt(-2 * std::log(1 - u)) * std::cos(6.283185307179586 * v);
    }
    void label(const std::string &s) {
        if (labels)
            (*labels)[s]++;
    }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (desc.size() > 600)
            return;
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!desc.empty())
            desc += ' ';
        desc += buf;
        if (shm_desc)
            snprintf(shm_desc, 700, "%s", desc.c_str());
    }
};

[[noreturn]] inline void fail(const std::string &tag, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
inline void fail(const std::string &tag, const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Failure{tag, buf};
}
#define REQUIRE(cond, tag, ...)                                                          \
    do {                                                                                 \
        if (!(cond))                                                                     \
            pbt::fail(tag, __VA_ARGS__);                                                 \
    } while (0)

struct Test {
    const char *prop, *name;
    long quick, thorough; // number of cases
    void (*fn)(Gen &);
    const char *rule;     // how cases are made and what makes one non-trivial
};
std::vector<Test> &tests();
struct Reg {
    Reg(Test t) { tests().push_back(t); }
};
#define PROPERTY(prop, name, quick, thorough, rule)                                      \
    static void prop##_##name(pbt::Gen &);                                               \
    static pbt::Reg reg_##prop##_##name(                                                 \
        {#prop, #name, quick, thorough, prop##_##name, rule});                           \
    static void prop##_##name(pbt::Gen &g)

// A recorded genuine defect, identified by one fixed input: probe() is true if it still
// fails. The generators leave the class of inputs out (see the harness).
struct Finding {
    const char *prop, *id, *what;
    bool (*probe)();
};
std::vector<Finding> &findings();
struct FReg {
    FReg(Finding f) { findings().push_back(f); }
};

inline bool close(double a, double b, double rtol, double atol) {
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

} // namespace pbt
