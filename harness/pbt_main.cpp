#include "pbt.hpp"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
using namespace pbt;

std::vector<Test> &pbt::tests() {
    static std::vector<Test> t;
    return t;
}
std::vector<Finding> &pbt::findings() {
    static std::vector<Finding> t;
    return t;
}

static const size_t CAP = 1 << 20;
struct Slot { // shared between a worker and the parent
    volatile int test, done;
    volatile long index;
    char phase[64];
    uint64_t n;
    char desc[700];
    uint64_t tape[CAP];
};
struct Shared {
    volatile int stop;
};
static Shared *shared;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

static uint64_t case_seed(uint64_t seed, const Test &t, long i) {
    uint64_t h = 1469598103934665603ull;
    for (const char *p = t.name; *p; p++)
        h = (h ^ (unsigned char)*p) * 1099511628211ull;
    uint64_t s = seed * 0x2545F4914F6CDD1Dull ^ h;
    mix(s);
    s += (uint64_t)i * 0xD1342543DE82EF95ull;
    mix(s);
    return s;
}

static void cpu_limit(int seconds) {
    itimerval it{};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

struct Outcome {
    bool failed = false, crashed = false, discarded = false;
    std::string tag, msg;
};

static Outcome run_here(const Test &t, Gen &g) {
    Outcome o;
    try {
        t.fn(g);
    } catch (Failure &f) {
        o.failed = true;
        o.tag = f.tag;
        o.msg = f.msg;
    } catch (Discard &) {
        o.discarded = true;
    } catch (std::exception &e) {
        o.failed = true;
        o.tag = "exception";
        o.msg = std::string("an exception escaped: ") + e.what();
    } catch (...) {
        o.failed = true;
        o.tag = "exception";
        o.msg = "an exception escaped";
    }
    return o;
}

static bool g_thorough = false;
static Slot *new_slot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (Slot *)p;
}

static std::string why(int st) {
    char b[100];
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGPROF)
            return "did not terminate (CPU limit)";
        snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    } else
        snprintf(b, sizeof b, "process exit %d (sanitizer report or abort)", WEXITSTATUS(st));
    return b;
}

static std::string g_errfile;
static std::string stderr_excerpt(const std::string &f) {
    std::ifstream in(f);
    std::string l, out;
    int n = 0;
    while (std::getline(in, l))
        if (l.find("ERROR:") != l.npos || l.find("runtime error") != l.npos || l.find("what()") != l.npos ||
            (l.find("#") != l.npos && l.find("/repo/") != l.npos)) {
            out += l.substr(0, 200) + " | ";
            if (++n > 5)
                break;
        }
    return out;
}

// one case, from a tape, in a process of its own
static Outcome run_fork(const Test &t, const std::vector<uint64_t> &tape, Slot *slot, std::string *desc = nullptr, int limit = 100) {
    int pfd[2];
    if (pipe(pfd))
        _exit(3);
    slot->n = 0;
    slot->desc[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        int e = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0 && !getenv("PBT_SHOW"))
            dup2(e, 2), dup2(e, 1);
        cpu_limit(getenv("PBT_HANG") ? atoi(getenv("PBT_HANG")) : limit);
        Gen g;
        g.in = &tape;
        g.rec = slot->tape;
        g.rec_n = &slot->n;
        g.shm_desc = slot->desc;
        g.rec_cap = CAP;
        g.thorough = g_thorough;
        Outcome o = run_here(t, g);
        std::string s = std::string(o.failed ? "F" : o.discarded ? "D" : "P") + o.tag + "\n" + g.desc + "\n" + o.msg;
        size_t off = 0;
        while (off < s.size()) {
            ssize_t k = write(pfd[1], s.data() + off, s.size() - off);
            if (k <= 0)
                break;
            off += k;
        }
        _exit(0);
    }
    close(pfd[1]);
    std::string s;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0)
        s.append(buf, k);
    close(pfd[0]);
    int st;
    waitpid(p, &st, 0);
    Outcome o;
    if (s.empty() || st != 0) {
        o.failed = o.crashed = true;
        o.tag = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "hang" : "crash";
        if (desc)
            *desc = slot->desc;
        o.msg = why(st) + " " + stderr_excerpt(g_errfile);
        return o;
    }
    size_t a = s.find('\n'), b = s.find('\n', a + 1);
    o.failed = s[0] == 'F';
    o.discarded = s[0] == 'D';
    o.tag = s.substr(1, a - 1);
    if (desc)
        *desc = s.substr(a + 1, b - a - 1);
    o.msg = s.substr(b + 1);
    return o;
}

static std::vector<uint64_t> shrink(const Test &t, std::vector<uint64_t> best, const std::string &tag, Slot *slot, double budget) {
    double t0 = now();
    auto ok = [&](std::vector<uint64_t> &c) {
        if (now() - t0 > budget)
            return false;
        Outcome o = run_fork(t, c, slot, nullptr, 20);
        if (o.failed && o.tag == tag) {
            if (slot->n < c.size() && !o.crashed)
                c.resize(slot->n);
            return true;
        }
        return false;
    };
    bool prog = true;
    while (prog && now() - t0 < budget) {
        prog = false;
        for (size_t len = best.size() / 2; len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (ok(c)) {
                    best = c;
                    prog = true;
                } else
                    i += len;
                if (now() - t0 > budget)
                    return best;
            }
        }
        for (size_t len = std::min<size_t>(64, best.size()); len >= 1; len /= 2)
            for (size_t i = 0; i + len <= best.size(); i += len) {
                bool any = false;
                for (size_t j = i; j < i + len; j++)
                    any = any || best[j];
                if (!any)
                    continue;
                auto c = best;
                std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (ok(c))
                    best = c, prog = true;
                if (now() - t0 > budget)
                    return best;
            }
        for (size_t i = 0; i < best.size(); i++) {
            // smallest value that still fails, by bisection
            uint64_t lo = 0, hi = best[i];
            while (lo < hi) {
                uint64_t m = lo + (hi - lo) / 2;
                auto c = best;
                c[i] = m;
                size_t sz = best.size();
                if (ok(c)) {
                    best = c;
                    hi = m;
                    prog = true;
                    if (best.size() != sz && i >= best.size())
                        break;
                } else
                    lo = m + 1;
                if (now() - t0 > budget)
                    return best;
            }
        }
    }
    return best;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

int main(int argc, char **argv) {
    std::string prop, out, rdir = ".", replay, only;
    bool thorough = false;
    uint64_t seed = 1;
    int W = 8;
    double budget = 0, mult = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--tier") thorough = nx() == "thorough";
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--out") out = nx();
        else if (a == "--replays") rdir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--workers") W = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--mult") mult = atof(nx().c_str());
        else if (a == "--only") only = nx();
        else if (a == "--list") {
            for (auto &t : tests())
                printf("%s %s %ld %ld\n", t.prop, t.name, t.quick, t.thorough);
            return 0;
        }
    }
    g_thorough = thorough;
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_errfile = (rdir.empty() ? "." : rdir) + "/.stderr." + std::to_string(getpid());

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string key, name;
        std::vector<uint64_t> tape;
        while (f >> key) {
            if (key == "test") f >> name;
            else if (key == "tier") {
                f >> key;
                g_thorough = key == "thorough";
            }
            else if (key == "tape") {
                size_t n;
                f >> n;
                tape.resize(n);
                for (auto &v : tape)
                    f >> v;
            } else
                std::getline(f, key);
        }
        for (auto &t : tests())
            if (name == t.name) {
                std::string d;
                Outcome o = run_fork(t, tape, new_slot(), &d);
                printf("%s %s: %s\n  %s\n  case: %s\n", t.prop, t.name, o.failed ? "FAILS" : o.discarded ? "discarded" : "passes", (o.tag + " " + o.msg).c_str(), d.c_str());
                unlink(g_errfile.c_str());
                return o.failed ? 1 : 0;
            }
        fprintf(stderr, "no test %s\n", name.c_str());
        return 2;
    }

    std::vector<Test> T;
    for (auto &t : tests())
        if (prop == t.prop && (only.empty() || only == t.name))
            T.push_back(t);
    if (T.empty()) {
        fprintf(stderr, "no tests for %s\n", prop.c_str());
        return 2;
    }
    std::vector<long> N;
    long total = 0;
    for (auto &t : T) {
        long n = (long)((thorough ? t.thorough : t.quick) * mult);
        N.push_back(std::max(1L, n));
        total += N.back();
    }
    // cases are dealt to the workers interleaved, so that each test is spread evenly
    double t0 = now();
    std::vector<pid_t> pid(W, -1);
    std::vector<Slot *> slot(W);
    std::string base = rdir + "/.w." + std::to_string(getpid()) + ".";
    auto start = [&](int w, long from) { // from: first chunk step
        slot[w]->done = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p)
            return p;
        Slot *S = slot[w];
        int e = open((base + std::to_string(w) + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (e >= 0)
            dup2(e, 2), dup2(e, 1);
        std::vector<std::map<std::string, long>> lab(T.size());
        std::vector<long> ev(T.size()), nt(T.size()), di(T.size());
        std::vector<std::set<uint64_t>> seen(T.size());
        std::vector<std::vector<std::string>> sam(T.size());
        std::string failrec;
        bool capped = false;
        // progress fraction per test; run next the test that is furthest behind
        std::vector<long> nexti(T.size(), w);
        if (from) { // after a crash: skip past the crashed case of that test
        }
        while (!shared->stop) {
            int b = -1;
            double fb = 2;
            for (size_t k = 0; k < T.size(); k++) {
                if (nexti[k] >= N[k])
                    continue;
                double fr = (double)nexti[k] / N[k];
                if (fr < fb)
                    fb = fr, b = k;
            }
            if (b < 0)
                break;
            if (budget > 0 && now() - t0 > budget) {
                capped = true;
                break;
            }
            long i = nexti[b];
            nexti[b] += W;
            S->test = b;
            S->index = i;
            S->n = 0;
            Gen g;
            g.rng = case_seed(seed, T[b], i);
            g.rec = S->tape;
            g.rec_n = &S->n;
            g.rec_cap = CAP;
            g.labels = &lab[b];
            g.thorough = thorough;
            cpu_limit(getenv("PBT_HANG") ? atoi(getenv("PBT_HANG")) : 150);
            Outcome o = run_here(T[b], g);
            if (o.discarded) {
                di[b]++;
                continue;
            }
            ev[b]++;
            if (g.nontriv && seen[b].insert(g.hash).second) {
                nt[b]++;
                if (sam[b].size() < 2 && (i / W) % 7 == 1)
                    sam[b].push_back(g.desc);
                else if (sam[b].empty())
                    sam[b].push_back(g.desc);
            }
            if (o.failed) {
                std::ostringstream os;
                os << "fail " << b << " " << i << " " << S->n;
                for (uint64_t q = 0; q < S->n; q++)
                    os << " " << S->tape[q];
                os << "\n" << o.tag << "\n" << o.msg << "\n";
                failrec = os.str();
                shared->stop = 1;
                break;
            }
        }
        cpu_limit(0);
        std::ofstream f(base + std::to_string(w));
        f << "capped " << capped << "\n";
        for (size_t k = 0; k < T.size(); k++) {
            f << "t " << k << " " << ev[k] << " " << nt[k] << " " << di[k] << "\n";
            for (auto &l : lab[k])
                f << "l " << k << " " << l.second << " " << l.first << "\n";
            for (auto &s : sam[k]) {
                std::string q = s;
                std::replace(q.begin(), q.end(), '\n', ' ');
                f << "s " << k << " " << q << "\n";
            }
            f << "h " << k << " " << seen[k].size();
            for (auto h : seen[k])
                f << " " << h;
            f << "\n";
        }
        f << failrec;
        f.close();
        S->done = 1;
        _exit(0);
    };
    for (int w = 0; w < W; w++) {
        slot[w] = new_slot();
        pid[w] = start(w, 0);
    }
    struct Fail {
        int test;
        long index;
        std::vector<uint64_t> tape;
        std::string tag, msg;
    };
    std::vector<Fail> fails;
    for (int k = 0; k < W; k++) {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
        if (w < W && !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot[w]->done)) {
            shared->stop = 1;
            Fail f;
            f.test = slot[w]->test;
            f.index = slot[w]->index;
            f.tape.assign(slot[w]->tape, slot[w]->tape + slot[w]->n);
            f.tag = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "hang" : "crash";
            f.msg = why(st) + " " + stderr_excerpt(base + std::to_string(w) + ".err");
            fails.push_back(f);
        }
    }
    // merge
    std::vector<long> ev(T.size()), di(T.size());
    std::vector<std::set<uint64_t>> seen(T.size());
    std::vector<std::map<std::string, long>> lab(T.size());
    std::vector<std::vector<std::string>> sam(T.size());
    bool capped = false;
    for (int w = 0; w < W; w++) {
        std::string fn = base + std::to_string(w);
        std::ifstream f(fn);
        std::string k;
        while (f >> k) {
            if (k == "capped") {
                int c;
                f >> c;
                capped = capped || c;
            } else if (k == "t") {
                long q, a, b, c;
                f >> q >> a >> b >> c;
                ev[q] += a;
                di[q] += c;
            } else if (k == "l") {
                long q, n;
                std::string s;
                f >> q >> n;
                std::getline(f, s);
                lab[q][s.substr(1)] += n;
            } else if (k == "s") {
                long q;
                std::string s;
                f >> q;
                std::getline(f, s);
                if (sam[q].size() < 3)
                    sam[q].push_back(s.substr(s.empty() ? 0 : 1));
            } else if (k == "h") {
                long q, n;
                f >> q >> n;
                while (n--) {
                    uint64_t h;
                    f >> h;
                    seen[q].insert(h);
                }
            } else if (k == "fail") {
                Fail x;
                size_t n;
                f >> x.test >> x.index >> n;
                x.tape.resize(n);
                for (auto &v : x.tape)
                    f >> v;
                std::string l;
                std::getline(f, l);
                std::getline(f, x.tag);
                std::getline(f, x.msg);
                fails.push_back(x);
            }
        }
        f.close();
        unlink(fn.c_str());
        unlink((fn + ".err").c_str());
    }
    std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return std::make_pair(a.index, a.test) < std::make_pair(b.index, b.test); });
    int violations = 0, unrep = 0;
    std::string vlines, unmsg;
    Slot *S = new_slot();
    for (auto &f : fails) {
        if (violations)
            break;
        const Test &t = T[f.test];
        // confirm in fresh processes before believing it
        int tries = f.tag == "hang" ? 2 : 10, hits = 0;
        for (int q = 0; q < tries && hits < (f.tag == "hang" ? 1 : 3); q++) {
            Outcome o = run_fork(t, f.tape, S);
            if (o.failed) {
                hits++;
                f.tag = o.tag;
                f.msg = o.msg;
            }
        }
        if (hits == 0) {
            unrep++;
            unmsg += std::string(t.name) + " case " + std::to_string(f.index) + " " + f.tag + ": " + f.msg + "; ";
            continue;
        }
        std::vector<uint64_t> small = f.tape;
        if (f.tag != "hang" && hits >= 3)
            small = shrink(t, f.tape, f.tag, S, 40);
        std::string d;
        Outcome o = run_fork(t, small, S, &d);
        if (!o.failed) {
            small = f.tape;
            o = run_fork(t, small, S, &d);
        }
        std::string path = rdir + "/" + prop + "-" + t.name + "-" + std::to_string(seed) + "-" + std::to_string(f.index) + ".replay";
        std::ofstream r(path);
        std::string m1 = o.failed ? o.msg : f.msg;
        std::replace(m1.begin(), m1.end(), '\n', ' ');
        r << "test " << t.name << "\ntier " << (thorough ? "thorough" : "quick") << "\nprop " << prop << "\ntag " << f.tag << "\nmsg " << m1 << "\ncase " << d << "\ntape " << small.size();
        for (auto v : small)
            r << " " << v;
        r << "\n";
        printf("%s/%s: %s: %s\n  case: %s\n", prop.c_str(), t.name, f.tag.c_str(), m1.c_str(), d.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        violations++;
    }
    int rc = violations ? 1 : 0;
    if (!violations && unrep)
        printf("note: %d failure(s) did not reproduce from their tape: %s\n", unrep, unmsg.c_str());
    std::ostringstream kf;
    for (auto &f : findings())
        if (prop == f.prop) {
            // in a process of its own: a probe may crash
            pid_t p = fork();
            if (p == 0) {
                int e = open("/dev/null", O_WRONLY);
                if (!getenv("DBG")) dup2(e, 2);
                dup2(e, 1);
                cpu_limit(getenv("PBT_HANG") ? atoi(getenv("PBT_HANG")) : 60);
                bool b = true;
                try {
                    b = f.probe();
                } catch (...) {
                }
                _exit(b ? 1 : 0);
            }
            int st;
            waitpid(p, &st, 0);
            if (st != 0) {
                printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), f.id, f.what);
                kf << (kf.tellp() > 0 ? "," : "") << "\"" << f.id << "\"";
            } else
                printf("note: known finding %s no longer fails\n", f.id);
        }
    long E = 0, D = 0, DI = 0;
    for (size_t k = 0; k < T.size(); k++)
        E += ev[k], D += seen[k].size(), DI += di[k];
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"evaluations\":" << E << ",\"distinct_nontrivial\":" << D << ",\"discarded\":" << DI << ",\"planned\":" << total << ",\"capped\":" << (capped ? "true" : "false") << ",\"unreproduced\":" << unrep << ",\"unreproduced_msg\":\"" << jesc(unmsg) << "\",\"violations\":" << violations << ",\"search_s\":" << now() - t0 << ",\"known_findings\":[" << kf.str() << "],\"tests\":{";
        for (size_t k = 0; k < T.size(); k++) {
            f << (k ? "," : "") << "\"" << T[k].name << "\":{\"evaluations\":" << ev[k] << ",\"distinct_nontrivial\":" << seen[k].size() << ",\"discarded\":" << di[k] << ",\"rule\":\"" << jesc(T[k].rule) << "\",\"labels\":{";
            bool first = true;
            for (auto &l : lab[k]) {
                f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
                first = false;
            }
            f << "},\"samples\":[";
            for (size_t q = 0; q < sam[k].size(); q++)
                f << (q ? "," : "") << "\"" << jesc(sam[k][q]) << "\"";
            f << "]}";
        }
        f << "}}\n";
    }
    unlink(g_errfile.c_str());
    printf("%s: %ld cases, %ld distinct non-trivial, %ld discarded, %.1f s%s\n", prop.c_str(), E, D, DI, now() - t0, capped ? " (time cap reached)" : "");
    return rc;
}
