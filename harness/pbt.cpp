#include "pbt.hpp"

#include <errno.h>
#include <omp.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <fstream>
#include <random>
#include <set>
#include <sstream>

namespace pbt {
void (*fixture)(uint64_t) = nullptr;
static std::vector<Test> &tests()
{
    static std::vector<Test> t;
    return t;
}
Reg::Reg(const char *name, int q, int t, std::function<void(Case &)> fn, bool pure, bool scheduled)
{
    tests().push_back({name, q, t, fn, pure, scheduled});
}

static std::string vfmt(const char *f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
void Case::note(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    if (desc.size() < 1500) desc += (desc.empty() ? "" : "; ") + s;
}
void Case::fail(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Fail{s, ""};
}
void Case::known(const char *key, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Fail{s, key};
}
uint64_t Case::stratum(uint64_t n)
{
    uint64_t v;
    if (replay) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        if (n && v >= n) v %= n;
    }
    else {
        if (!started) gen0 = gen_state, started = true;
        v = (gen0 & 0xffffff) / strata % n;
        strata *= n;
    }
    pos++;
    rec.push_back(v);
    return v;
}
uint64_t Case::below(uint64_t n)
{
    uint64_t v;
    if (!started) gen0 = gen_state, started = true;
    if (replay) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        if (n && v >= n) v %= n;
    }
    else {
        uint64_t r = mix64(gen_state += 0x9e3779b97f4a7c15ULL);
        v = n ? (uint64_t)(((__uint128_t)r * n) >> 64) : r;
    }
    pos++;
    rec.push_back(v);
    return v;
}

// ---- entropy ----------------------------------------------------------------
static std::atomic<uint64_t> g_words{0}, g_threads{0};
static std::atomic<uint64_t> g_key{1};
struct ES {
    bool set = false;
    uint64_t key = 0, ctr = 0;
    EntropyFn fn = nullptr;
    void *u = nullptr;
};
static thread_local ES es;
void entropy_set(uint64_t key)
{
    es.set = true;
    es.key = key;
    es.ctr = 0;
}
void entropy_set_global(uint64_t key) { g_key = key; }
uint64_t entropy_words() { return g_words; }
void entropy_override(EntropyFn f, void *u)
{
    es.fn = f;
    es.u = u;
    es.ctr = 0;
}
static uint32_t entropy_next()
{
    g_words++;
    if (es.fn) return es.fn(es.u, es.ctr++);
    if (!es.set) {
        if (omp_in_parallel())
            entropy_set(hash2(g_key, 1000 + omp_get_thread_num()));
        else
            entropy_set(hash2(g_key, 1000000 + g_threads++));
    }
    return (uint32_t)(mix64(es.key + 0x9e3779b97f4a7c15ULL * ++es.ctr) >> 17);
}

struct TArg {
    const std::function<void()> *f;
    uint64_t key;
    bool failed = false, discarded = false;
    Fail fail;
};
static void *tmain(void *p)
{
    TArg *a = (TArg *)p;
    entropy_set(a->key);
    omp_set_num_threads(1);
    try {
        (*a->f)();
    }
    catch (Fail &f) {
        a->failed = true;
        a->fail = f;
    }
    catch (Discard &) {
        a->discarded = true;
    }
    catch (std::exception &e) {
        a->failed = true;
        a->fail = {std::string("unexpected exception: ") + e.what(), ""};
    }
    return nullptr;
}
void fresh_thread(uint64_t key, const std::function<void()> &f)
{
    TArg a{&f, key};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512ull << 20);
    pthread_t t;
    if (pthread_create(&t, &at, tmain, &a)) {
        fprintf(stderr, "pthread_create failed\n");
        _exit(77);
    }
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    if (a.failed) throw a.fail;
    if (a.discarded) throw Discard{};
}

// ---- runner -----------------------------------------------------------------
static uint64_t g_seed = 1;
static bool g_thorough = false;
static std::string g_prop = "C00", g_variant = "default";
static std::set<std::string> g_known;

struct Outcome {
    int kind = 0;  // 0 pass 1 fail 2 discard 3 known
    std::string msg, key;
};
static uint64_t namehash(const std::string &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}
static Outcome run_case(const Test &t, Case &c, uint64_t entropy)
{
    Outcome o;
    c.thorough = g_thorough;
    try {
        if (t.pure)
            t.fn(c);
        else
            fresh_thread(entropy, [&] {
                // sometimes another case before it in the same thread: what an
                // operation leaves behind must not matter to the next
                if (!t.scheduled && t.quick >= 40 && c.chance(1, 4)) {
                    try {
                        t.fn(c);
                    }
                    catch (Discard &) {
                    }
                    c.desc = "[" + c.desc.substr(0, 300) + "], then";
                    c.labels["after another case"]++;
                }
                t.fn(c);
            });
    }
    catch (Fail &f) {
        o = {f.key.empty() ? 1 : (g_known.count(f.key) ? 3 : 1), f.msg, f.key};
    }
    catch (Discard &) {
        o.kind = 2;
    }
    catch (std::exception &e) {
        o = {1, std::string("unexpected exception: ") + e.what(), ""};
    }
    return o;
}
// Library randomness of a case: a function of the test and seed only (not of
// the choices), so shrinking the choices does not reshuffle it.
static uint64_t case_entropy(const Test &t, uint64_t idx) { return hash2(hash2(g_seed, namehash(t.name)), idx * 2 + 1); }
// (the low bits carry the case's number for Case::stratum)
static uint64_t case_gen(const Test &t, uint64_t idx) { return (hash2(hash2(g_seed ^ 0x5555, namehash(t.name)), idx * 2) & ~0xffffffULL) | (idx & 0xffffff); }

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32) r += fmt("\\u%04x", ch);
        else r += ch;
    }
    return r + "\"";
}

struct Slot {
    std::atomic<int64_t> test, idx, start, done;
};
struct Shared {
    std::atomic<int64_t> next, stop;
    Slot slot[64];
};
static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void child_setup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    omp_set_num_threads(1);
}

struct Failure {
    int test = -1;
    uint64_t idx = 0;
    std::vector<uint64_t> choices;
    std::string msg, desc, key;
    bool crash = false;
    std::vector<std::pair<int, uint64_t>> hist;  // of the process it failed in
};

// Runs generated cases one after the other in one forked child.
static bool attempt_history(const std::vector<std::pair<int, uint64_t>> &h, Failure &out)
{
    int fd[2];
    if (pipe(fd)) return false;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        child_setup();
        alarm(300);
        for (auto &[ti, idx] : h) {
            const Test &t = tests()[ti];
            Case c;
            c.gen_state = case_gen(t, idx);
            Outcome o = run_case(t, c, case_entropy(t, idx));
            if (o.kind == 1) {
                std::string s = o.msg.substr(0, 2000) + "\n" + c.desc.substr(0, 2000) + "\n";
                if (write(fd[1], s.data(), s.size()) < 0) _exit(1);
                _exit(0);
            }
        }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[8192];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGALRM) {
        out.msg = fmt("crash: signal %d (%s) after a sequence of cases", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return true;
    }
    if (s.empty()) return false;
    std::istringstream is(s);
    std::getline(is, out.msg);
    std::getline(is, out.desc);
    return true;
}

// Runs a choice sequence in a forked child. Returns true if it fails.
static bool attempt(const Test &t, const std::vector<uint64_t> *choices, uint64_t gen, uint64_t entropy, Failure &out, double limit = 240)
{
    int fd[2];
    if (pipe(fd)) return false;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        child_setup();
        Case c;
        if (choices) c.replay = choices;
        else c.gen_state = gen;
        // make the choices drawn so far visible if we crash: two passes are not
        // possible, so on a crash the parent keeps the input choices.
        Outcome o = run_case(t, c, entropy);
        std::string s = fmt("%d\n", o.kind);
        s += fmt("%zu\n", c.rec.size());
        for (auto v : c.rec) s += fmt("%" PRIu64 " ", v);
        s += "\n" + o.key + "\n";
        std::string m = o.msg, d = c.desc;
        std::replace(m.begin(), m.end(), '\n', ' ');
        std::replace(d.begin(), d.end(), '\n', ' ');
        s += m + "\n" + d + "\n";
        size_t off = 0;
        while (off < s.size()) {
            ssize_t w = write(fd[1], s.data() + off, s.size() - off);
            if (w <= 0) break;
            off += w;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    double t0 = now();
    bool timeout = false;
    for (;;) {
        fd_set fs;
        FD_ZERO(&fs);
        FD_SET(fd[0], &fs);
        struct timeval tv = {1, 0};
        int r = select(fd[0] + 1, &fs, nullptr, nullptr, &tv);
        if (r > 0) {
            ssize_t n = read(fd[0], buf, sizeof buf);
            if (n <= 0) break;
            s.append(buf, n);
        }
        if (now() - t0 > limit) {
            timeout = true;
            kill(p, SIGKILL);
            break;
        }
    }
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    if (timeout) {
        out.msg = "case does not terminate (killed after its limit)";
        out.crash = true;
        if (choices) out.choices = *choices;
        return true;
    }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return false;  // out of resources
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;
        out.crash = true;
        out.msg = WIFSIGNALED(st) ? fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("abnormal exit %d (sanitizer report?)", WEXITSTATUS(st));
        if (choices) out.choices = *choices;
        return true;
    }
    std::istringstream is(s);
    int kind;
    size_t n;
    if (!(is >> kind >> n)) return false;
    std::vector<uint64_t> rec(n);
    for (auto &v : rec) is >> v;
    std::string line;
    std::getline(is, line);
    std::getline(is, out.key);
    std::getline(is, out.msg);
    std::getline(is, out.desc);
    out.choices = rec;
    out.crash = false;
    return kind == 1;
}
// choices of a generated case, obtained without running the body to completion
static std::vector<uint64_t> record_choices_until_crash(const Test &t, uint64_t gen, uint64_t entropy)
{
    // A crashing case: record the choices through shared memory.
    size_t cap = 1 << 20;
    uint64_t *mem = (uint64_t *)mmap(nullptr, cap * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (p == 0) {
        child_setup();
        alarm(240);
        struct RecCase {};
        Case c;
        c.gen_state = gen;
        c.rec.reserve(cap);
        // rec's storage does not move any more: copy it out from a watcher thread
        std::atomic<bool> stop{false};
        auto flush = [&] {
            size_t n = std::min(c.rec.size(), cap);
            memcpy(mem + 1, c.rec.data(), n * 8);
            mem[0] = n;
        };
        static std::function<void()> g_flush;
        g_flush = flush;
        auto h = [](int s) {
            g_flush();
            signal(s, SIG_DFL);
            raise(s);
        };
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, h);
        run_case(t, c, entropy);
        flush();
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    std::vector<uint64_t> r(mem + 1, mem + 1 + mem[0]);
    munmap(mem, cap * 8 + 8);
    return r;
}

static Failure shrink(const Test &t, Failure f, uint64_t entropy, double budget, uint64_t &attempts)
{
    double t0 = now();
    auto try_ = [&](const std::vector<uint64_t> &c) {
        if (now() - t0 > budget) return false;
        attempts++;
        Failure g = f;
        std::vector<uint64_t> cc = c;
        if (attempt(t, &cc, 0, entropy, g, 60)) {
            // never trade a failure for a known finding; accept shorter/smaller only
            if (g.choices.size() < f.choices.size() || (g.choices.size() == f.choices.size() && g.choices < f.choices)) {
                g.test = f.test;
                g.idx = f.idx;
                f = g;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t k : {16, 8, 4, 2, 1}) {  // delete blocks
            for (size_t i = f.choices.size(); i-- > 0 && now() - t0 < budget;) {
                if (i + k > f.choices.size()) continue;
                auto c = f.choices;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (try_(c)) progress = true;
            }
        }
        for (size_t i = 0; i < f.choices.size() && now() - t0 < budget; i++) {
            if (f.choices[i] == 0) continue;
            auto c = f.choices;
            c[i] = 0;
            if (try_(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = f.choices[i];  // binary search for a smaller failing value
            while (lo + 1 < hi && now() - t0 < budget) {
                uint64_t mid = lo + (hi - lo) / 2;
                if (i >= f.choices.size()) break;
                c = f.choices;
                c[i] = mid;
                if (try_(c)) { hi = mid; progress = true; }
                else lo = mid;
            }
        }
    }
    return f;
}

static int usage()
{
    fprintf(stderr, "usage: harness --prop ID --variant V --seed N --tier quick|thorough --out stats.json --replaydir DIR [--known k]... [--only test] [--scale x] | --replay FILE\n");
    return 2;
}

static void write_replay(const std::string &path, const Failure &f, uint64_t entropy)
{
    const Test &t = tests()[f.test];
    std::ofstream o(path);
    o << "{\"property\": " << jstr(g_prop) << ", \"variant\": " << jstr(g_variant) << ", \"test\": " << jstr(t.name)
      << ", \"fixture_seed\": " << g_seed << ", \"tier\": " << jstr(g_thorough ? "thorough" : "quick")
      << ", \"case_index\": " << f.idx << ", \"entropy\": " << entropy << ",\n \"message\": " << jstr(f.msg)
      << ",\n \"case\": " << jstr(f.desc) << ",\n \"choices\": [";
    for (size_t i = 0; i < f.choices.size(); i++) o << (i ? ", " : "") << f.choices[i];
    o << "],\n \"rerun\": " << jstr("python3 /verif/check.py " + g_prop + " --replay " + path) << "}\n";
}

static int real_main(int argc, char **argv)
{
    std::string out, replaydir = "/verif/replays", only, replayfile;
    double scale = 1, deadline = 420, shrink_budget = 40;
    int jobs = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") g_prop = val();
        else if (a == "--variant") g_variant = val();
        else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") g_thorough = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--replaydir") replaydir = val();
        else if (a == "--known") g_known.insert(val());
        else if (a == "--only") only = val();
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--deadline") deadline = atof(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--replay") replayfile = val();
        else return usage();
    }
    if (jobs > 64) jobs = 64;
    double t_start = now();
    entropy_set_global(hash2(g_seed, 77));
    entropy_set(hash2(g_seed, 78));

    // replay file: "test\nentropy\nchoices..." in a plain form prepared by the driver
    std::string rtest;
    uint64_t rentropy = 0;
    std::vector<uint64_t> rchoices;
    std::vector<std::pair<int, uint64_t>> rhist;
    if (!replayfile.empty()) {
        std::ifstream is(replayfile);
        std::getline(is, rtest);
        if (rtest == "HISTORY") {
            std::string n;
            uint64_t idx;
            while (is >> n >> idx)
                for (size_t i = 0; i < tests().size(); i++)
                    if (tests()[i].name == n) rhist.push_back({(int)i, idx});
        }
        else {
            is >> rentropy;
            uint64_t v;
            while (is >> v) rchoices.push_back(v);
        }
    }

    if (fixture) {
        // A failure in key generation itself is reported by the driver (exit 3).
        try {
            fixture(g_seed);
        }
        catch (Fail &f) {
            printf("FIXTURE-FAIL %s\n", f.msg.c_str());
            fflush(stdout);
            return 3;
        }
    }
    double t_fix = now() - t_start;
    printf("fixture: %.1f s\n", t_fix);
    fflush(stdout);

    if (!rhist.empty()) {
        Failure f;
        bool bad = false;
        for (int i = 0; i < 20 && !bad; i++) bad = attempt_history(rhist, f);
        printf(bad ? "REPLAY FAILS: %s\n  case: %s\n" : "REPLAY PASSES\n", f.msg.c_str(), f.desc.c_str());
        return bad;
    }
    if (!replayfile.empty()) {
        for (auto &t : tests())
            if (t.name == rtest) {
                int bad = 0, n = t.scheduled ? 20 : 1;
                for (int i = 0; i < n && !bad; i++) {
                    Failure f;
                    bad = attempt(t, &rchoices, 0, rentropy, f);
                    if (bad) printf("REPLAY FAILS: %s\n  case: %s\n", f.msg.c_str(), f.desc.c_str());
                }
                if (!bad) printf("REPLAY PASSES\n");
                return bad ? 1 : 0;
            }
        fprintf(stderr, "no such test %s\n", rtest.c_str());
        return 2;
    }

    // work list
    std::vector<std::pair<int, uint64_t>> work;
    {
        std::vector<uint64_t> n;
        uint64_t mx = 0;
        for (auto &t : tests()) {
            uint64_t k = (uint64_t)((g_thorough ? t.thorough : t.quick) * scale);
            if (k == 0 && (g_thorough ? t.thorough : t.quick) > 0) k = 1;
            if (!only.empty() && t.name != only) k = 0;
            n.push_back(k);
            mx = std::max(mx, k);
        }
        // interleave proportionally, so that a deadline cuts all tests alike
        std::vector<std::pair<double, std::pair<int, uint64_t>>> o;
        for (size_t i = 0; i < n.size(); i++)
            for (uint64_t j = 0; j < n[i]; j++) o.push_back({(j + 0.5) / n[i], {(int)i, j}});
        std::stable_sort(o.begin(), o.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &x : o) work.push_back(x.second);
    }
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0;
    sh->stop = 0;
    for (auto &s : sh->slot) s.test = -1, s.done = 0;

    std::map<int, Stats> all;
    int rc = 0;
    uint64_t attempts = 0, unreproduced = 0;
    std::string viol;
    for (bool more = true; more;) {
    more = false;
    sh->stop = 0;
    for (auto &s : sh->slot) s.test = -1;
    std::vector<int> fds(jobs);
    std::vector<pid_t> pids(jobs);
    fflush(nullptr);
    for (int w = 0; w < jobs; w++) {
        int fd[2];
        if (pipe(fd)) return 2;
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            child_setup();
            std::map<int, Stats> st;
            std::map<int, std::set<uint64_t>> seen;
            std::string fails;
            std::vector<std::pair<int, uint64_t>> hist;  // cases run in this process
            while (!sh->stop) {
                int64_t i = sh->next++;
                if (i >= (int64_t)work.size()) break;
                if (now() - t_start > deadline) break;
                auto [ti, idx] = work[i];
                const Test &t = tests()[ti];
                sh->slot[w].idx = (int64_t)idx;
                sh->slot[w].start = (int64_t)now();
                sh->slot[w].test = ti;
                Case c;
                c.gen_state = case_gen(t, idx);
                Outcome o = run_case(t, c, case_entropy(t, idx));
                sh->slot[w].test = -1;
                sh->slot[w].done++;
                hist.push_back({ti, idx});
                Stats &s = st[ti];
                s.cases++;
                if (o.kind == 2) s.discarded++;
                for (auto &l : c.labels) s.labels[l.first] += l.second;
                for (auto &m : c.metrics) {
                    auto it = s.metrics.find(m.first);
                    if (it == s.metrics.end() || it->second < m.second) s.metrics[m.first] = m.second;
                }
                if (o.kind == 3) {
                    s.known++;
                    s.labels["known:" + o.key]++;
                }
                if (c.is_nontrivial && o.kind != 2) {
                    uint64_t h = namehash(t.name);
                    for (auto v : c.rec) h = hash2(h, v);
                    if (seen[ti].insert(h).second) s.nontrivial++;
                    if (s.samples.size() < 2 && !c.desc.empty()) s.samples.push_back(c.desc);
                }
                if (o.kind == 1) {
                    std::string m = o.msg;
                    std::replace(m.begin(), m.end(), '\n', ' ');
                    fails += fmt("F %d %" PRIu64 " ", ti, idx) + m + "\n";
                    for (auto &h : hist) fails += fmt("H %d %" PRIu64 "\n", h.first, h.second);
                    sh->stop = 1;
                    break;
                }
            }
            std::ostringstream os;
            for (auto &[ti, s] : st) {
                os << "T " << ti << " " << s.cases << " " << s.discarded << " " << s.nontrivial << " " << s.known << "\n";
                for (auto &l : s.labels) os << "L " << ti << " " << l.second << " " << l.first << "\n";
                for (auto &m : s.metrics) os << "M " << ti << " " << m.second << " " << m.first << "\n";
                for (auto &x : s.samples) {
                    std::string y = x;
                    std::replace(y.begin(), y.end(), '\n', ' ');
                    os << "S " << ti << " " << y << "\n";
                }
            }
            std::string r = os.str() + fails;
            size_t off = 0;
            while (off < r.size()) {
                ssize_t k = write(fd[1], r.data() + off, r.size() - off);
                if (k <= 0) break;
                off += k;
            }
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        fds[w] = fd[0];
        pids[w] = p;
    }
    // collect
    std::vector<std::string> bufs(jobs);
    std::vector<bool> open(jobs, true);
    std::vector<Failure> cand;
    int nopen = jobs;
    while (nopen) {
        fd_set fs;
        FD_ZERO(&fs);
        int mx = 0;
        for (int w = 0; w < jobs; w++)
            if (open[w]) FD_SET(fds[w], &fs), mx = std::max(mx, fds[w]);
        struct timeval tv = {1, 0};
        int r = select(mx + 1, &fs, nullptr, nullptr, &tv);
        if (r > 0)
            for (int w = 0; w < jobs; w++)
                if (open[w] && FD_ISSET(fds[w], &fs)) {
                    char b[65536];
                    ssize_t k = read(fds[w], b, sizeof b);
                    if (k <= 0) open[w] = false, nopen--, close(fds[w]);
                    else bufs[w].append(b, k);
                }
        for (int w = 0; w < jobs; w++)  // hang detection
            if (open[w] && sh->slot[w].test >= 0 && now() - sh->slot[w].start > 240) {
                Failure f;
                f.test = sh->slot[w].test;
                f.idx = sh->slot[w].idx;
                f.crash = true;
                f.msg = "hang";
                kill(pids[w], SIGKILL);
                sh->slot[w].test = -1;
                sh->stop = 1;
                cand.push_back(f);
            }
    }
    for (int w = 0; w < jobs; w++) {
        int st;
        waitpid(pids[w], &st, 0);
        bool bad = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
        if (bad && sh->slot[w].test >= 0) {
            Failure f;
            f.test = sh->slot[w].test;
            f.idx = sh->slot[w].idx;
            f.crash = true;
            f.msg = "crash";
            cand.push_back(f);
        }
    }
    for (auto &b : bufs) {
        std::istringstream is(b);
        std::string line;
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            char k;
            int ti;
            ls >> k >> ti;
            if (k == 'T') {
                uint64_t a, d, n, kn;
                ls >> a >> d >> n >> kn;
                all[ti].cases += a, all[ti].discarded += d, all[ti].nontrivial += n, all[ti].known += kn;
            }
            else if (k == 'L') {
                uint64_t n;
                ls >> n;
                std::string s;
                std::getline(ls, s);
                if (!s.empty()) all[ti].labels[s.substr(1)] += n;
            }
            else if (k == 'M') {
                double v;
                ls >> v;
                std::string s;
                std::getline(ls, s);
                if (s.empty()) continue;
                s = s.substr(1);
                auto it = all[ti].metrics.find(s);
                if (it == all[ti].metrics.end() || it->second < v) all[ti].metrics[s] = v;
            }
            else if (k == 'S') {
                std::string s;
                std::getline(ls, s);
                if (!s.empty() && all[ti].samples.size() < 3) all[ti].samples.push_back(s.substr(1));
            }
            else if (k == 'F') {
                Failure f;
                f.test = ti;
                ls >> f.idx;
                std::getline(ls, f.msg);
                cand.push_back(f);
            }
            else if (k == 'H') {
                uint64_t idx;
                ls >> idx;
                cand.back().hist.push_back({ti, idx});
            }
        }
    }
    std::sort(cand.begin(), cand.end(), [](auto &a, auto &b) { return std::make_pair(a.test, a.idx) < std::make_pair(b.test, b.idx); });
    for (auto &f : cand) {
        const Test &t = tests()[f.test];
        uint64_t ent = case_entropy(t, f.idx), gen = case_gen(t, f.idx);
        Failure g;
        int need = t.scheduled ? 1 : 3, got = 0, tries = t.scheduled ? 20 : 3;
        for (int i = 0; i < tries && got < need; i++) {
            if (attempt(t, nullptr, gen, ent, g)) got++;
            else if (!t.scheduled) break;
        }
        if (got < need) {
            // state left behind by earlier cases of the same process?
            std::vector<std::pair<int, uint64_t>> h;
            bool rep = false;
            for (size_t k = 2; !f.hist.empty() && !rep && k <= 64; k *= 2) {
                size_t n = std::min(k, f.hist.size());
                h.assign(f.hist.end() - n, f.hist.end());
                rep = attempt_history(h, g) && attempt_history(h, g);
                if (n == f.hist.size()) break;
            }
            if (!rep) {
                unreproduced++;
                fprintf(stderr, "note: %s case %" PRIu64 " failed once but did not reproduce:%s\n", t.name.c_str(), f.idx, f.msg.c_str());
                more = true;
                if (unreproduced < 3 || f.msg == "crash" || f.msg == "hang") continue;
                // the harness is deterministic, so the code under test is not
                g.msg = "not reproducible in isolation, third such failure of this run:" + f.msg;
                h.assign(1, {f.test, f.idx});
            }
            // drop what is not needed
            for (size_t i = 0; rep && i + 1 < h.size() && now() - t_start < deadline + 60;) {
                auto h2 = h;
                h2.erase(h2.begin() + i);
                Failure g2;
                attempts++;
                if (attempt_history(h2, g2)) h = h2, g = g2;
                else i++;
            }
            std::string path = replaydir + "/" + g_prop + "-" + g_variant + "-" + t.name + ".json";
            std::ofstream o(path);
            o << "{\"property\": " << jstr(g_prop) << ", \"variant\": " << jstr(g_variant) << ", \"test\": " << jstr(t.name) << ", \"fixture_seed\": " << g_seed
              << ", \"tier\": " << jstr(g_thorough ? "thorough" : "quick") << ", \"message\": " << jstr(g.msg) << ",\n \"case\": " << jstr(g.desc) << ",\n \"history\": [";
            for (size_t i = 0; i < h.size(); i++) o << (i ? ", " : "") << "[" << jstr(tests()[h[i].first].name) << ", " << h[i].second << "]";
            o << "]}\n";
            printf("FAILED %s/%s case %" PRIu64 ": %s\n  case: %s\n  history: %zu cases\nREPLAY-FILE %s\n", g_prop.c_str(), t.name.c_str(), f.idx, g.msg.c_str(), g.desc.c_str(), h.size(), path.c_str());
            viol = path, rc = 1, more = false;
            break;
        }
        g.test = f.test;
        g.idx = f.idx;
        if (g.crash) g.choices = record_choices_until_crash(t, gen, ent);
        Failure before = g;
        if (!t.scheduled && g.msg.find("terminate") == std::string::npos) {
            // confirm the recorded choices reproduce, then shrink
            Failure h = g;
            if (attempt(t, &g.choices, 0, ent, h)) g = shrink(t, g, ent, shrink_budget, attempts);
            // final confirmation of the shrunk case, 3 times
            int ok = 0;
            for (int i = 0; i < 3; i++) {
                Failure h2;
                std::vector<uint64_t> cc = g.choices;
                if (attempt(t, &cc, 0, ent, h2)) {
                    ok++;
                    g.msg = h2.msg;
                    if (!h2.desc.empty()) g.desc = h2.desc;
                }
            }
            if (ok < 3) g = before;
        }
        g.test = f.test;
        g.idx = f.idx;
        std::string path = replaydir + "/" + g_prop + "-" + g_variant + "-" + t.name + ".json";
        write_replay(path, g, ent);
        printf("FAILED %s/%s case %" PRIu64 ": %s\n  case: %s\n  choices: %zu\n", g_prop.c_str(), t.name.c_str(), f.idx, g.msg.c_str(), g.desc.c_str(), g.choices.size());
        printf("REPLAY-FILE %s\n", path.c_str());
        viol = path;
        rc = 1;
        more = false;
        break;
    }
    if (now() - t_start > deadline || sh->next >= (int64_t)work.size()) more = false;
    }
    // stats
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"variant\": " << jstr(g_variant) << ", \"fixture_s\": " << t_fix << ", \"wall_s\": " << now() - t_start << ", \"planned\": " << work.size()
          << ", \"shrink_attempts\": " << attempts << ", \"unreproduced\": " << unreproduced << ", \"violation\": " << jstr(viol) << ", \"tests\": [";
        bool first = true;
        for (auto &[ti, s] : all) {
            o << (first ? "" : ",") << "\n {\"name\": " << jstr(tests()[ti].name) << ", \"cases\": " << s.cases << ", \"discarded\": " << s.discarded
              << ", \"nontrivial\": " << s.nontrivial << ", \"known\": " << s.known << ", \"labels\": {";
            first = false;
            bool f2 = true;
            for (auto &l : s.labels) o << (f2 ? "" : ", ") << jstr(l.first) << ": " << l.second, f2 = false;
            o << "}, \"max\": {";
            f2 = true;
            for (auto &m : s.metrics) {
                std::string v = fmt("%.6g", m.second);
                if (v.find("nan") != std::string::npos || v.find("inf") != std::string::npos) v = jstr(v);
                o << (f2 ? "" : ", ") << jstr(m.first) << ": " << v, f2 = false;
            }
            o << "}, \"samples\": [";
            f2 = true;
            for (auto &x : s.samples) o << (f2 ? "" : ", ") << jstr(x), f2 = false;
            o << "]}";
        }
        o << "]}\n";
    }
    uint64_t tot = 0;
    for (auto &[ti, s] : all) {
        tot += s.cases;
        printf("  %-40s cases %-7" PRIu64 " nontrivial %-7" PRIu64 "%s", tests()[ti].name.c_str(), s.cases, s.nontrivial, s.discarded ? fmt(" discarded %" PRIu64, s.discarded).c_str() : "");
        for (auto &m : s.metrics) printf(" %s=%.3g", m.first.c_str(), m.second);
        printf("\n");
    }
    printf("%s/%s: %" PRIu64 " of %zu cases in %.1f s, rc=%d\n", g_prop.c_str(), g_variant.c_str(), tot, work.size(), now() - t_start, rc);
    fflush(stdout);
    return rc;
}
}  // namespace pbt

// Interposed on libstdc++'s std::random_device (used by the library for its
// seeds): every word comes from the deterministic streams above.
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return pbt::entropy_next(); }
}  // namespace std

// a harness may re-execute itself in another role
extern "C" int pbt_role(int, char **) __attribute__((weak));
int main(int argc, char **argv)
{
    if (pbt_role) {
        int r = pbt_role(argc, argv);
        if (r >= 0) _exit(r);
    }
    // run on a thread with a large stack: key generation keeps big objects there
    struct A { int c; char **v; int r; } a{argc, argv, 2};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1024ull << 20);
    pthread_t t;
    pthread_create(&t, &at, [](void *p) -> void * {
        A *a = (A *)p;
        a->r = pbt::real_main(a->c, a->v);
        return nullptr;
    }, &a);
    pthread_join(t, nullptr);
    fflush(nullptr);
    _exit(a.r);
}
