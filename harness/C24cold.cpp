// C24, first use: every case is a process in which the very first calls into
// the library come from several threads at once. Oracle: schoolbook products,
// round trips, and the same words in every thread.
#include <sys/wait.h>
#include <unistd.h>

#include <barrier>
#include <mutex>
#include <thread>

#include "bounds.hpp"
using namespace tf;

struct Step {
    const char *name;
    std::function<std::string()> run;  // empty: fine
};
template <class P>
static std::string tlwe_trip(uint64_t s)
{
    Bulk b(s);
    auto key = std::make_unique<Key<P>>();
    for (auto &v : *key) v = b.below(2);
    for (int i = 0; i < 4; i++) {
        typename P::T m = (typename P::T)b.next();
        TLWE<P> x = tlweSymEncrypt<P>(m, *key);
        if (std::fabs(dist<typename P::T>(ref_phase<P>(x, *key), m)) > 9.5 * alpha<P>() + ulp<P>()) return "TLWE encryption is not valid";
    }
    return "";
}
template <class P>
static std::string trlwe_trip(uint64_t s)
{
    Bulk b(s);
    auto key = std::make_unique<Key<P>>();
    for (auto &v : *key) v = b.below(2);
    Polynomial<P> m;
    for (auto &v : m) v = (typename P::T)b.next();
    auto x = std::make_unique<TRLWE<P>>(trlweSymEncrypt<P>(m, *key));
    auto ph = ref_phase<P>(*x, *key), ph2 = trlwePhase<P>(*x, *key);
    for (uint32_t i = 0; i < P::n; i++) {
        if (std::fabs(dist<typename P::T>(ph[i], m[i])) > 10 * alpha<P>() + 8 * P::k * ulp<P>() + std::ldexp(1.0, -48)) return "TRLWE encryption is not valid";
        if (std::fabs(dist<typename P::T>(ph[i], ph2[i])) > 8 * P::k * ulp<P>() + std::ldexp(1.0, -48)) return "TRLWE phase is wrong";
    }
    return "";
}
template <class P>
static std::string product(uint64_t s)
{
    Bulk b(s);
    Polynomial<P> x, y, r;
    // 64-bit words are multiplied modulo p = 2^64-2^32+1 (see C02)
    constexpr bool wide = sizeof(typename P::T) == 8;
    for (auto &v : x) v = (typename P::T)((int64_t)b.below(512) - (wide ? 0 : 256));
    for (auto &v : y) v = (typename P::T)(wide ? b.below(1ull << 40) : b.next());
    PolyMul<P>(r, x, y);
    auto w = negacyclic(x, y);
    for (uint32_t i = 0; i < P::n; i++)
        if (std::fabs(dist<typename P::T>(r[i], w[i])) > (wide ? std::ldexp(1.0, -31) : 4 * ulp<P>())) return "polynomial product is wrong";
    return "";
}
template <class P>
static std::string external(uint64_t s, Backend be)
{
    Bulk b(s);
    auto key = std::make_unique<Key<P>>();
    for (auto &v : *key) v = b.below(2);
    Polynomial<P> m{}, mu;
    m[0] = 1;
    for (auto &v : mu) v = (typename P::T)b.next();
    auto x = std::make_unique<TRLWE<P>>(make_trlwe<P>(b, mu, *key)), r = std::make_unique<TRLWE<P>>();
    if (be == FFT) {
        auto g = std::make_unique<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(m, *key));
        trgswfftExternalProduct<P>(*r, *x, *g);
    }
    else if (be == NTT) {
        auto g = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(m, *key));
        trgswnttExternalProduct<P>(*r, *x, *g);
    }
    else if constexpr (std::is_same_v<P, lvl1param>) {
        auto g = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(m, *key));
        trgswrainttExternalProduct<P>(*r, *x, *g);
    }
    auto ph = ref_phase<P>(*r, *key);
    for (uint32_t i = 0; i < P::n; i++)
        if (std::fabs(dist<typename P::T>(ph[i], mu[i])) > 1.0 / 64) return std::string("external product is wrong: ") + bname(be);
    return "";
}
static std::string keygen(uint64_t)
{
    auto sk = std::make_unique<SecretKey>();
    int h = hw<lvl2param>(sk->key.lvl2);
    if (h < (int)lvl2param::n * (int)lvl2param::k / 4 || h > (int)(lvl2param::n * lvl2param::k * 3) / 4) return "secret key is not uniform";
    return "";
}
static Step gen_step(Case &c)
{
    uint64_t s = c.seed();
    switch (c.below(11)) {
    case 0: return {"secret key", [s] { return keygen(s); }};
    case 1: return {"TLWE lvl0", [s] { return tlwe_trip<lvl0param>(s); }};
    case 2: return {"TLWE lvl1", [s] { return tlwe_trip<lvl1param>(s); }};
    case 3: return {"TRLWE lvl1", [s] { return trlwe_trip<lvl1param>(s); }};
    case 4: return {"TRLWE lvl2", [s] { return trlwe_trip<lvl2param>(s); }};
    case 5: return {"product lvl1", [s] { return product<lvl1param>(s); }};
    case 6: return {"product lvl2", [s] { return product<lvl2param>(s); }};
    case 7: return {"external product FFT lvl1", [s] { return external<lvl1param>(s, FFT); }};
    case 8: return {"external product FFT lvl2", [s] { return external<lvl2param>(s, FFT); }};
    case 9: return {"external product NTT lvl1", [s] { return external<lvl1param>(s, NTT); }};
    default: return {"external product RAINTT lvl1", [s] { return external<lvl1param>(s, RAINTT); }};
    }
}
PROPERTY_SCHED(first_use, 160, 4000)
{
    int nt = c.range(2, 8);
    std::vector<std::vector<Step>> steps(nt);
    bool same = c.flip();
    std::string d;
    for (int t = 0; t < nt; t++) {
        if (same && t) steps[t] = steps[0];
        else
            for (int i = c.range(1, 3); i > 0; i--) steps[t].push_back(gen_step(c));
        d += fmt("%s[", t ? " " : "");
        for (auto &s : steps[t]) d += std::string(&s == &steps[t][0] ? "" : ", ") + s.name;
        d += "]";
        for (auto &s : steps[t]) c.label(s.name);
    }
    uint64_t seed = c.seed();
    c.note("%d threads at once: %s", nt, d.c_str());
    c.nontrivial();
    int fd[2];
    if (pipe(fd)) c.discard();
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) c.discard();
    if (p == 0) {
        close(fd[0]);
        alarm(200);
        std::barrier sync(nt);
        std::vector<std::string> bad(nt);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&, t] {
                try {
                    pbt::fresh_thread(pbt::hash2(seed, t), [&, t] {
                        sync.arrive_and_wait();
                        for (auto &s : steps[t]) {
                            std::string e = s.run();
                            if (!e.empty() && bad[t].empty()) bad[t] = std::string(s.name) + ": " + e;
                        }
                    });
                }
                catch (pbt::Fail &f) {
                    bad[t] = f.msg;
                }
            });
        for (auto &t : ts) t.join();
        std::string all;
        for (auto &b : bad)
            if (!b.empty()) all = b;
        if (write(fd[1], all.data(), all.size()) < 0) _exit(3);
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[512];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (!s.empty()) c.fail("first use by %d threads at once: %s", nt, s.c_str());
    if (WIFSIGNALED(st)) c.fail("first use by %d threads at once: signal %d", nt, WTERMSIG(st));
    if (WEXITSTATUS(st)) c.fail("first use by %d threads at once: exit status %d", nt, WEXITSTATUS(st));
}
