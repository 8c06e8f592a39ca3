// Choice-sequence property-based testing runtime.
//
// A test case is a sequence of integer choices drawn from `Case`; it is a pure
// function of that sequence (and of the seed of the shared key material, the
// "fixture").  The library's own randomness is made deterministic by
// interposing std::random_device and running every case in a fresh thread, so
// the thread_local generators of the library start afresh from a stream that
// is derived from the case.  One case in four is preceded by another one in the
// same thread.  Failing cases are shrunk on the choice sequence
// and written to a replay file.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ULL + 0x1234567)); }

// Expands one choice into bulk data; the choice is what is recorded and shrunk.
struct Bulk {
    uint64_t s;
    explicit Bulk(uint64_t seed) : s(mix64(seed ^ 0xabcdef)) {}
    uint64_t next() { return mix64(s += 0x9e3779b97f4a7c15ULL); }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((__uint128_t)next() * n) >> 64) : 0; }
};

struct Fail {
    std::string msg, key;  // key: identifies a known finding
};
struct Discard {};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Stats {
    uint64_t cases = 0, discarded = 0, nontrivial = 0, known = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> metrics;  // maxima
    std::vector<std::string> samples;
};

class Case {
public:
    // generation
    uint64_t gen_state = 0;
    const std::vector<uint64_t> *replay = nullptr;
    size_t pos = 0;
    std::vector<uint64_t> rec;
    // observation
    bool is_nontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> metrics;
    std::string desc;
    bool thorough = false;

    // integer in [0, n) that runs through all values as the cases go on (a
    // second one runs through all combinations with the first)
    uint64_t stratum(uint64_t n);
    uint64_t gen0 = 0, strata = 1;
    bool started = false;
    // uniform integer in [0, n); n==0 means the whole 64-bit range
    uint64_t below(uint64_t n);
    uint64_t u64() { return below(0); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool flip() { return below(2); }
    // true with probability num/den; shrinks to false
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    uint64_t seed() { return below(1ULL << 32); }
    template <class C>
    auto &pick(const C &c) { return c[below(c.size())]; }

    // unsigned word biased to boundaries
    template <class T>
    T word()
    {
        constexpr int W = sizeof(T) * 8;
        switch (below(8)) {
        case 0: return (T)below(4);
        case 1: return (T)(0 - (T)below(4));
        case 2: { T v = (T)1 << below(W); return (T)(v + (T)range(-2, 2)); }
        case 3: { T v = (T)0 - ((T)1 << below(W)); return (T)(v + (T)range(-2, 2)); }
        default: return (T)u64();
        }
    }
    void label(const std::string &s) { labels[s]++; }
    void nontrivial() { is_nontrivial = true; }
    void metric(const std::string &s, double v)
    {
        if (!(v < 1e300)) v = v != v ? 0 : 1e300;
        if (v < -1e300) v = -1e300;
        auto it = metrics.find(s);
        if (it == metrics.end() || it->second < v) metrics[s] = v;
    }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void known(const char *key, const char *f, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void discard() { throw Discard{}; }
};

struct Test {
    std::string name;
    int quick, thorough;  // number of cases
    std::function<void(Case &)> fn;
    bool pure;       // draws nothing from the library's generators: no fresh thread needed
    bool scheduled;  // depends on thread schedules: replay may need several attempts
};
struct Reg {
    Reg(const char *name, int q, int t, std::function<void(Case &)> fn, bool pure = false, bool scheduled = false);
};
// Set by each harness: builds the shared key material (in the parent, before
// forking the workers). Must be deterministic in `seed`.
extern void (*fixture)(uint64_t seed);
struct FixReg { FixReg(void (*f)(uint64_t)) { fixture = f; } };

// ---- entropy interposition -------------------------------------------------
void entropy_set(uint64_t key);              // this thread: restart stream from key
void entropy_set_global(uint64_t key);       // threads that never called entropy_set
uint64_t entropy_words();                    // words handed out process-wide
using EntropyFn = uint32_t (*)(void *, uint64_t index);
void entropy_override(EntropyFn f, void *u); // this thread: full control (nullptr: off)

// Runs f in a fresh thread (large stack, own entropy stream); rethrows Fail.
void fresh_thread(uint64_t entropy_key, const std::function<void()> &f);

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, q, t) \
    static void PBT_CAT(prop_, name)(pbt::Case &); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, PBT_CAT(prop_, name)); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Case &c)
#define PROPERTY_PURE(name, q, t) \
    static void PBT_CAT(prop_, name)(pbt::Case &); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, PBT_CAT(prop_, name), true); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Case &c)
#define PROPERTY_SCHED(name, q, t) \
    static void PBT_CAT(prop_, name)(pbt::Case &); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, PBT_CAT(prop_, name), false, true); \
    static void PBT_CAT(prop_, name)([[maybe_unused]] pbt::Case &c)
#define FIXTURE(seedname) \
    static void pbt_fixture_(uint64_t); \
    static pbt::FixReg pbt_fixreg_(pbt_fixture_); \
    static void pbt_fixture_([[maybe_unused]] uint64_t seedname)

}  // namespace pbt
