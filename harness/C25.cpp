// C25: memory. Every operation runs on objects that lie flush against
// inaccessible pages (which also stops the FFT assembly), in memory that was
// filled with two different kinds of garbage: the results must be equal, the
// inputs and the bytes around the objects untouched, and nothing may be left
// allocated. The other runs of this property are the harnesses of other
// properties under AddressSanitizer and UndefinedBehaviorSanitizer.
#include <malloc.h>
#include <sys/mman.h>

#include <mutex>
#include <new>
#include <unordered_set>

#include "boot.hpp"
using namespace tf;

#if defined(__SANITIZE_ADDRESS__)
constexpr bool ASAN = true;
#else
constexpr bool ASAN = false;
#endif

// ---- the heap: filled with garbage; aligned and plain storage kept apart --------
static std::atomic<uint64_t> HEAP_GARBAGE{0};
static void paint(void *p, size_t n, uint64_t pat)
{
    char *c = (char *)p;
    for (; n >= 8; n -= 8, c += 8) memcpy(c, &pat, 8);
    memcpy(c, &pat, n);
}
#if !defined(__SANITIZE_ADDRESS__)
namespace {
struct AlignedBlocks {
    std::mutex mu;
    std::array<const void *, 1 << 16> slot{};  // open addressing, no allocation
    static size_t h(const void *p) { return pbt::mix64((uint64_t)p) & 0xffff; }
    void add(const void *p)
    {
        std::lock_guard l(mu);
        size_t i = h(p);
        while (slot[i] && slot[i] != (void *)-1) i = (i + 1) & 0xffff;
        slot[i] = p;
    }
    bool take(const void *p)
    {
        std::lock_guard l(mu);
        for (size_t i = h(p); slot[i]; i = (i + 1) & 0xffff)
            if (slot[i] == p) return slot[i] = (void *)-1, true;
        return false;
    }
};
AlignedBlocks &aligned_blocks()
{
    static AlignedBlocks b;
    return b;
}
[[noreturn]] void mismatch(const char *what)
{
    fprintf(stderr, "%s\n", what);
    abort();
}
}  // namespace
void *operator new(size_t n)
{
    void *p = malloc(n);
    if (!p) throw std::bad_alloc();
    if (uint64_t g = HEAP_GARBAGE) paint(p, n, g);
    return p;
}
void *operator new(size_t n, std::align_val_t a)
{
    void *p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
    if (!p) throw std::bad_alloc();
    aligned_blocks().add(p);
    if (uint64_t g = HEAP_GARBAGE) paint(p, n, g);
    return p;
}
void operator delete(void *p) noexcept
{
    if (p && aligned_blocks().take(p)) mismatch("aligned storage freed by the plain operator delete");
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, std::align_val_t) noexcept
{
    if (p && !aligned_blocks().take(p)) mismatch("plain storage freed by the aligned operator delete");
    free(p);
}
void operator delete(void *p, size_t, std::align_val_t a) noexcept { operator delete(p, a); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::align_val_t a) noexcept { operator delete(p, a); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { operator delete(p, a); }
#endif

// ---- guarded objects --------------------------------------------------------------
constexpr size_t PAGE = 4096;
struct Region {
    char *base = nullptr, *obj = nullptr;
    size_t len = 0, n = 0, room = 0;
    void map(size_t size, size_t align, bool end, size_t off = 0)
    {
        n = size;
        room = (n + off + PAGE - 1) / PAGE * PAGE;
        len = room + 2 * PAGE;
        base = (char *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED || mprotect(base + PAGE, room, PROT_READ | PROT_WRITE)) {
            fprintf(stderr, "mmap failed\n");
            _exit(77);
        }
        obj = end ? base + PAGE + (room - n) / align * align - off : base + PAGE + off;
    }
    static char canary(size_t i) { return (char)(0x5b + 37 * i); }
    void ready(uint64_t pat)
    {
        for (char *p = base + PAGE; p < base + PAGE + room; p++) *p = canary(p - base);
        paint(obj, n, pat);
    }
    bool intact() const
    {
        for (char *p = base + PAGE; p < base + PAGE + room; p++) {
            if (p == obj) p += n;
            if (p < base + PAGE + room && *p != canary(p - base)) return false;
        }
        return true;
    }
    void drop() { munmap(base, len); }
};
template <class T>
constexpr size_t align_of() { return sizeof(T) % 64 ? alignof(T) : 64; }
// shared keys: read-only once generated
template <class T>
struct Shared {
    Region r;
    T &make()
    {
        r.map(sizeof(T), align_of<T>(), true);
        return *(T *)r.obj;
    }
    void seal() { mprotect(r.base + PAGE, r.room, PROT_READ); }
    const T &operator*() const { return *(const T *)r.obj; }
    explicit operator bool() const { return r.obj; }
};
// the words of a value, without padding
template <class T>
static uint64_t value(const T &t)
{
    if constexpr (requires { t.size(); t[0]; }) {
        using E = std::remove_cvref_t<decltype(t[0])>;
        uint64_t h = t.size();
        for (size_t i = 0; i < t.size(); i++) {
            if constexpr (std::is_same_v<E, bool>)
                h = h * 3 + t[i];
            else if constexpr (std::is_arithmetic_v<E>) {
                uint64_t w = 0;
                auto v = t[i];
                memcpy(&w, &v, sizeof v);
                h = (h ^ w) * 0x9e3779b97f4a7c15ull;
                h ^= h >> 29;
            }
            else
                h = pbt::hash2(h, value(t[i]));
        }
        return h;
    }
    else if constexpr (requires { t.value; })
        return t.value;
    else
        return (uint64_t)t;
}

struct Env {
    Bulk b;
    uint64_t pat;
    bool end;
    std::vector<Region> regs;
    struct Input {
        std::function<uint64_t()> now;
        uint64_t was;
    };
    std::vector<Input> inputs;
    uint64_t h = 1;
    size_t off;  // distance from the guard page: 16 is what malloc and the stack provide
    Env(uint64_t seed, uint64_t pat, bool end, size_t off = 0) : b(seed), pat(pat), end(end), off(off) {}
    ~Env()
    {
        for (auto &r : regs) r.drop();
    }
    template <class T>
    T &raw()
    {
        regs.emplace_back();
        regs.back().map(sizeof(T), align_of<T>(), end, alignof(T) <= 16 ? off : 0);
        regs.back().ready(pat);
        return *(T *)regs.back().obj;
    }
    template <class T>
    const T &input(T &t)
    {
        inputs.push_back({[&t] { return value(t); }, value(t)});
        return t;
    }
    template <class T>
    void out(const T &t) { h = pbt::hash2(h, value(t)); }
    uint32_t pick(std::initializer_list<uint32_t> special, uint32_t n)
    {
        if (b.below(2)) return b.below(n);
        return special.begin()[b.below(special.size())] % n;
    }
    // -- values
    template <class A>
    void words(A &a)
    {
        using T = std::remove_cvref_t<decltype(a[0])>;
        switch (b.below(6)) {
        case 0: for (auto &v : a) v = 0; break;
        case 1: for (auto &v : a) v = std::numeric_limits<T>::max(); break;
        case 2: for (auto &v : a) v = (T)1 << (W<T> - 1); break;
        case 3: for (auto &v : a) v = 0; a[a.size() - 1] = 1, a[b.below(a.size())] = (T)b.next(); break;
        default: for (auto &v : a) v = (T)b.next();
        }
    }
    template <class P>
    const TLWE<P> &tlwe()
    {
        auto &x = raw<TLWE<P>>();
        words(x);
        return input(x);
    }
    template <class P>
    const Polynomial<P> &poly()
    {
        auto &x = raw<Polynomial<P>>();
        words(x);
        return input(x);
    }
    template <class P>
    const Polynomial<P> &small()
    {
        auto &x = raw<Polynomial<P>>();
        for (auto &v : x) v = (typename P::T)(b.below(3) - 1);
        if (b.below(2)) x = {}, x[b.below(P::n)] = 1;
        return input(x);
    }
    template <class P>
    const TRLWE<P> &trlwe()
    {
        auto &x = raw<TRLWE<P>>();
        for (auto &p : x) words(p);
        return input(x);
    }
    template <class P>
    const Key<P> &key()
    {
        auto &x = raw<Key<P>>();
        for (auto &v : x) v = (typename P::T)(P::key_value_min + (int)b.below(P::key_value_max - P::key_value_min + 1));
        return input(x);
    }
    template <class P>
    const TRGSWFFT<P> &trgswfft()
    {
        auto &x = raw<TRGSWFFT<P>>();
        for (auto &r : x)
            for (auto &p : r)
                for (auto &v : p) v = std::ldexp((double)(int64_t)b.next(), -20);
        return input(x);
    }
};

// private key switching takes minutes to prepare when instrumented: fewer digits
struct Small11 {
    using domainP = lvl1param;
    using targetP = lvl1param;
    static constexpr uint32_t t = 2, basebit = 2;
    static constexpr ErrorDistribution errordist = ErrorDistribution::ModularGaussian;
    static const inline double α = lvl1param::α;
};
using Q11 = std::conditional_t<ASAN, Small11, lvl11param>;

static Shared<SecretKey> SK;
static EvalKey *EK;
static Shared<BootstrappingKeyFFT<lvl01param>> BF;
static Shared<BootstrappingKeyFFT<lvl02param>> BF2;
static Shared<BootstrappingKeyNTT<lvl01param>> BN;
static Shared<BootstrappingKeyRAINTT<lvl01param>> BR;
static Shared<KeySwitchingKey<lvl10param>> K10;
static Shared<KeySwitchingKey<lvl1hparam>> K1H;
static Shared<KeySwitchingKey<lvl20param>> K20;
static Shared<KeySwitchingKey<lvl21param>> K21;
static Shared<KeySwitchingKey<lvl2hparam>> K2H;
static Shared<KeySwitchingKey<lvl31param>> K31;
static Shared<SubsetKeySwitchingKey<lvl21param>> S21;
static Shared<PrivateKeySwitchingKey<Q11>> P11;
static Shared<PrivateKeySwitchingKey<lvl21param>> P21;
static Shared<SubsetPrivateKeySwitchingKey<lvl21param>> SP21;
static Shared<TLWE2TRLWEIKSKey<Q11>> T2T;
static Shared<AnnihilateKey<lvl1param>> AHK;
static Shared<relinKeyFFT<lvl1param>> RLK;
constexpr bool BFV = lvl1param::k == 1;

FIXTURE(seed)
{
    mallopt(M_ARENA_MAX, 1);
    SK.make();
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { new ((void *)&*SK) SecretKey; });
    EK = new EvalKey(*SK);
    std::vector<std::function<void()>> jobs;
    if (!ASAN) {  // a minute or more
        jobs.push_back([] { EK->emplaceprivksk4cb<lvl11param>(*SK); });
        jobs.push_back([] { auto &k = P21.make(); Polynomial<lvl1param> f{}; f[0] = 1; privkskgen<lvl21param>(k, f, *SK); });
        jobs.push_back([] { auto &k = SP21.make(); Polynomial<lvl1param> f{}; f[0] = 1; subprivkskgen<lvl21param>(k, f, *SK); });
    }
    jobs.push_back([] { auto &k = P11.make(); Polynomial<lvl1param> f{}; f[0] = 1; privkskgen<Q11>(k, f, *SK); });
    jobs.push_back([] { tlwe2trlweikskgen<Q11>(T2T.make(), *SK); });
    jobs.push_back([] { bkfftgen<lvl02param>(BF2.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl31param>(K31.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl21param>(K21.make(), *SK); });
    jobs.push_back([] { subikskgen<lvl21param>(S21.make(), *SK); });
    jobs.push_back([] { bkfftgen<lvl01param>(BF.make(), *SK); });
    jobs.push_back([] { bknttgen<lvl01param>(BN.make(), *SK); });
    jobs.push_back([] { bkrainttgen<lvl01param>(BR.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl10param>(K10.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl1hparam>(K1H.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl20param>(K20.make(), *SK); });
    jobs.push_back([] { ikskgen<lvl2hparam>(K2H.make(), *SK); });
    jobs.push_back([] { EK->emplaceiksk<lvl10param>(*SK); });
    jobs.push_back([] { EK->emplacebkfft<lvl01param>(*SK); });
    jobs.push_back([] { annihilatekeygen<lvl1param>(AHK.make(), *SK); });
    if constexpr (BFV) jobs.push_back([] { RLK.make() = relinKeyFFTgen<lvl1param>((*SK).key.get<lvl1param>()); });
    build_parallel(seed, jobs);
    SK.seal(), BF.seal(), BF2.seal(), BN.seal(), BR.seal(), K10.seal(), K1H.seal(), K20.seal(), K21.seal(), K2H.seal(), K31.seal(), S21.seal(), P11.seal();
    if (!ASAN) P21.seal(), SP21.seal();
    T2T.seal(), AHK.seal();
    if constexpr (BFV) RLK.seal();
}

// ---- operations -------------------------------------------------------------------
struct Op {
    std::string name;
    std::function<void(Env &)> run;
    bool heavy = false;
};
static std::vector<Op> &ops();
#define OP(name, ...) v.push_back({std::string(name) + " " + L, [](Env &e) { __VA_ARGS__; }})
#define HEAVY(name, ...) v.push_back({std::string(name) + " " + L, [](Env &e) { __VA_ARGS__; }, true})

template <class P>
static void ring_ops(std::vector<Op> &v)
{
    const std::string L = pname<P>();
    using T = typename P::T;
    OP("X^a", auto &r = e.raw<Polynomial<P>>(); PolynomialMulByXai<P>(r, e.poly<P>(), e.pick({0, 1, P::n - 1, P::n, P::n + 1, 2 * P::n - 1}, 2 * P::n)); e.out(r));
    OP("X^a-1", auto &r = e.raw<Polynomial<P>>(); PolynomialMulByXaiMinusOne<P>(r, e.poly<P>(), e.pick({0, 1, P::n - 1, P::n, P::n + 1, 2 * P::n - 1}, 2 * P::n)); e.out(r));
    OP("automorphism", auto &r = e.raw<Polynomial<P>>(); Automorphism<P>(r, e.poly<P>(), e.pick({0, P::n - 2, P::n, 2 * P::n - 2}, 2 * P::n) | 1); e.out(r));
    OP("IFFT", auto &r = e.raw<PolynomialInFD<P>>(); TwistIFFT<P>(r, e.poly<P>()); e.out(r));
    OP("FFT", auto &a = e.raw<PolynomialInFD<P>>(); for (auto &x : a) x = (double)(int64_t)(S<T>)(T)e.b.next(); auto &r = e.raw<Polynomial<P>>(); TwistFFT<P>(r, e.input(a)); e.out(r));
    OP("PolyMul", auto &r = e.raw<Polynomial<P>>(); PolyMul<P>(r, e.small<P>(), e.poly<P>()); e.out(r));
    OP("PolyMulNaive", auto &r = e.raw<Polynomial<P>>(); PolyMulNaive<P>(r, e.poly<P>(), e.poly<P>()); e.out(r));
    OP("INTT", auto &r = e.raw<PolynomialNTT<P>>(); TwistINTT<P>(r, e.poly<P>()); e.out(r));
    OP("NTT", auto &a = e.raw<PolynomialNTT<P>>(); TwistINTT<P>(a, e.poly<P>()); auto &r = e.raw<Polynomial<P>>(); TwistNTT<P>(r, a); e.out(r));
    OP("MulInFD", auto &a = e.raw<PolynomialInFD<P>>(); auto &b = e.raw<PolynomialInFD<P>>(); auto &r = e.raw<PolynomialInFD<P>>();
       for (auto &x : a) x = (double)(int32_t)e.b.next(); for (auto &x : b) x = (double)(int32_t)e.b.next();
       MulInFD<P::n>(r, e.input(a), e.input(b)); FMAInFD<P::n>(r, a, b); e.out(r));
    OP("decomposition", auto &r = e.raw<DecomposedPolynomial<P>>(); Decomposition<P>(r, e.poly<P>()); e.out(r));
    OP("decomposition NTT", auto &r = e.raw<DecomposedPolynomialNTT<P>>(); DecompositionNTT<P>(r, e.poly<P>()); e.out(r));
    OP("TRLWE encryption", auto &k = e.key<P>(); auto &r = e.raw<TRLWE<P>>(); r = trlweSymEncrypt<P>(e.poly<P>(), k); e.out(r);
       e.out(trlwePhase<P>(r, k)); e.out(trlweSymDecrypt<P>(r, k)));
    OP("TRLWE integers", auto &k = e.key<P>(); auto &m = e.raw<Polynomial<P>>(); for (auto &x : m) x = e.b.below(2); auto &r = e.raw<TRLWE<P>>();
       r = trlweSymIntEncrypt<P>(e.input(m), k); e.out(r); e.out(trlweSymIntDecrypt<P>(r, k)));
    OP("TRGSW encryption", auto &k = e.key<P>(); auto &r = e.raw<TRGSW<P>>(); r = trgswSymEncrypt<P>(e.small<P>(), k); e.out(r);
       auto &f = e.raw<TRGSWFFT<P>>(); f = ApplyFFT2trgsw<P>(r); e.out(f));
    OP("TRGSWFFT encryption", auto &k = e.key<P>(); auto &r = e.raw<TRGSWFFT<P>>(); r = trgswfftSymEncrypt<P>(e.small<P>(), k); e.out(r));
    OP("half TRGSW encryption", auto &k = e.key<P>(); auto &r = e.raw<HalfTRGSW<P>>(); r = halftrgswSymEncrypt<P>(e.small<P>(), k); e.out(r));
    OP("TRGSWNTT encryption", auto &k = e.key<P>(); auto &r = e.raw<TRGSWNTT<P>>(); r = trgswnttSymEncrypt<P>(e.small<P>(), k); e.out(r));
    OP("external product", auto &r = e.raw<TRLWE<P>>(); trgswfftExternalProduct<P>(r, e.trlwe<P>(), e.trgswfft<P>()); e.out(r));
    OP("external product NTT", auto &k = e.key<P>(); auto &g = e.raw<TRGSWNTT<P>>(); g = trgswnttSymEncrypt<P>(e.small<P>(), k); auto &r = e.raw<TRLWE<P>>();
       trgswnttExternalProduct<P>(r, e.trlwe<P>(), e.input(g)); e.out(r));
    OP("CMUX", auto &r = e.raw<TRLWE<P>>(); CMUXFFT<P>(r, e.trgswfft<P>(), e.trlwe<P>(), e.trlwe<P>()); e.out(r));
    OP("extract", auto &r = e.raw<TLWE<P>>(); SampleExtractIndex<P>(r, e.trlwe<P>(), e.pick({0, 1, P::n - 1}, P::n)); e.out(r));
    OP("inverse extract", auto &r = e.raw<TRLWE<P>>(); InvSampleExtractIndex<P>(r, e.tlwe<P>(), e.pick({0, 1, P::n - 1}, P::n)); e.out(r));
}
template <class P>
static void tlwe_ops(std::vector<Op> &v)
{
    const std::string L = pname<P>();
    using T = typename P::T;
    OP("TLWE encryption", auto &k = e.key<P>(); auto &r = e.raw<TLWE<P>>(); r = tlweSymEncrypt<P>((T)e.b.next(), k); e.out(r); e.h += tlweSymDecrypt<P>(r, k));
    OP("bit vectors", auto &k = e.key<P>(); std::vector<uint8_t> m(e.b.below(20)); for (auto &x : m) x = e.b.below(2); auto r = bootsSymEncrypt<P>(m, k); for (auto &x : r) e.out(x);
       e.out(bootsSymDecrypt<P>(r, k)));
    OP("NOT", auto &r = e.raw<TLWE<P>>(); HomNOT<P>(r, e.tlwe<P>()); e.out(r));
    OP("copy", auto &r = e.raw<TLWE<P>>(); HomCOPY<P>(r, e.tlwe<P>()); e.out(r));
    OP("constants", auto &r = e.raw<TLWE<P>>(); HomCONSTANTONE<P>(r); e.out(r); HomCONSTANTZERO<P>(r); e.out(r));
}
template <class P, auto *K>
static void ks_ops(std::vector<Op> &v, const char *name)
{
    const std::string L = name;
    using D = typename P::domainP;
    using G = typename P::targetP;
    OP("key switching", auto &r = e.raw<TLWE<G>>(); IdentityKeySwitch<P>(r, e.tlwe<D>(), **K); e.out(r));
    OP("key switching of 3", using A = std::array<TLWE<D>, 3>; auto &x = e.raw<A>(); for (auto &y : x) e.words(y); auto &r = e.raw<std::array<TLWE<G>, 3>>();
       CatIdentityKeySwitch<P, 3>(r, e.input(x), **K); e.out(r));
}
static void other_ops(std::vector<Op> &v)
{
    using P = lvl1param;
    using G2 = lvl2param;
    using D = lvl0param;
    const std::string L = "lvl1";
    OP("decomposition RAINTT", auto &r = e.raw<DecomposedPolynomialRAINTT<P>>(); DecompositionRAINTT<P>(r, e.poly<P>()); e.out(r));
    OP("external product RAINTT", auto &k = e.key<P>(); auto &g = e.raw<TRGSWRAINTT<P>>(); g = trgswrainttSymEncrypt<P>(e.small<P>(), k); e.out(g); auto &r = e.raw<TRLWE<P>>();
       trgswrainttExternalProduct<P>(r, e.trlwe<P>(), e.input(g)); e.out(r));
    OP("half external product", auto &k = e.key<P>(); auto &g = e.raw<HalfTRGSWFFT<P>>(); g = halftrgswfftSymEncrypt<P>(e.small<P>(), k); auto &r = e.raw<TRLWE<P>>();
       halftrgswfftExternalProduct<P>(r, e.poly<P>(), e.input(g)); e.out(r));
    OP("subset key switching", auto &r = e.raw<TLWE<P>>(); SubsetIdentityKeySwitch<lvl21param>(r, e.tlwe<G2>(), *S21); e.out(r));
    OP("private key switching 11", auto &r = e.raw<TRLWE<P>>(); PrivKeySwitch<Q11>(r, e.tlwe<P>(), *P11); e.out(r));
    if (!ASAN) OP("private key switching 21", auto &r = e.raw<TRLWE<P>>(); PrivKeySwitch<lvl21param>(r, e.tlwe<G2>(), *P21); e.out(r));
    if (!ASAN) OP("subset private key switching", auto &r = e.raw<TRLWE<P>>(); SubsetPrivKeySwitch<lvl21param>(r, e.tlwe<P>(), *SP21); e.out(r));
    OP("TLWE to TRLWE", auto &r = e.raw<TRLWE<P>>(); TLWE2TRLWEIKS<Q11>(r, e.tlwe<P>(), *T2T); e.out(r));
    OP("automorphism of samples", auto &r = e.raw<TRLWE<P>>(); int i = e.b.below(P::nbit); EvalAuto<P>(r, e.trlwe<P>(), (1 << (P::nbit - i)) + 1, (*AHK)[i]); e.out(r));
    OP("annihilation", auto &r = e.raw<TRLWE<P>>(); AnnihilateKeySwitching<P>(r, e.trlwe<P>(), *AHK); e.out(r));
    OP("packing", std::vector<TLWE<P>> l(e.pick({1, 2, 3, 4, 5, 8}, 12) + 1); for (auto &x : l) e.words(x); auto &r = e.raw<TRLWE<P>>(); TLWE2TRLWEPacking<P>(r, l, *AHK); e.out(r));
    OP("Cheng's packing", std::vector<TLWE<P>> l(1 << e.b.below(5)); for (auto &x : l) e.words(x); auto &r = e.raw<TRLWE<P>>(); TLWE2TRLWEChengsPacking<P>(r, l, *AHK); e.out(r));
    OP("rotation", auto &r = e.raw<TRLWE<P>>(); BlindRotate<lvl01param>(r, e.tlwe<D>(), *BF, e.poly<P>()); e.out(r));
    OP("rotation of a sample", auto &r = e.raw<TRLWE<P>>(); BlindRotate<lvl01param>(r, e.tlwe<D>(), *BF, e.trlwe<P>()); e.out(r));
    OP("bootstrapping", auto &r = e.raw<TLWE<P>>(); GateBootstrappingTLWE2TLWEFFT<lvl01param>(r, e.tlwe<D>(), *BF, e.poly<P>()); e.out(r));
    OP("bootstrapping NTT", auto &r = e.raw<TLWE<P>>(); GateBootstrappingTLWE2TLWENTT<lvl01param>(r, e.tlwe<D>(), *BN, e.poly<P>()); e.out(r));
    OP("bootstrapping RAINTT", auto &r = e.raw<TLWE<P>>(); GateBootstrappingTLWE2TLWERAINTT<lvl01param>(r, e.tlwe<D>(), *BR, e.poly<P>()); e.out(r));
    OP("bootstrapping to level 2", auto &r = e.raw<TLWE<G2>>(); GateBootstrappingTLWE2TLWEFFT<lvl02param>(r, e.tlwe<D>(), *BF2, e.poly<G2>()); e.out(r));
    OP("many outputs", using A = std::array<TLWE<P>, 5>; auto &r = e.raw<A>(); GateBootstrappingManyLUT<lvl01param, 5>(r, e.tlwe<D>(), *BF, e.poly<P>()); e.out(r));
    OP("NAND", auto &r = e.raw<TLWE<P>>(); HomNAND<lvl10param, lvl01param, P::μ>(r, e.tlwe<P>(), e.tlwe<P>(), *EK); e.out(r));
    OP("ANDYN lvl0", auto &r = e.raw<TLWE<D>>(); HomANDYN<lvl01param, P::μ, lvl10param>(r, e.tlwe<D>(), e.tlwe<D>(), *EK); e.out(r));
    OP("XNOR", auto &r = e.raw<TLWE<P>>(); HomXNOR<lvl10param, lvl01param, P::μ>(r, e.tlwe<P>(), e.tlwe<P>(), *EK); e.out(r));
    OP("MUX", auto &r = e.raw<TLWE<P>>(); HomMUX<P>(r, e.tlwe<P>(), e.tlwe<P>(), e.tlwe<P>(), *EK); e.out(r));
    OP("NMUX", auto &r = e.raw<TLWE<P>>(); HomNMUX<P>(r, e.tlwe<P>(), e.tlwe<P>(), e.tlwe<P>(), *EK); e.out(r));
    if (!ASAN) OP("circuit bootstrapping", auto &r = e.raw<TRGSWFFT<P>>(); CircuitBootstrappingFFT<lvl01param, lvl11param>(r, e.tlwe<D>(), *EK); e.out(r));
    if (!ASAN) OP("circuit bootstrapping both", auto &r = e.raw<TRGSWFFT<P>>(); auto &s = e.raw<TRGSWFFT<P>>(); CircuitBootstrappingFFTwithInv<lvl01param, lvl11param>(r, s, e.tlwe<D>(), *EK);
       e.out(r); e.out(s));
    if constexpr (BFV) {
        OP("memory read", constexpr int A = 4; using AD = std::array<TRGSWFFT<P>, A>; using DA = std::array<TRLWE<P>, 1 << A>; auto &a = e.raw<AD>(); auto &d = e.raw<DA>();
           for (auto &g : a) g = e.trgswfft<P>(); for (auto &x : d) for (auto &p : x) e.words(p); auto &r = e.raw<TRLWE<P>>(); RAMUX<P, A>(r, e.input(a), e.input(d)); e.out(r));
        OP("memory write", constexpr int A = 3; using AD = std::array<std::array<TRGSWFFT<P>, A>, 2>; auto &a = e.raw<AD>(); for (auto &h : a) for (auto &g : h) g = e.trgswfft<P>();
           auto &r = e.raw<TRLWE<P>>(); RAMwriteBar<P, A>(r, e.trlwe<P>(), e.trlwe<P>(), e.b.below(1 << A), e.input(a)); e.out(r));
        OP("upper table", constexpr int A = 6; constexpr int B = 3; using AD = std::array<TRGSWFFT<P>, A>; using DA = std::array<TRLWE<P>, 1 << (A - B)>; auto &a = e.raw<AD>();
           auto &d = e.raw<DA>(); for (auto &g : a) g = e.trgswfft<P>(); for (auto &x : d) for (auto &p : x) e.words(p); auto &r = e.raw<TRLWE<P>>();
           UROMUX<P, A, B>(r, e.input(a), e.input(d)); e.out(r));
        OP("lower table", constexpr int A = 5; constexpr int B = 5; using AD = std::array<TRGSWFFT<P>, A>; auto &a = e.raw<AD>(); for (auto &g : a) g = e.trgswfft<P>();
           std::vector<TLWE<P>> r(P::n >> B); LROMUX<P, A, B>(r, e.input(a), e.trlwe<P>()); for (auto &x : r) e.out(x));
        OP("product", auto &r = e.raw<TRLWE<P>>(); TRLWEMult<P>(r, e.trlwe<P>(), e.trlwe<P>(), *RLK); e.out(r));
        OP("product without relinearisation", auto &r = e.raw<TRLWE3<P>>(); TRLWEMultWithoutRelinerization<P>(r, e.trlwe<P>(), e.trlwe<P>()); e.out(r));
        OP("relinearisation", using R3 = TRLWE3<P>; auto &x = e.raw<R3>(); for (auto &p : x) e.words(p); auto &r = e.raw<TRLWE<P>>(); Relinearization<P>(r, e.input(x), *RLK); e.out(r));
        OP("product of TLWE", auto &r = e.raw<TLWE<P>>(); TLWEMult<Q11>(r, e.tlwe<P>(), e.tlwe<P>(), *RLK, *P11); e.out(r));
        OP("relinearisation key", auto &k = e.key<P>(); auto &r = e.raw<relinKeyFFT<P>>(); r = relinKeyFFTgen<P>(k); e.out(r));
    }
    OP("digits", constexpr int N = 4; using A = std::array<TLWE<P>, N>; auto &r = e.raw<A>();
       HomDecomp<lvl21param, lvl10param, lvl01param, 3, N>(r, e.tlwe<G2>(), *K21, *K10, *BF); e.out(r));
    OP("secret key", auto &k = e.raw<SecretKey>(); new (&k) SecretKey; e.out(k.key.lvl0); e.out(k.key.lvlhalf); e.out(k.key.lvl1); e.out(k.key.lvl2); e.out(k.key.lvl3));
    OP("annihilation key", auto &k = e.raw<AnnihilateKey<P>>(); annihilatekeygen<P>(k, *SK); e.out(k));
    OP("level 1-0 switching key", auto &k = e.raw<KeySwitchingKey<lvl10param>>(); ikskgen<lvl10param>(k, *SK); e.out(k));
    HEAVY("bootstrapping key", auto &k = e.raw<BootstrappingKeyFFT<lvl01param>>(); bkfftgen<lvl01param>(k, *SK); e.out(k));
    HEAVY("NTT bootstrapping key", auto &k = e.raw<BootstrappingKeyNTT<lvl01param>>(); bknttgen<lvl01param>(k, *SK); e.out(k));
    HEAVY("RAINTT bootstrapping key", auto &k = e.raw<BootstrappingKeyRAINTT<lvl01param>>(); bkrainttgen<lvl01param>(k, *SK); e.out(k));
    HEAVY("plain bootstrapping key", auto &k = e.raw<BootstrappingKey<lvl01param>>(); bkgen<lvl01param>(k, *SK); e.out(k));
    HEAVY("subset switching key", auto &k = e.raw<SubsetKeySwitchingKey<lvl21param>>(); subikskgen<lvl21param>(k, *SK); e.out(k));
    HEAVY("level 2-1 switching key", auto &k = e.raw<KeySwitchingKey<lvl21param>>(); ikskgen<lvl21param>(k, *SK); e.out(k));
}
static std::vector<Op> &ops()
{
    static std::vector<Op> v = [] {
        std::vector<Op> v;
        ring_ops<lvl1param>(v), ring_ops<lvl2param>(v);
        tlwe_ops<lvl0param>(v), tlwe_ops<lvlhalfparam>(v), tlwe_ops<lvl1param>(v), tlwe_ops<lvl2param>(v), tlwe_ops<lvl3param>(v);
        ks_ops<lvl10param, &K10>(v, "10"), ks_ops<lvl1hparam, &K1H>(v, "1h"), ks_ops<lvl20param, &K20>(v, "20"), ks_ops<lvl21param, &K21>(v, "21"),
            ks_ops<lvl2hparam, &K2H>(v, "2h"), ks_ops<lvl31param, &K31>(v, "31");
        other_ops(v);
        return v;
    }();
    return v;
}

// ---- checks ------------------------------------------------------------------------
// everything an operation may find on its stack
static void __attribute__((noinline)) paint_stack(uint64_t pat)
{
    volatile uint64_t *p = (volatile uint64_t *)__builtin_alloca(12 << 20);
    for (size_t i = 0; i < (12 << 20) / 8; i++) p[i] = pat;
}
// how much of it was written since
static size_t __attribute__((noinline)) stack_used(uint64_t pat)
{
    volatile uint64_t *p = (volatile uint64_t *)__builtin_alloca(12 << 20);
    size_t i = 0;
    while (i < (12 << 20) / 8 && p[i] == pat) i++;
    return (12 << 20) - 8 * i;
}
// what a program's main thread has by default, less what its callers use
constexpr size_t STACK = (8 << 20) - (256 << 10);
static const uint64_t PATS[] = {0x0101010101010101, 0xffffffffffffffff, 0x7ff8000000000000, 0xbff123456789abcd, 0x7fffffff7fffffff, 0x4141414141414141};
// the callee's frame starts at any multiple of 16, as the ABI allows
static void __attribute__((noinline)) shifted(uint32_t by, const std::function<void()> &f)
{
    volatile char *p = (volatile char *)__builtin_alloca(16 * (by + 1));
    p[0] = 1;
    f();
    p[1] = 1;
}
static uint64_t run_once(Case &c, const Op &o, uint64_t seed, uint64_t entropy, uint64_t pat, bool end, uint32_t shift, size_t off)
{
    uint64_t h = 0;
    std::string bad;
    size_t used = 0;
    pbt::fresh_thread(entropy, [&] {
        Env e(seed, pat, end, off);
        HEAP_GARBAGE = pat;
        mallopt(M_PERTURB, (int)(pat & 0xff));
        paint_stack(pat);
        shifted(shift, [&] { o.run(e); });
        if (!ASAN) used = stack_used(pat);
        HEAP_GARBAGE = 0;
        mallopt(M_PERTURB, 0);
        for (auto &r : e.regs)
            if (!r.intact()) bad = "wrote next to an object";
        for (auto &i : e.inputs)
            if (i.now() != i.was) bad = "modified an input";
        h = e.h;
    });
    if (!bad.empty()) c.fail("%s %s", o.name.c_str(), bad.c_str());
    c.metric("stack bytes", used);
    if (used > STACK) c.fail("%s overflows a stack of 8 MB: it uses %s%zu bytes", o.name.c_str(), used == 12 << 20 ? "at least " : "", used);
    return h;
}
static void garbage_case(Case &c, const std::vector<const Op *> &of, uint64_t i)
{
    const Op &o = *of[i];
    uint64_t seed = c.seed(), entropy = c.seed();
    uint64_t p = PATS[c.below(6)], q = PATS[c.below(6)];
    if (p == q) q = ~q;
    bool end = c.flip();
    uint32_t s1 = c.below(8), s2 = c.below(8);
    size_t o1 = 0, o2 = c.flip() ? 16 * c.below(4) : 0;
    if (c.chance(1, 4)) o1 = 16 * c.below(4);
    c.note("%s on garbage %016" PRIx64 " and %016" PRIx64, o.name.c_str(), p, q);
    c.label(o.name);
    c.nontrivial();
    uint64_t a = run_once(c, o, seed, entropy, p, end, s1, o1), b = run_once(c, o, seed, entropy, q, !end, s2, o2);
    if (a != b) c.fail("%s gives other words when memory is filled with %016" PRIx64 " than with %016" PRIx64 ": it reads memory it has not written", o.name.c_str(), p, q);
}
static std::vector<const Op *> select(bool heavy)
{
    std::vector<const Op *> v;
    for (auto &o : ops())
        if (o.heavy == heavy) v.push_back(&o);
    return v;
}
PROPERTY(guarded, 1200, 40000)
{
    auto v = select(false);
    garbage_case(c, v, c.stratum(v.size()));
}
PROPERTY(guarded_keys, 6, 60)
{
    auto v = select(true);
    garbage_case(c, v, c.stratum(v.size()));
}
// operations, threads and evaluation keys give back what they took
static size_t in_use()
{
    auto m = mallinfo2();
    return m.uordblks + m.hblkhd;
}
static void neutral(Case &c, const char *what, const std::function<void()> &f)
{
    if (ASAN) return;
    f();
    f();
    size_t before = in_use();
    const int n = 4;
    for (int i = 0; i < n; i++) f();
    size_t after = in_use();
    double grown = after > before ? (double)(after - before) / n : 0;
    c.metric("bytes kept per repetition", grown);
    if (grown >= 512) c.fail("%s: %.0f more bytes are allocated after every repetition", what, grown);
}
PROPERTY(neutral_operations, 200, 4000)
{
    auto v = select(false);
    int n = c.range(1, 4);
    std::vector<const Op *> sel;
    std::string text;
    for (int i = 0; i < n; i++) sel.push_back(v[i ? c.below(v.size()) : c.stratum(v.size())]), text += (i ? ", " : "") + sel.back()->name;
    c.note("%s, in threads that end", text.c_str());
    c.nontrivial();
    uint64_t seed = c.seed();
    neutral(c, text.c_str(), [&] {
        pbt::fresh_thread(seed, [&] {
            for (auto *o : sel) {
                Env e(seed, 0, true);
                o->run(e);
            }
        });
    });
}
PROPERTY(neutral_keys, 8, 100)
{
    bool heavy = !ASAN && c.chance(1, 3);
    int copies = c.below(3);
    unsigned what = c.below(16);
    c.note("evaluation keys, parts %x%s, %d copies", what, heavy ? " and private keys" : "", copies);
    c.nontrivial();
    auto life = [&] {
        pbt::fresh_thread(1, [&] {
            EvalKey ek(*SK);
            if (what & 1) ek.emplaceiksk<lvl10param>(*SK);
            if (what & 2) ek.emplacebkfft<lvl01param>(*SK);
            if (what & 4) ek.emplacebk<lvl01param>(*SK), ek.emplacebk2bkfft<lvl01param>();
            if (what & 8) ek.emplaceiksk<lvl10param>(*SK), ek.emplaceiksk<lvl20param>(*SK);
            if (heavy) {
                Polynomial<lvl1param> f{};
                ek.emplaceprivksk<lvl11param>("a", f, *SK);
            }
            std::vector<EvalKey> v(copies, ek);
        });
    };
    if (heavy) return life();  // freed as it was allocated
    neutral(c, "evaluation keys", life);
}
