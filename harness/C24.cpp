// C24: determinism and concurrency. Oracle: the words computed first by one
// thread alone; every repetition - later, in another order, with another
// number of OpenMP threads, or from many threads at once - must give the same.
#include <barrier>
#include <thread>

#include "boot.hpp"
using namespace tf;

#if defined(__SANITIZE_THREAD__)
constexpr bool SMALL = true;
#else
constexpr bool SMALL = false;
#endif

static SecretKey *SK;
static EvalKey *EK;
static Big<BootstrappingKeyRAINTT<lvl01param>> BKR;
static Big<AnnihilateKey<lvl1param>> AHK;
static Big<relinKeyFFT<lvl1param>> RLK;
static Big<TLWE2TRLWEIKSKey<lvl11param>> T2T;
struct Watch {
    const void *p;
    size_t n;
    uint64_t d;
    const char *name;
};
static std::vector<Watch> WATCH;
static uint64_t digest(const void *p, size_t n, size_t stride)
{
    const char *b = (const char *)p;
    uint64_t h = 1, w;
    for (size_t i = 0; i + 8 <= n; i += stride) {
        memcpy(&w, b + i, 8);
        h = (h ^ w) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
    }
    return h;
}
constexpr size_t STRIDE = 1024 + 8;
template <class T>
static void watch(const T &t, const char *name) { WATCH.push_back({&t, sizeof t, digest(&t, sizeof t, STRIDE), name}); }

FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    EK = new EvalKey(*SK);
    std::vector<std::function<void()>> jobs;
    if (!SMALL) {
        jobs.push_back([] { EK->emplaceprivksk4cb<lvl21param>(*SK); });
        jobs.push_back([] { EK->emplacebkfft<lvl02param>(*SK); });
        jobs.push_back([] { EK->emplaceiksk<lvl21param>(*SK); });
        jobs.push_back([] { EK->emplaceiksk<lvl1hparam>(*SK); });
        jobs.push_back([] { EK->emplacebkfft<lvlh1param>(*SK); });
        jobs.push_back([] { T2T = big<TLWE2TRLWEIKSKey<lvl11param>>(); tlwe2trlweikskgen<lvl11param>(*T2T, *SK); });
    }
    jobs.push_back([] { EK->emplacebkntt<lvl01param>(*SK); });
    jobs.push_back([] { BKR = big<BootstrappingKeyRAINTT<lvl01param>>(); bkrainttgen<lvl01param>(*BKR, *SK); });
    jobs.push_back([] { EK->emplacebkfft<lvl01param>(*SK); });
    jobs.push_back([] { EK->emplaceiksk<lvl10param>(*SK); });
    jobs.push_back([] { EK->emplaceiksk<lvl20param>(*SK); });
    jobs.push_back([] { AHK = big<AnnihilateKey<lvl1param>>(); annihilatekeygen<lvl1param>(*AHK, *SK); });
    jobs.push_back([] { RLK = big<relinKeyFFT<lvl1param>>(); *RLK = relinKeyFFTgen<lvl1param>(SK->key.get<lvl1param>()); });
    build_parallel(seed, jobs);
    watch(*BKR, "RAINTT bootstrapping key"), watch(*AHK, "annihilation key"), watch(*RLK, "relinearisation key");
    watch(*EK->bkfftlvl01, "bkfftlvl01"), watch(*EK->bknttlvl01, "bknttlvl01"), watch(*EK->iksklvl10, "iksklvl10"), watch(*EK->iksklvl20, "iksklvl20");
    if (!SMALL) {
        watch(*EK->iksklvl1h, "iksklvl1h"), watch(*EK->bkfftlvlh1, "bkfftlvlh1");
        watch(*EK->bkfftlvl02, "bkfftlvl02"), watch(*EK->iksklvl21, "iksklvl21"), watch(*T2T, "TLWE to TRLWE key");
        for (auto &[n, k] : EK->privksklvl21) watch(*k, "privksklvl21");
    }
    watch(*SK, "secret key");
}

// ---- inputs of a program ---------------------------------------------------------
struct Pool {
    std::array<TLWE<lvl0param>, 4> w0;
    std::array<TLWE<lvl1param>, 6> w1;
    std::array<TLWE<lvl2param>, 3> w2;
    std::array<TRLWE<lvl1param>, 4> r1;
    std::array<TRLWE<lvl2param>, 2> r2;
    std::array<TRGSWFFT<lvl1param>, 3> g1;
    std::array<TRGSWFFT<lvl2param>, 1> g2;
    std::array<TRGSWNTT<lvl1param>, 1> n1;
    std::array<TRGSWRAINTT<lvl1param>, 1> ra1;
    std::array<HalfTRGSWFFT<lvl1param>, 1> h1;
    std::array<Polynomial<lvl1param>, 3> p1;
    std::array<Polynomial<lvl2param>, 2> p2;
    std::vector<TLWE<lvl1param>> list;
};
template <class P>
static TLWE<P> bit_of(Case &c) { return tlweSymEncrypt<P>(c.flip() ? (typename P::T)P::μ : (typename P::T)(0 - P::μ), SK->key.get<P>()); }
template <class P>
static Polynomial<P> noise_poly(Case &c)
{
    Polynomial<P> p;
    Bulk b(c.seed());
    for (auto &v : p) v = (typename P::T)b.next();
    return p;
}
static Big<Pool> gen_pool(Case &c)
{
    auto q = big<Pool>();
    const auto &k1 = SK->key.lvl1;
    const auto &k2 = SK->key.lvl2;
    for (auto &x : q->w0) x = bit_of<lvl0param>(c);
    for (auto &x : q->w1) x = bit_of<lvl1param>(c);
    for (auto &x : q->w2) x = bit_of<lvl2param>(c);
    for (auto &x : q->r1) x = trlweSymEncrypt<lvl1param>(noise_poly<lvl1param>(c), k1);
    for (auto &x : q->r2) x = trlweSymEncrypt<lvl2param>(noise_poly<lvl2param>(c), k2);
    Polynomial<lvl1param> b1{};
    Polynomial<lvl2param> b2{};
    for (auto &x : q->g1) b1[0] = c.below(2), x = trgswfftSymEncrypt<lvl1param>(b1, k1);
    for (auto &x : q->g2) b2[0] = c.below(2), x = trgswfftSymEncrypt<lvl2param>(b2, k2);
    for (auto &x : q->n1) b1[0] = c.below(2), x = trgswnttSymEncrypt<lvl1param>(b1, k1);
    for (auto &x : q->ra1) b1[0] = c.below(2), x = trgswrainttSymEncrypt<lvl1param>(b1, k1);
    for (auto &x : q->h1) b1[0] = c.below(2), x = halftrgswfftSymEncrypt<lvl1param>(b1, k1);
    for (auto &x : q->p1) x = noise_poly<lvl1param>(c);
    for (auto &x : q->p2) x = noise_poly<lvl2param>(c);
    for (int i = c.range(1, 6); i > 0; i--) q->list.push_back(bit_of<lvl1param>(c));
    return q;
}
static std::vector<uint64_t> snapshot(const Pool &q)
{
    return {digest(&q.w0, sizeof q.w0, 8), digest(&q.w1, sizeof q.w1, 8), digest(&q.w2, sizeof q.w2, 8), digest(&q.r1, sizeof q.r1, 8), digest(&q.r2, sizeof q.r2, 8),
            digest(&q.g1, sizeof q.g1, 8), digest(&q.g2, sizeof q.g2, 8), digest(&q.n1, sizeof q.n1, 8), digest(&q.ra1, sizeof q.ra1, 8), digest(&q.h1, sizeof q.h1, 8), digest(&q.p1, sizeof q.p1, 8),
            digest(&q.p2, sizeof q.p2, 8), digest(q.list.data(), q.list.size() * sizeof q.list[0], 8)};
}

// ---- operations -------------------------------------------------------------------
struct Op {
    const char *name;
    std::function<uint64_t(const Pool &)> run;  // digest of the result's words
};
// the value, without padding
template <class T>
static uint64_t value(const T &t)
{
    if constexpr (requires { t.size(); t[0]; }) {
        using E = std::remove_cvref_t<decltype(t[0])>;
        if constexpr (std::is_arithmetic_v<E>) {
            uint64_t h = 1;
            for (auto v : t) {
                uint64_t w = 0;
                memcpy(&w, &v, sizeof v);
                h = (h ^ w) * 0x9e3779b97f4a7c15ull;
                h ^= h >> 29;
            }
            return h;
        }
        else {
            uint64_t h = 7;
            for (auto &e : t) h = pbt::hash2(h, value(e));
            return h;
        }
    }
    else if constexpr (requires { t.value; })
        return t.value;
    else
        return (uint64_t)t;
}
template <class T, class F>
static uint64_t into(F f)
{
    struct alignas(64) Box {
        T v;
    };
    auto r = std::make_unique<Box>();
    f(r->v);
    return value(r->v);
}
#define RUN(T, ...) [=](const Pool &q) -> uint64_t { return into<T>([&](T &r) { __VA_ARGS__; }); }
using T0 = TLWE<lvl0param>;
using T1 = TLWE<lvl1param>;
using T2 = TLWE<lvl2param>;
using R1 = TRLWE<lvl1param>;
using R2 = TRLWE<lvl2param>;
using A3 = std::array<T0, 3>;
using A4 = std::array<T1, 4>;
using A2H = std::array<T1, 4>;
template <class P>
static uint64_t noisy_encryption(const Key<P> &key, typename P::T m)
{
    // fresh randomness: the words differ, the message does not
    TLWE<P> x = tlweSymEncrypt<P>(m, key);
    double e = dist<typename P::T>(ref_phase<P>(x, key), m);
    return std::fabs(e) < 9.5 * alpha<P>() + ulp<P>();
}
constexpr int KINDS = 62, BIG_FIRST = 48, BIG_LAST = 57;
static bool available(int kind) { return !SMALL || kind < BIG_FIRST || kind > BIG_LAST; }
static Op gen_op(Case &c, int kind)
{
    int a = c.below(6), b = c.below(6), d = c.below(6), e = c.below(1 << 16);
    int a0 = a % 4, b0 = b % 4, a2 = a % 3, g = d % 3, r = b % 4, s = b % 2;
    switch (kind) {
    case 0: return {"NAND", RUN(T1, (HomNAND<lvl10param, lvl01param, lvl1param::μ>(r, q.w1[a], q.w1[b], *EK)))};
    case 1: return {"XOR", RUN(T1, (HomXOR<lvl10param, lvl01param, lvl1param::μ>(r, q.w1[a], q.w1[b], *EK)))};
    case 2: return {"AND lvl0", RUN(T0, (HomAND<lvl01param, lvl1param::μ, lvl10param>(r, q.w0[a0], q.w0[b0], *EK)))};
    case 3: return {"ORYN lvl0", RUN(T0, (HomORYN<lvl01param, lvl1param::μ, lvl10param>(r, q.w0[a0], q.w0[b0], *EK)))};
    case 4: return {"MUX", RUN(T1, HomMUX<lvl1param>(r, q.w1[a], q.w1[b], q.w1[d], *EK))};
    case 5: return {"KS 10", RUN(T0, IdentityKeySwitch<lvl10param>(r, q.w1[a], *EK->iksklvl10))};
    case 6: return {"KS 20", RUN(T0, IdentityKeySwitch<lvl20param>(r, q.w2[a2], *EK->iksklvl20))};
    case 7: return {"bootstrap FFT", RUN(T1, GateBootstrappingTLWE2TLWEFFT<lvl01param>(r, q.w0[a0], *EK->bkfftlvl01, q.p1[g]))};
    case 8: return {"bootstrap NTT", RUN(T1, GateBootstrappingTLWE2TLWENTT<lvl01param>(r, q.w0[a0], *EK->bknttlvl01, q.p1[g]))};
    case 9: return {"bootstrap RAINTT", RUN(T1, GateBootstrappingTLWE2TLWERAINTT<lvl01param>(r, q.w0[a0], *BKR, q.p1[g]))};
    case 10: return {"external product FFT", RUN(R1, trgswfftExternalProduct<lvl1param>(r, q.r1[b0], q.g1[g]))};
    case 11: return {"external product NTT", RUN(R1, trgswnttExternalProduct<lvl1param>(r, q.r1[b0], q.n1[0]))};
    case 12: return {"external product RAINTT", RUN(R1, trgswrainttExternalProduct<lvl1param>(r, q.r1[b0], q.ra1[0]))};
    case 13: return {"external product lvl2", RUN(R2, trgswfftExternalProduct<lvl2param>(r, q.r2[s], q.g2[0]))};
    case 14: return {"CMUX", RUN(R1, CMUXFFT<lvl1param>(r, q.g1[g], q.r1[a0], q.r1[b0]))};
    case 15: return {"CMUX lvl2", RUN(R2, CMUXFFT<lvl2param>(r, q.g2[0], q.r2[s], q.r2[1 - s]))};
    case 16: return {"PolyMul lvl1", RUN(Polynomial<lvl1param>, {
                         auto x = q.p1[g];
                         for (auto &v : x) v = v % 1024 - 512;
                         PolyMul<lvl1param>(r, x, q.p1[(g + 1) % 3]);
                     })};
    case 17: return {"PolyMul lvl2", RUN(Polynomial<lvl2param>, PolyMul<lvl2param>(r, q.p2[s], q.p2[1 - s]))};
    case 18: return {"decrypt TLWE", [=](const Pool &q) -> uint64_t { return tlweSymDecrypt<lvl1param>(q.w1[a], SK->key.lvl1) + 2 * tlweSymDecrypt<lvl0param>(q.w0[a0], SK->key.lvl0); }};
    case 19: return {"decrypt TRLWE", [=](const Pool &q) -> uint64_t {
                         auto v = trlweSymDecrypt<lvl1param>(q.r1[b0], SK->key.lvl1);
                         uint64_t h = 0;
                         for (bool x : v) h = h * 3 + x;
                         return h;
                     }};
    case 20: return {"phase lvl2", [=](const Pool &q) -> uint64_t { return value(trlwePhase<lvl2param>(q.r2[s], SK->key.lvl2)); }};
    case 21: return {"extract", RUN(T1, SampleExtractIndex<lvl1param>(r, q.r1[b0], e % lvl1param::n))};
    case 22: return {"packing", [=](const Pool &q) -> uint64_t {
                         return into<R1>([&](R1 &r) {
                             auto l = q.list;
                             TLWE2TRLWEPacking<lvl1param>(r, l, *AHK);
                         });
                     }};
    case 23: return {"annihilation", RUN(R1, AnnihilateKeySwitching<lvl1param>(r, q.r1[b0], *AHK))};
    case 24: return {"multiplication", RUN(R1, TRLWEMult<lvl1param>(r, q.r1[a0], q.r1[b0], *RLK))};
    case 25: return {"rotation", RUN(R1, for (uint32_t k = 0; k <= lvl1param::k; k++) PolynomialMulByXai<lvl1param>(r[k], q.r1[b0][k], e % (2 * lvl1param::n)))};
    case 26: return {"encryption", [=](const Pool &) -> uint64_t { return noisy_encryption<lvl1param>(SK->key.lvl1, (uint32_t)e << 16) + 2 * noisy_encryption<lvl2param>(SK->key.lvl2, (uint64_t)e << 40) + 4 * noisy_encryption<lvl0param>(SK->key.lvl0, e); }};
    case 27: return {"ring encryption", [=](const Pool &q) -> uint64_t {
                         auto x = std::make_unique<R1>(trlweSymEncrypt<lvl1param>(q.p1[g], SK->key.lvl1));
                         auto ph = trlwePhase<lvl1param>(*x, SK->key.lvl1);
                         for (uint32_t i = 0; i < lvl1param::n; i++)
                             if (std::fabs(dist<uint32_t>(ph[i], q.p1[g][i])) > 10 * alpha<lvl1param>()) return 0;
                         return 1;
                     }};
    case 28: return {"automorphism", RUN(R1, for (uint32_t k = 0; k <= lvl1param::k; k++) Automorphism<lvl1param>(r[k], q.r1[b0][k], 2 * e + 1))};
    case 29: return {"automorphism of a sample", RUN(R1, EvalAuto<lvl1param>(r, q.r1[b0], (1 << (lvl1param::nbit - d)) + 1, (*AHK)[d]))};
    case 30: return {"half external product", RUN(R1, halftrgswfftExternalProduct<lvl1param>(r, q.p1[g], q.h1[0]))};
    case 31: return {"KS 10 of three", RUN(A3, {
                         std::array<T1, 3> x{q.w1[a], q.w1[b], q.w1[d]};
                         CatIdentityKeySwitch<lvl10param, 3>(r, x, *EK->iksklvl10);
                     })};
    case 32: return {"inverse extract", RUN(R1, InvSampleExtractIndex<lvl1param>(r, q.w1[a], e % lvl1param::n))};
    case 33: return {"rotation of a sample", RUN(R1, BlindRotate<lvl01param>(r, q.w0[a0], *EK->bkfftlvl01, q.r1[b0]))};
    case 34: return {"product without relinearisation", RUN(TRLWE3<lvl1param>, TRLWEMultWithoutRelinerization<lvl1param>(r, q.r1[a0], q.r1[b0]))};
    case 35: return {"decomposition lvl2", RUN(DecomposedPolynomial<lvl2param>, Decomposition<lvl2param>(r, q.p2[s]))};
    case 36: return {"decomposition NTT", RUN(DecomposedPolynomialNTT<lvl1param>, DecompositionNTT<lvl1param>(r, q.p1[g]))};
    case 37: return {"decomposition RAINTT", RUN(DecomposedPolynomialRAINTT<lvl1param>, DecompositionRAINTT<lvl1param>(r, q.p1[g]))};
    case 38: return {"NTT lvl2", RUN(Polynomial<lvl2param>, {
                         auto f = big<PolynomialNTT<lvl2param>>();
                         TwistINTT<lvl2param>(*f, q.p2[s]);
                         TwistNTT<lvl2param>(r, *f);
                     })};
    case 39: return {"memory read", RUN(R1, {
                         auto ad = big<std::array<TRGSWFFT<lvl1param>, 2>>();
                         (*ad)[0] = q.g1[g], (*ad)[1] = q.g1[(g + 1) % 3];
                         RAMUX<lvl1param, 2>(r, *ad, q.r1);
                     })};
    case 40: return {"memory write", RUN(R1, {
                         auto ad = big<std::array<std::array<TRGSWFFT<lvl1param>, 1>, 2>>();
                         (*ad)[0][0] = q.g1[g], (*ad)[1][0] = q.g1[(g + 1) % 3];
                         RAMwriteBar<lvl1param, 1>(r, q.r1[a0], q.r1[b0], s, *ad);
                     })};
    case 41: return {"upper table", RUN(R1, UROMUX<lvl1param, 3, 1>(r, q.g1, q.r1))};
    case 42: return {"lower table", [=](const Pool &q) -> uint64_t {
                         std::vector<T1> o(lvl1param::n >> 3);
                         LROMUX<lvl1param, 3, 3>(o, q.g1, q.r1[b0]);
                         return value(o);
                     }};
    case 43: return {"Cheng's packing", [=](const Pool &q) -> uint64_t {
                         return into<R1>([&](R1 &r) {
                             auto l = q.list;
                             TLWE2TRLWEChengsPacking<lvl1param>(r, l, *AHK);
                         });
                     }};
    case 44: return {"NAND NTT", RUN(T1, (GateBootstrappingNTT<lvl10param, lvl01param, lvl1param::μ>(r, q.w1[a], *EK)))};
    case 45: return {"bit vectors", [=](const Pool &) -> uint64_t {
                         std::vector<uint8_t> m(8);
                         for (int i = 0; i < 8; i++) m[i] = e >> i & 1;
                         return bootsSymDecrypt<lvl1param>(bootsSymEncrypt<lvl1param>(m, *SK), *SK) == m && bootsSymDecrypt<lvl0param>(bootsSymEncrypt<lvl0param>(m, *SK), *SK) == m;
                     }};
    case 46: return {"NOT, copy, constants", RUN(A4, {
                         HomNOT<lvl1param>(r[0], q.w1[a]);
                         HomCOPY<lvl1param>(r[1], q.w1[b]);
                         HomCONSTANTONE<lvl1param>(r[2]);
                         HomCONSTANTZERO<lvl1param>(r[3]);
                     })};
    case 47: return {"TRGSW encryption", [=](const Pool &q) -> uint64_t {
                         // encryptions of 1 in every form: their product with a sample keeps its phase
                         auto r = big<R1>();
                         Polynomial<lvl1param> one{};
                         one[0] = 1;
                         const auto &key = SK->key.lvl1;
                         if (d % 3 == 0) {
                             auto x = big<TRGSWFFT<lvl1param>>();
                             *x = trgswfftSymEncrypt<lvl1param>(one, key);
                             trgswfftExternalProduct<lvl1param>(*r, q.r1[b0], *x);
                         }
                         else if (d % 3 == 1) {
                             auto x = big<TRGSWNTT<lvl1param>>();
                             *x = trgswnttSymEncrypt<lvl1param>(one, key);
                             trgswnttExternalProduct<lvl1param>(*r, q.r1[b0], *x);
                         }
                         else {
                             auto x = big<TRGSWRAINTT<lvl1param>>();
                             *x = trgswrainttSymEncrypt<lvl1param>(one, key);
                             trgswrainttExternalProduct<lvl1param>(*r, q.r1[b0], *x);
                         }
                         auto p = trlwePhase<lvl1param>(*r, key), w = trlwePhase<lvl1param>(q.r1[b0], key);
                         for (uint32_t i = 0; i < lvl1param::n; i++)
                             if (std::fabs(dist<uint32_t>(p[i], w[i])) > 1. / 256) return 0;
                         return 1;
                     }};
    case 48: return {"bootstrap lvl2", RUN(T2, GateBootstrappingTLWE2TLWEFFT<lvl02param>(r, q.w0[a0], *EK->bkfftlvl02, q.p2[s]))};
    case 49: return {"KS 21", RUN(T1, IdentityKeySwitch<lvl21param>(r, q.w2[a2], *EK->iksklvl21))};
    case 50: return {"private KS", RUN(R1, PrivKeySwitch<lvl21param>(r, q.w2[a2], EK->getprivksk<lvl21param>("privksk4cb_" + std::to_string(s))))};
    case 51: return {"TLWE to TRLWE", RUN(R1, TLWE2TRLWEIKS<lvl11param>(r, q.w1[a], *T2T))};
    case 52: return {"circuit bootstrapping", RUN(TRGSWFFT<lvl1param>, (CircuitBootstrappingFFT<lvl02param, lvl21param>(r, q.w0[a0], *EK)))};
    case 53: return {"bootstrap many", [=](const Pool &q) -> uint64_t {
                         std::array<T1, 4> r{};
                         GateBootstrappingManyLUT<lvl01param, 4>(r, q.w0[a0], *EK->bkfftlvl01, q.p1[g]);
                         return value(r);
                     }};
    case 54: return {"NMUX", RUN(T1, HomNMUX<lvl1param>(r, q.w1[a], q.w1[b], q.w1[d], *EK))};
    case 55: return {"digits", RUN(A2H, (HomDecomp<lvl21param, lvl1hparam, lvlh1param, 4, 4>(r, q.w2[a2], *EK->iksklvl21, *EK->iksklvl1h, *EK->bkfftlvlh1)))};
    case 56: return {"KS 1h", RUN(TLWE<lvlhalfparam>, IdentityKeySwitch<lvl1hparam>(r, q.w1[a], *EK->iksklvl1h))};
    case 57: return {"circuit bootstrapping both", [=](const Pool &q) -> uint64_t {
                         auto r = big<std::array<TRGSWFFT<lvl1param>, 2>>();
                         CircuitBootstrappingFFTwithInv<lvl02param, lvl21param>((*r)[0], (*r)[1], q.w0[a0], *EK);
                         return value(*r);
                     }};
    case 58: return {"relinearisation", RUN(R1, relinKeySwitch<lvl1param>(r, q.p1[g], *RLK))};
    case 59: return {"relinearisation of a product", [=](const Pool &q) -> uint64_t {
                         alignas(64) TRLWE3<lvl1param> t;
                         TRLWEMultWithoutRelinerization<lvl1param>(t, q.r1[a0], q.r1[b0]);
                         return into<R1>([&](R1 &r) { Relinearization<lvl1param>(r, t, *RLK); });
                     }};
    case 60: return {"MUX without extraction", RUN(R1, HomMUXwoIKSandSE<lvl01param>(r, q.w0[a0], q.w0[b0], q.w0[d % 4], *EK))};
    case 61: return {"decomposition", RUN(DecomposedPolynomial<lvl1param>, Decomposition<lvl1param>(r, q.p1[g]))};
    default: return {"NAND", RUN(T1, (HomNAND<lvl10param, lvl01param, lvl1param::μ>(r, q.w1[a], q.w1[b], *EK)))};
    }
    (void)r;
}
static Op gen_op(Case &c)
{
    int kind;
    do kind = c.below(KINDS);
    while (!available(kind));
    return gen_op(c, kind);
}
struct Program {
    Big<Pool> pool;
    std::vector<Op> ops;
    std::vector<uint64_t> want;
    std::vector<uint64_t> before;
    std::string text;
};
static Program gen_program(Case &c, int maxops)
{
    Program p;
    p.pool = gen_pool(c);
    p.before = snapshot(*p.pool);
    int n = c.range(2, maxops);
    for (int i = 0; i < n; i++) {
        p.ops.push_back(gen_op(c));
        p.text += std::string(i ? ", " : "") + p.ops.back().name;
        c.label(p.ops.back().name);
    }
    c.note("%s", p.text.c_str());
    if (n > 2) c.nontrivial();
    for (auto &o : p.ops) p.want.push_back(o.run(*p.pool));
    return p;
}
static void inputs_kept(Case &c, const Program &p)
{
    auto now = snapshot(*p.pool);
    for (size_t i = 0; i < now.size(); i++)
        if (now[i] != p.before[i]) c.fail("an input was modified (group %zu)", i);
    for (auto &w : WATCH)
        if (digest(w.p, w.n, STRIDE) != w.d) c.fail("%s was modified", w.name);
}
// again, in other orders, among other operations, with OpenMP threads
PROPERTY(repeated, 120, 3000)
{
    Program p = gen_program(c, 12);
    for (int round = c.range(1, 3); round > 0; round--) {
        int threads = SMALL ? 1 : c.flip() ? 1 : c.range(2, 5);
        std::vector<int> order;
        for (int i = 0, n = c.range(1, 16); i < n; i++) order.push_back(c.below(p.ops.size()));
        for (int i : order) {
            omp_set_num_threads(threads);
            uint64_t got = p.ops[i].run(*p.pool);
            omp_set_num_threads(1);
            if (got != p.want[i]) c.fail("%s gave other words when repeated (%d OpenMP threads)", p.ops[i].name, threads);
        }
    }
    inputs_kept(c, p);
}
// at once, from many threads
static void concurrently(Case &c, int maxthreads, int maxops, int rounds)
{
    Program p = gen_program(c, maxops);
    int nt = c.range(2, maxthreads);
    uint64_t seed = c.seed();
    bool same_order = c.chance(1, 3);  // everyone does the same thing at the same time
    std::barrier sync(nt);
    std::vector<std::string> bad(nt);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            try {
                pbt::fresh_thread(pbt::hash2(seed, t), [&, t] {
                    Bulk b(same_order ? seed : pbt::hash2(seed, t));
                    for (int k = 0; k < rounds && bad[t].empty(); k++) {
                        std::vector<int> order(p.ops.size());
                        for (size_t i = 0; i < order.size(); i++) {
                            size_t j = b.below(i + 1);
                            order[i] = order[j];
                            order[j] = i;
                        }
                        if (same_order) sync.arrive_and_wait();
                        for (int i : order) {
                            if (p.ops[i].run(*p.pool) != p.want[i]) bad[t] = p.ops[i].name;
                            if (b.below(8) == 0) std::this_thread::yield();
                        }
                    }
                    if (same_order) sync.arrive_and_drop();
                });
            }
            catch (pbt::Fail &f) {
                bad[t] = f.msg;
            }
        });
    for (auto &t : ts) t.join();
    for (auto &s : bad)
        if (!s.empty()) c.fail("%s gave other words when %d threads ran concurrently", s.c_str(), nt);
    inputs_kept(c, p);
}
PROPERTY_SCHED(concurrent, 100, 3000) { concurrently(c, 8, SMALL ? 6 : 10, SMALL ? 1 : 2); }
PROPERTY_SCHED(crowd, 16, 400) { concurrently(c, SMALL ? 12 : 32, 4, 1); }

// every kind of operation in turn, by two or more threads that work on
// different operands at the same moment
PROPERTY_SCHED(same_operation, 10, 250)
{
    const int nt = c.range(2, 3), rounds = SMALL ? 1 : 3;
    Program p;
    p.pool = gen_pool(c);
    p.before = snapshot(*p.pool);
    for (int k = 0; k < KINDS; k++) {
        if (!available(k)) continue;
        for (int t = 0; t < nt; t++) {
            p.ops.push_back(gen_op(c, k));
            p.want.push_back(p.ops.back().run(*p.pool));
        }
        c.label(p.ops.back().name);
    }
    c.note("%zu operations by %d threads at once", p.ops.size() / nt, nt);
    c.nontrivial();
    const uint64_t seed = c.seed();
    std::barrier sync(nt);
    std::vector<std::string> bad(nt);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            try {
                pbt::fresh_thread(pbt::hash2(seed, t), [&, t] {
                    for (size_t i = t; i < p.ops.size(); i += nt) {
                        sync.arrive_and_wait();
                        for (int r = 0; r < rounds; r++)
                            if (p.ops[i].run(*p.pool) != p.want[i]) bad[t] = p.ops[i].name;
                    }
                });
            }
            catch (pbt::Fail &f) {
                bad[t] = f.msg;
            }
            sync.arrive_and_drop();
        });
    for (auto &t : ts) t.join();
    for (auto &s : bad)
        if (!s.empty()) c.fail("%s gave other words when %d threads ran it at once", s.c_str(), nt);
    inputs_kept(c, p);
}

// one operation, far more often than anything counts to
PROPERTY(marathon, 24, 300)
{
    // kinds by their cost: microseconds, a fraction of a millisecond, tens of milliseconds
    static const int light[] = {10, 14, 16, 18, 19, 21, 24, 25, 28, 29, 30, 32, 34, 35, 46, 58, 59, 61}, medium[] = {5, 13, 15, 17, 20, 26, 31, 36, 37, 38}, heavy[] = {0, 4, 7, 33};
    const int cost = c.below(8);
    const int kind = cost == 0 ? heavy[c.below(std::size(heavy))] : cost < 3 ? medium[c.below(std::size(medium))] : light[c.below(std::size(light))];
    const uint64_t reps = SMALL ? 200 : cost == 0 ? 300 : cost < 3 ? 5000 : 66000 + c.below(4000);
    Program p;
    p.pool = gen_pool(c);
    p.before = snapshot(*p.pool);
    p.ops.push_back(gen_op(c, kind));
    p.want.push_back(p.ops[0].run(*p.pool));
    c.note("%s %" PRIu64 " times", p.ops[0].name, reps);
    c.label(p.ops[0].name);
    c.nontrivial();
    for (uint64_t i = 0; i < reps; i++)
        if (p.ops[0].run(*p.pool) != p.want[0]) c.fail("%s gave other words when called for the %" PRIu64 "th time", p.ops[0].name, i + 2);
    inputs_kept(c, p);
}

// The same objects, rewritten in place between calls - entirely, in their body,
// in a single word, or by exchanging them: an operation must use what they hold
// now. The reference is computed elsewhere, in threads of their own, with
// another operand set in between.
template <class F>
static void each_sample(Pool &q, F f)
{
    auto lwe = [&](auto &group) {
        for (auto &x : group) f(x.data(), x.size() - 1, 1);
    };
    auto ring = [&](auto &group) {
        for (auto &x : group) f(x[0].data(), x[0].size() * (x.size() - 1), x[0].size());
    };
    auto poly = [&](auto &group) {
        for (auto &x : group) f(x.data(), 0, x.size());
    };
    lwe(q.w0), lwe(q.w1), lwe(q.w2), lwe(q.list), ring(q.r1), ring(q.r2), poly(q.p1), poly(q.p2);
}
static const char *rewrite(Case &c, Pool &q)
{
    const auto word = [&](auto *w) {
        using W = std::remove_reference_t<decltype(*w)>;
        *w += (W)((W)1 << c.below(sizeof(W) * 8));
    };
    switch (c.below(6)) {
    case 0: q = *gen_pool(c); return "new contents";
    case 1: {
        auto turn = [](auto &g) { std::rotate(g.begin(), g.begin() + 1, g.end()); };
        turn(q.w0), turn(q.w1), turn(q.w2), turn(q.r1), turn(q.r2), turn(q.g1), turn(q.p1), turn(q.p2), turn(q.list);
        return "objects exchanged";
    }
    case 2: each_sample(q, [&](auto *w, size_t mask, size_t body) { word(w + mask + c.below(body)); }); return "a body word";
    case 3: each_sample(q, [&](auto *w, size_t mask, size_t body) { word(w + (mask ? c.below(mask) : c.below(body))); }); return "a mask word";
    case 4: each_sample(q, [&](auto *w, size_t mask, size_t body) { for (size_t i = 0; i < body; i++) w[mask + i] = -w[mask + i]; }); return "bodies negated";
    default: each_sample(q, [&](auto *w, size_t mask, size_t body) { word(w + mask + body - 1); }); return "the last word";
    }
}
PROPERTY(rewritten, 40, 800)
{
    // cheap kinds often, bootstrapping now and then
    static const int heavy[] = {0, 1, 2, 3, 4, 7, 8, 9, 33, 44, 48, 52, 53, 54, 55, 57, 60};
    std::vector<Op> ops;
    std::string text;
    for (int i = c.range(2, 8); i > 0; i--) {
        int kind = c.below(KINDS);
        if (!available(kind) || (std::count(std::begin(heavy), std::end(heavy), kind) && (SMALL || c.chance(1, 2)))) kind = 10 + c.below(28);
        if (SMALL && std::count(std::begin(heavy), std::end(heavy), kind)) kind = 10;
        // often with two choices of the other arguments
        for (int k = c.range(1, 2); k > 0; k--) {
            ops.push_back(gen_op(c, kind));
            text += std::string(text.empty() ? "" : ", ") + ops.back().name;
            c.label(ops.back().name);
        }
    }
    std::vector<Big<Pool>> states;
    states.push_back(gen_pool(c));
    for (int i = c.range(1, 4); i > 0; i--) {
        auto next = big<Pool>();
        *next = *states.back();
        text += std::string("; ") + rewrite(c, *next);
        states.push_back(std::move(next));
    }
    c.note("%s", text.c_str());
    c.nontrivial();
    auto other = gen_pool(c);
    const uint64_t seed = c.seed();
    std::vector<std::vector<uint64_t>> want(states.size());
    for (size_t i = 0; i < states.size(); i++)
        pbt::fresh_thread(pbt::hash2(seed, i), [&] {
            for (auto &o : ops) {
                o.run(*other);
                want[i].push_back(o.run(*states[i]));
            }
        });
    auto place = big<Pool>();
    const auto call = [&](size_t k, size_t i) {
        if (ops[k].run(*place) != want[i][k]) c.fail("%s gave other words after its operands were rewritten (state %zu)", ops[k].name, i);
    };
    // each operation on all states, then all operations on each state in some order
    for (size_t k = 0; k < ops.size(); k++)
        for (size_t i = 0; i < states.size(); i++) {
            *place = *states[i];
            call(k, i);
        }
    Bulk b(c.seed());
    for (size_t i = states.size(); i-- > 0;) {
        *place = *states[i];
        for (size_t k = 0; k < ops.size(); k++) call(b.below(ops.size()), i);
    }
    for (auto &w : WATCH)
        if (digest(w.p, w.n, STRIDE) != w.d) c.fail("%s was modified", w.name);
}

// concurrent encryption: valid, distinct, and uncorrelated between threads
template <class P>
static void encryptors(Case &c)
{
    using T = typename P::T;
    const int nt = c.range(2, 8), n = SMALL ? 24 : 120;
    const Key<P> &key = SK->key.get<P>();
    auto kk = std::make_unique<Key<P>>(key);
    uint64_t seed = c.seed();
    std::vector<std::vector<TLWE<P>>> out(nt);
    std::vector<std::vector<T>> msg(nt);
    std::vector<std::thread> ts;
    std::vector<std::string> bad(nt);
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            try {
                pbt::fresh_thread(pbt::hash2(seed, t), [&, t] {
                    Bulk b(pbt::hash2(seed, 100 + t));
                    for (int i = 0; i < n; i++) {
                        T m = (T)b.next();
                        msg[t].push_back(m);
                        out[t].push_back(tlweSymEncrypt<P>(m, *kk));
                    }
                });
            }
            catch (pbt::Fail &f) {
                bad[t] = f.msg;
            }
        });
    for (auto &t : ts) t.join();
    c.note("%s, %d threads", pname<P>(), nt);
    c.label(pname<P>());
    c.nontrivial();
    std::vector<Err> err(nt);
    std::map<uint64_t, std::pair<int, int>> seen;
    for (int t = 0; t < nt; t++) {
        if (!bad[t].empty()) c.fail("%s", bad[t].c_str());
        for (int i = 0; i < n; i++) {
            double e = dist<T>(ref_phase<P>(out[t][i], *kk), msg[t][i]);
            if (!(std::fabs(e) <= 9.5 * alpha<P>() + ulp<P>())) c.fail("thread %d of %d: an encryption made concurrently is off by 2^%.1f", t, nt, std::log2(std::fabs(e)));
            err[t].add(e / alpha<P>());
            // any 8 mask words in common
            for (int k = 0; k < 64; k += 8) {
                uint64_t h = 3;
                for (int j = 0; j < 8; j++) h = pbt::hash2(h, out[t][i][k + j]);
                auto [it, fresh] = seen.insert({h, {t, i}});
                if (!fresh) c.fail("threads %d and %d used the same mask words", it->second.first, t);
            }
        }
    }
    for (int t = 0; t < nt; t++)
        for (int u = 0; u < t; u++) {
            double s = 0;
            for (int i = 0; i < n; i++) s += err[t].e[i] * err[u].e[i];
            c.metric("correlation*sqrt(n)", std::fabs(s) / std::sqrt((double)n));
            if (std::fabs(s) / std::sqrt((double)n) > 9) c.fail("noise of threads %d and %d is correlated: %.1f standard deviations", u, t, s / std::sqrt((double)n));
        }
}
PROPERTY_SCHED(encryptors, 120, 3000)
{
    switch (c.below(4)) {
    case 0: return encryptors<lvl0param>(c);
    case 1: return encryptors<lvlhalfparam>(c);
    case 2: return encryptors<lvl1param>(c);
    default: return encryptors<lvl2param>(c);
    }
}
