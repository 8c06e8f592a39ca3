// C21: homomorphic digit decomposition. Oracle: the base-2^b digits of the
// input's phase, and the exact position of every output phase between digits.
#include "boot.hpp"
using namespace tf;

static SecretKey *SK;
template <class P>
struct KSK {
    static inline Big<KeySwitchingKey<P>> key;
    static void build()
    {
        key = big<KeySwitchingKey<P>>();
        ikskgen<P>(*key, *SK);
    }
};
template <class P>
struct BK {
    static inline Big<BootstrappingKeyFFT<P>> key;
    static void build()
    {
        key = big<BootstrappingKeyFFT<P>>();
        bkfftgen<P>(*key, *SK);
    }
};
template <class L>
const Key<L> &lkey()
{
    static const std::unique_ptr<Key<L>> k = std::make_unique<Key<L>>(SK->key.get<L>());
    return *k;
}
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    build_parallel(seed, {KSK<lvl31param>::build, KSK<lvl21param>::build, KSK<lvl1hparam>::build, KSK<lvl10param>::build, BK<lvlh1param>::build, BK<lvl01param>::build});
}
// which digits the plaintext has
static uint64_t gen_bits(Case &c, int bits, int b)
{
    uint64_t all = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
    auto ones = [&](int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; };
    switch (c.below(9)) {
    case 0: v = 0; break;
    case 1: v = ~0ull; break;
    case 2: v = 1ull << c.below(bits); break;
    case 3: v = (1ull << c.below(bits)) - 1; break;
    case 4: v = 0 - (1ull << c.below(bits)); break;
    case 5: {  // every digit the same, or alternating extremes
        uint64_t d = c.below(1ull << b), e = c.flip() ? d : (ones(b) ^ d);
        v = 0;
        for (int i = 0; i * b < 64; i++) v |= (i & 1 ? e : d) << (i * b);
        break;
    }
    case 6: {  // digits next to the rounding decision
        v = 0;
        for (int i = 0; i * b < 64; i++) v |= (c.flip() ? (1ull << (b - 1)) : (1ull << (b - 1)) - 1) << (i * b);
        break;
    }
    case 7: {  // one digit among zeros or ones below
        v = c.u64() << c.below(bits);
        if (c.flip()) v |= ones(c.below(bits));
        break;
    }
    default: v = c.u64();
    }
    return v & all;
}
static double q(double x) { return 0.5 * std::erfc(x / std::sqrt(2.0)); }
// the digits of one input; returns decisions and digits gone wrong
struct Tally {
    int wrong = 0, n = 0;
    double p = 0;  // expected number of wrong ones, at most
};
template <class H2M, class M2L, class BR, uint b, uint numdigit>
void once(Case &c, const TLWE<typename H2M::domainP> &x, Err &noise, Tally &t, double &sigma)
{
    using D = typename H2M::domainP;
    using G = typename H2M::targetP;
    constexpr int B = b * numdigit;
    auto res = std::make_unique<std::array<TLWE<G>, numdigit>>();
    auto x0 = std::make_unique<TLWE<D>>(x);
    HomDecomp<H2M, M2L, BR, b, numdigit>(*res, x, *KSK<H2M>::key, *KSK<M2L>::key, *BK<BR>::key);
    if (x != *x0) c.fail("input modified");
    uint64_t phase = ref_phase<D>(x, lkey<D>());
    Bound ks = ks_noise<H2M>(lkey<D>()), low = ks_noise<M2L>(lkey<G>()), bt = boot_noise<BR>(FFT, lkey<typename BR::domainP>(), lkey<G>());
    double step = std::ldexp(1.0, -(int)b), n2 = 2.0 * BR::targetP::n;
    double dr = std::sqrt(hw<typename BR::domainP>(lkey<typename BR::domainP>()) / 12.0) / n2, bias = (1 + drift_bias<BR>(lkey<typename BR::domainP>())) / n2;
    Bound out = ks;
    out += bt;
    sigma = out.sigma();
    double dsig = std::sqrt(out.var + low.var + dr * dr);
    // the integer nearest to the phase: what lies below is noise
    uint64_t m = B == 64 ? phase : (phase + (1ull << (63 - B))) >> (64 - B);
    double prev = 0;
    bool up = false;
    for (uint d = 1; d <= numdigit; d++) {
        uint64_t digit = (m >> (b * (d - 1))) & ((1ull << b) - 1);
        uint64_t s = phase << (B - b * d);
        // offset from the digit's own encoding
        double want = std::ldexp((double)(int64_t)(s - (digit << (64 - b))), -64);
        if (d > 1) want += (up ? -0.25 : 0.25) * step - 0.5 * step;
        double got = real<typename G::T>(ref_phase<G>((*res)[d - 1], lkey<G>())) - digit * step, e = got - want;
        e -= std::round(e);
        want -= std::round(want);
        // did the previous digit's comparison go wrong?
        t.n++;
        bool bad = false;
        if (d > 1) {
            double other = e + (up ? -0.5 : 0.5) * step;
            other -= std::round(other);
            if (std::fabs(other) < std::fabs(e)) bad = true, e = other;
            double room = std::max(0.0, 0.5 * step - std::fabs(prev) - bias);
            t.p += q(room / dsig);
            c.metric(fmt("b=%u:-decision room in sigmas", b), -room / dsig);
        }
        noise.add(e);
        double lim = 9.5 * sigma + out.max;
        c.metric(fmt("b=%u:noise/limit", b), std::fabs(e) / lim);
        if (!bad && !(std::fabs(e) <= lim)) c.fail("digit %u (%" PRIu64 ") of %#" PRIx64 ": phase off by %.5f from the encoding, expected %.5f, limit %.5f", d - 1, digit, m, got - std::round(got), want, lim);
        int64_t dec = (int64_t)tlweSymIntDecrypt<G, 1u << b>((*res)[d - 1], lkey<G>());
        if (!bad) t.p += q((0.5 * step - std::fabs(want)) / sigma);
        if ((uint64_t)(dec & ((1ll << b) - 1)) != digit) bad = true;
        if (bad) {
            t.wrong++;
            c.note("digit %u of %#" PRIx64 " decrypts to %" PRId64 ", expected %" PRIu64, d - 1, m, dec & ((1ll << b) - 1), digit);
            return;  // the digits above follow the wrong carry
        }
        up = digit >> (b - 1);
        prev = want;
    }
}
template <class H2M, class M2L, class BR, uint b, uint numdigit>
void run(Case &c)
{
    using D = typename H2M::domainP;
    constexpr int B = b * numdigit;
    std::string cfg = fmt("%s->%s->%s, %u digits of %u bits", pname<D>(), pname<typename H2M::targetP>(), pname<typename M2L::targetP>(), numdigit, b);
    uint64_t m = gen_bits(c, B, b), phase = m << (64 - B);
    int kind = c.below(4);
    uint64_t s = c.seed();
    c.note("%s: %#" PRIx64 "%s", cfg.c_str(), m, kind == 0 ? ", trivial" : kind == 1 ? ", noiseless" : ", fresh");
    c.label(cfg);
    if (m) c.nontrivial();
    auto x = std::make_unique<TLWE<D>>();
    Tally t;
    Err e;
    double sigma = 1;
    auto attempt = [&](uint64_t i) {
        if (kind == 0) *x = {}, (*x)[D::k * D::n] = phase;
        else {
            Bulk bk(s + i);
            *x = make_tlwe<D>(bk, phase, lkey<D>());
            if (kind > 1) {
                *x = tlweSymEncrypt<D>(phase, D::α, lkey<D>());
                // the noise would be part of an integer this wide
                if (B > 40) (*x)[D::k * D::n] += phase - ref_phase<D>(*x, lkey<D>());
            }
        }
        once<H2M, M2L, BR, b, numdigit>(c, *x, e, t, sigma);
    };
    attempt(0);
    // one wrong digit may be bad luck (the parameters leave about five standard
    // deviations): the same integer again
    for (int i = 1; t.wrong && i < 6 && kind != 0; i++) attempt(i);
    c.metric("log10 expected wrong digits", std::log10(t.p + 1e-300));
    if (t.wrong) {
        c.label("wrong digit");
        // P(at least this many) <= p^k / k!
        double lp = 0;
        for (int i = 1; i <= t.wrong; i++) lp += std::log10(t.p / i);
        if (lp < -9.5) c.fail("%d wrong digits, where 10^%.1f are expected", t.wrong, std::log10(t.p));
    }
    double n = e.e.size(), lim = sigma * std::sqrt(1 + 9.5 * std::sqrt(2 / n));
    c.metric("rms/limit", e.sd() / lim);
    if (n >= 8 && !(e.sd() <= lim)) c.fail("noise of %d digits is 2^%.2f rms, limit 2^%.2f", (int)n, std::log2(e.sd()), std::log2(lim));
}
PROPERTY(digits, 160, 4000)
{
    using A = lvl31param;
    using B = lvl21param;
    using M = lvl1hparam;
    using R = lvlh1param;
    switch (c.below(12)) {
    case 0: return run<A, M, R, 4, 16>(c);
    case 1: return run<A, M, R, 3, 21>(c);
    case 2: return run<A, M, R, 2, 32>(c);
    case 3: return run<A, M, R, 4, 8>(c);
    case 4: return run<A, M, R, 3, 10>(c);
    case 5: return run<B, M, R, 4, 8>(c);
    case 6: return run<B, M, R, 3, 4>(c);
    case 7: return run<B, M, R, 2, 8>(c);
    case 8: return run<B, M, R, 4, 1>(c);
    case 9: return run<A, M, R, 4, 2>(c);
    case 10: return run<A, M, R, 1, 8>(c);
    default: return run<B, M, R, 4, 16>(c);
    }
}
