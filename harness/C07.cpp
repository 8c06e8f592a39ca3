// C07: TLWE encryption. Every case uses a fresh secret key. Oracles: the phase
// is recomputed independently, messages must come back, and the noise of a
// batch must have the configured standard deviation and mean zero.
#include "noise.hpp"
using namespace tf;

template <class P>
typename P::T gen_message(Case &c)
{
    using T = typename P::T;
    switch (c.below(5)) {
    case 0: return (T)((T)c.below(16) << (W<T> - 4));           // sixteenths of the torus
    case 1: return (T)(((T)c.below(16) << (W<T> - 4)) - (T)1);
    default: return c.word<T>();
    }
}

template <class P>
void torus_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    T m = gen_message<P>(c);
    int mode = c.below(3);
    // 0: default noise, 1: explicit noise, 2: none
    double a = mode == 0 ? alpha_tlwe<P>() : mode == 1 ? std::ldexp(1.0 + c.below(1000) / 1000.0, -(int)c.range(5, W<T> - 3)) : 0;
    int n = P::n > 4096 ? 48 : c.chance(1, 8) ? 2048 : 192;
    c.note("%s message %#" PRIx64 " noise %.3g, %d encryptions", pname<P>(), (uint64_t)m, a, n);
    c.label(fmt("%s/%s", pname<P>(), mode == 0 ? "default" : mode == 1 ? "alpha" : "noiseless"));
    c.nontrivial();
    Err e;
    // among encryptions with other noise levels
    const int mixed = c.below(3);
    Bulk b(c.seed());
    for (int i = 0; i < n; i++) {
        if (mixed && (i == 0 || (mixed == 2 && b.below(8) == 0))) tlweSymEncrypt<P>((T)b.next(), b.below(2) ? 0. : 1e-3, *key);
        TLWE<P> x = mode == 0 ? tlweSymEncrypt<P>(m, *key) : tlweSymEncrypt<P>(m, a, *key);
        T ph = ref_phase<P>(x, *key), lib = tlweSymPhase<P>(x, *key);
        if (ph != lib) c.fail("tlweSymPhase returns %#" PRIx64 ", b - <a,s> is %#" PRIx64, (uint64_t)lib, (uint64_t)ph);
        e.add(dist<T>(ph, m));
        if (tlweSymDecrypt<P>(x, *key) != ((S<T>)ph > 0)) c.fail("tlweSymDecrypt contradicts the sign of the phase %#" PRIx64, (uint64_t)ph);
    }
    noise_law<P>(c, "tlweSymEncrypt", e, a);
}
template <class P>
void phase_case(Case &c)
{
    // arbitrary samples, not produced by the library
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    TLWE<P> x;
    std::string d = gen_poly(c, x);
    c.note("%s phase of %s", pname<P>(), d.c_str());
    if (d != "zero") c.nontrivial();
    T ph = ref_phase<P>(x, *key), lib = tlweSymPhase<P>(x, *key);
    if (ph != lib) c.fail("tlweSymPhase returns %#" PRIx64 ", b - <a,s> is %#" PRIx64, (uint64_t)lib, (uint64_t)ph);
    if (tlweSymDecrypt<P>(x, *key) != ((S<T>)ph > 0)) c.fail("tlweSymDecrypt contradicts the sign of the phase");
    T m = gen_message<P>(c);
    TLWE<P> y = make_tlwe<P>(*std::make_unique<Bulk>(c.seed()), m, *key);
    if (tlweSymPhase<P>(y, *key) != m) c.fail("phase of a noiseless sample of %#" PRIx64 " is %#" PRIx64, (uint64_t)m, (uint64_t)tlweSymPhase<P>(y, *key));
    if (tlweSymDecrypt<P>(y, *key) != ((S<T>)m > 0)) c.fail("noiseless sample of %#" PRIx64 " decrypts to the wrong sign", (uint64_t)m);
}

template <class P, uint pm>
void mod_case(Case &c, const Key<P> &key)
{
    using T = typename P::T;
    uint64_t m = c.chance(1, 3) ? pm - 1 : c.below(pm);
    // message m encoded at m/pm of the torus
    T enc = (T)std::llround(std::ldexp((double)m / pm, W<T> - 1)) * 2;
    c.note("%s modulus %u message %" PRIu64, pname<P>(), pm, m);
    c.label(fmt("%s/pm%u", pname<P>(), pm));
    if (m) c.nontrivial();
    // any phase decrypts to the nearest message, up to just before the border
    for (int i = 0; i < 4; i++) {
        const double f = c.flip() ? (c.flip() ? 0.49 : -0.49) : ((int)c.below(9801) - 4900) / 1e4;
        const long double ph = std::ldexp(((long double)m + f) / pm, W<T>);
        const T w = (T)(__int128)std::llroundl(ph - std::ldexp(1.0L, W<T> - 1)) + (T)((T)1 << (W<T> - 1));
        if (std::ldexp(0.01, W<T>) / pm < 1) break;
        TLWE<P> x = make_tlwe<P>(*std::make_unique<Bulk>(c.seed()), w, key);
        T r = tlweSymIntDecrypt<P, pm>(x, key);
        int64_t s = (S<T>)r;
        if (((s % (int64_t)pm) + pm) % pm != m) c.fail("tlweSymIntDecrypt<%s,%u> of phase %#" PRIx64 " returns %" PRId64 ", the nearest message is %" PRIu64, pname<P>(), pm, (uint64_t)w, s, m);
        if (s >= (int64_t)pm || s < -(int64_t)pm) c.fail("tlweSymIntDecrypt<%s,%u> returns %" PRId64 ", outside the plaintext space", pname<P>(), pm, s);
    }
    if (9.5 * alpha_tlwe<P>() + ulp<P>() > 0.5 / pm) return;
    for (int i = 0; i < 3; i++) {
        TLWE<P> x = tlweSymEncrypt<P>(enc, key);
        T r = tlweSymIntDecrypt<P, pm>(x, key);
        int64_t s = (S<T>)r;
        if (((s % (int64_t)pm) + pm) % pm != m) c.fail("tlweSymIntDecrypt<%s,%u> of %" PRIu64 "/%u returns %" PRId64, pname<P>(), pm, m, pm, s);
        if (s >= (int64_t)pm || s < -(int64_t)pm) c.fail("tlweSymIntDecrypt<%s,%u> returns %" PRId64 ", outside the plaintext space", pname<P>(), pm, s);
    }
}
template <class P>
void int_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    switch (c.below(12)) {
    case 11:
        if constexpr (W<T> == 64) return mod_case<P, 4294967291u>(c, *key);
        return mod_case<P, 251>(c, *key);
    case 10:
        if constexpr (W<T> == 64) {
            if (c.flip()) return mod_case<P, 999999937>(c, *key);
            return mod_case<P, 1u << 31>(c, *key);
        }
        else if constexpr (W<T> == 32) {
            if (c.flip()) return mod_case<P, 65537>(c, *key);
            return mod_case<P, (1u << 20) + 1>(c, *key);
        }
        return mod_case<P, 256>(c, *key);
    case 0: return mod_case<P, 2>(c, *key);
    case 1: return mod_case<P, 3>(c, *key);
    case 2: return mod_case<P, 4>(c, *key);
    case 3: return mod_case<P, 5>(c, *key);
    case 4: return mod_case<P, 16>(c, *key);
    case 5: return mod_case<P, 10>(c, *key);
    case 6: return mod_case<P, 64>(c, *key);
    default:;
    }
    const uint64_t pm = P::plain_modulus;
    uint64_t m = c.chance(1, 4) ? pm - 1 : c.chance(1, 4) ? pm / 2 : c.below(pm);
    bool explicit_alpha = c.flip();
    c.note("%s integer %" PRIu64 " of %" PRIu64 "%s", pname<P>(), m, pm, explicit_alpha ? " explicit noise" : "");
    c.label(fmt("%s/int", pname<P>()));
    if (m) c.nontrivial();
    for (int i = 0; i < 3; i++) {
        TLWE<P> x;
        if (explicit_alpha) x = tlweSymIntEncrypt<P>((T)m, alpha_tlwe<P>() / 2, *key);
        else x = tlweSymIntEncrypt<P>((T)m, *key);
        T want = (T)((double)m * P::Δ);
        double err = dist<T>(ref_phase<P>(x, *key), want);
        if (std::fabs(err) > 9.5 * alpha_tlwe<P>() + ulp<P>()) c.fail("tlweSymIntEncrypt(%" PRIu64 ") has phase error %.3g", m, err);
        T r = tlweSymIntDecrypt<P>(x, *key);
        int64_t s = (S<T>)r;
        if ((((__int128)s % (__int128)pm) + pm) % pm != m) c.fail("%s: integer %" PRIu64 " decrypts to %" PRId64 " (modulus %" PRIu64 ")", pname<P>(), m, s, pm);
    }
}

template <class P>
std::vector<uint8_t> gen_bits(Case &c)
{
    int n = c.below(4) ? c.below(40) : c.below(P::n > 4096 ? 60 : 300);
    // Now and then a long vector: more entries than any chunk, block or
    // (for the smallest parameters) 16-bit counter could hide.
    if (int rare = c.below(400); rare == 399 && P::n <= 2048)
        n = 3000 + c.below(2200);
    else if (rare == 398 && P::n <= 700)
        n = 65530 + c.below(12);
    std::vector<uint8_t> v(n);
    Bulk b(c.seed());
    int mode = c.below(3);
    for (auto &x : v) {
        x = mode == 2 ? 1 : b.below(2);
        if (x && mode == 1) x = 1 + b.below(255);  // any nonzero byte is true
    }
    return v;
}
template <class P>
void bits_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    std::vector<uint8_t> v = gen_bits<P>(c), v0 = v;
    int api = c.below(4);
    c.note("%s %zu bits, api %d", pname<P>(), v.size(), api);
    c.label(fmt("%s/api%d%s", pname<P>(), api, v.empty() ? "/empty" : ""));
    if (!v.empty()) c.nontrivial();
    constexpr std::make_signed_t<T> mu2 = (std::make_signed_t<T>)((T)1 << (W<T> - 4));
    T mu = api >= 2 ? (T)mu2 : (T)P::μ;
    std::vector<TLWE<P>> x;
    if (api == 0) x = bootsSymEncrypt<P>(v, *key);
    else if (api == 1) x = bootsSymEncrypt<P>(v, *sk);
    else if (api == 2) x = bootsSymEncrypt<P, mu2>(v, *key);
    else x = bootsSymEncrypt<P, mu2>(v, *sk);
    if (v != v0) c.fail("input vector modified");
    if (x.size() != v.size()) c.fail("%zu ciphertexts for %zu bits", x.size(), v.size());
    for (size_t i = 0; i < v.size(); i++) {
        double err = dist<T>(ref_phase<P>(x[i], *key), v[i] ? mu : (T)-mu);
        if (std::fabs(err) > 9.5 * alpha_tlwe<P>() + ulp<P>()) c.fail("element %zu (%d) of %zu has phase error %.3g", i, v[i], v.size(), err);
    }
    std::vector<uint8_t> r = c.flip() ? bootsSymDecrypt<P>(x, *key) : bootsSymDecrypt<P>(x, *sk);
    if (r.size() != v.size()) c.fail("%zu bits from %zu ciphertexts", r.size(), v.size());
    for (size_t i = 0; i < v.size(); i++)
        if (r[i] != (v[i] != 0)) c.fail("element %zu of %zu: encrypted %d, decrypted %d", i, v.size(), v[i], r[i]);
}
#define LEVELS(f)                                                     \
    switch (c.below(9)) {                                             \
    case 0: case 1: return f<lvl0param>(c);                           \
    case 2: case 3: return f<lvlhalfparam>(c);                        \
    case 4: case 5: return f<lvl1param>(c);                           \
    case 6: case 7: return f<lvl2param>(c);                           \
    default: return f<lvl3param>(c);                                  \
    }
PROPERTY(torus_message, 6000, 60000) { LEVELS(torus_case) }
PROPERTY(phase, 20000, 400000) { LEVELS(phase_case) }
PROPERTY(integer, 20000, 400000) { LEVELS(int_case) }
PROPERTY(bits, 10000, 150000) { LEVELS(bits_case) }

// The samplers of the noise themselves, on batches large enough to see a
// percent: mean, deviation, tails, symmetry, dependence of consecutive values.
static void sampler_law(Case &c, const char *what, const std::vector<double> &x, double var, double kurt, double within, double se_within)
{
    const double n = x.size();
    double m = 0, v = 0, k = 0, lag = 0, in = 0, pos = 0;
    for (size_t i = 0; i < x.size(); i++) {
        m += x[i], v += x[i] * x[i], k += x[i] * x[i] * x[i] * x[i];
        if (i) lag += x[i] * x[i - 1];
        in += std::fabs(x[i]) <= std::sqrt(var), pos += (x[i] > 0) - (x[i] < 0);
    }
    m /= n, v /= n, k /= n * v * v, lag /= n * v, in /= n, pos /= n;
    const double q = std::sqrt(n), zm = m / std::sqrt(var) * q, zv = (v / var - 1) / std::sqrt(kurt - 1) * q, zl = lag * q, zp = pos * q;
    c.metric(fmt("%s |z| mean", what), std::fabs(zm));
    c.metric(fmt("%s |z| variance", what), std::fabs(zv));
    c.metric(fmt("%s |z| lag", what), std::fabs(zl));
    if (std::fabs(zm) > 8.5) c.fail("%s: the mean is %.4f standard deviations (z=%.1f)", what, m / std::sqrt(var), zm);
    if (std::fabs(zv) > 8.5) c.fail("%s: the standard deviation is %.5f of the specified one (z=%.1f)", what, std::sqrt(v / var), zv);
    if (std::fabs(zl) > 8.5) c.fail("%s: consecutive values are correlated (z=%.1f)", what, zl);
    if (std::fabs(zp) > 8.5) c.fail("%s: the signs are not balanced (z=%.1f)", what, zp);
    // the fourth moment of a Gaussian has a relative standard error of sqrt(96/n)/3
    if (std::fabs(k - kurt) > 9 * std::sqrt(96 / n) + 9 * std::sqrt(1 / n)) c.fail("%s: kurtosis %.3f, expected %.3f", what, k, kurt);
    if (within > 0 && std::fabs(in - within) > se_within + 8.5 * 0.5 / q) c.fail("%s: %.4f of the values are within one standard deviation, expected %.4f", what, in, within);
}
template <class P>
void gaussian_case(Case &c)
{
    using T = typename P::T;
    const int bits = c.flip() ? 0 : c.range(1, W<T> - 7);
    const double lsb = std::ldexp(1.0, -W<T>), a = bits ? std::ldexp(1.0 + c.below(1000) / 1000.0, bits - W<T>) : alpha<P>();
    const T centre = c.word<T>();
    const size_t n = (c.thorough ? 1 << 22 : 1 << 20) << c.below(3);
    c.note("%zu Gaussian values of %d bits, 2^%.2f of them noise", n, W<T>, std::log2(a) + W<T>);
    c.label(fmt("Gaussian %d bits", W<T>));
    c.nontrivial();
    std::vector<double> x(n);
    // among samples for other parameters
    const double others[] = {alpha<P>() * 3, 1e-3, a / 2, 0};
    const int mixed = c.below(3);
    Bulk b(c.seed());
    if (mixed)
        for (double o : others) ModularGaussian<P>(centre, o);
    for (auto &v : x) {
        if (mixed == 2 && b.below(16) == 0) ModularGaussian<P>(0, others[b.below(4)]);
        v = real<T>((T)(ModularGaussian<P>(centre, a) - centre));
    }
    // rounding to a torus word adds the variance of a uniform error
    const double var = a * a + lsb * lsb / 12, s = std::sqrt(var);
    // and moves the ends of the interval by up to half a word
    sampler_law(c, "Gaussian", x, var, 3 - 0.0 * lsb, 0.682689, 0.25 * lsb / s * 2);
}
struct Binomial16 : lvl0param {
    using T = uint16_t;
};
struct Binomial32 : lvl0param {
    using T = uint32_t;
};
struct Binomial64 : lvl0param {
    using T = uint64_t;
};
template <class P>
void binomial_case(Case &c)
{
    using T = typename P::T;
    const unsigned eta = 1 + c.below(c.flip() ? 4 : 40);
    const size_t n = (1 << 20) << c.below(c.thorough ? 4 : 2);
    c.note("%zu centred binomial values, parameter %u", n, eta);
    c.label(fmt("binomial %d bits", W<T>));
    c.nontrivial();
    for (uint32_t i = 0, k = c.below(200); i < k; i++) CenteredBinomial<P>(1 + i % 3);
    std::vector<double> x(n);
    double lo = 0;
    for (auto &v : x) v = (double)(S<T>)CenteredBinomial<P>(eta), lo = std::max(lo, std::fabs(v));
    if (lo > eta) c.fail("a value of %.0f with parameter %u", lo, eta);
    sampler_law(c, "binomial", x, eta / 2.0, 3 - 1.0 / eta, 0, 0);
}
PROPERTY(sampler, 40, 600)
{
    switch (c.below(8)) {
    case 0: return binomial_case<Binomial16>(c);
    case 1: return binomial_case<Binomial32>(c);
    case 2: return binomial_case<Binomial64>(c);
    case 3: return gaussian_case<lvl0param>(c);
    case 4: return gaussian_case<lvlhalfparam>(c);
    case 5: return gaussian_case<lvl1param>(c);
    case 6: return gaussian_case<lvl2param>(c);
    default: return gaussian_case<lvl3param>(c);
    }
}
