// C08: TRLWE / TRGSW encryption, coefficient by coefficient and row by row.
// Phases are recomputed by schoolbook arithmetic. A row of a TRGSW in any
// representation is recovered by an external product whose decomposition is a
// single digit 1.
#include "noise.hpp"
using namespace tf;

// largest deviation of the library's own phase computation from the exact one
template <class P>
double phase_tol(const Key<P> &key)
{
    double n1 = 0;
    for (auto v : key) n1 += std::fabs((double)(S<typename P::T>)v);
    return sizeof(typename P::T) == 8 ? 0.5 * n1 + 2 * P::k + 2 : 1.5 * P::k + 1;
}
template <class P>
void cmp_phase(Case &c, const Polynomial<P> &lib, const Polynomial<P> &ref, const Key<P> &key)
{
    double tol = phase_tol<P>(key);
    for (uint32_t i = 0; i < P::n; i++) {
        double d = std::fabs((double)(S<typename P::T>)(lib[i] - ref[i]));
        if (!(d <= tol)) c.fail("trlwePhase coefficient %u is off by %.3g units (limit %.3g)", i, d, tol);
    }
}
// the encryptions checked are not the first of their thread
template <class P>
static void other_encryptions(Case &c, const Key<P> &key)
{
    using T = typename P::T;
    Polynomial<P> m;
    for (int k = c.below(3); k > 0; k--) {
        Bulk b(c.seed());
        for (auto &v : m) v = (T)b.next();
        const double a = b.below(3) ? std::ldexp(1.0, -(int)(6 + b.below(W<T> - 12))) : 0.;
        if (b.below(2)) trlweSymEncrypt<P>(m, a, key);
        else trlweSymEncryptZero<P>(a, key);
    }
}
template <class P>
void trlwe_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    int kind = c.below(4);  // torus, integers, bits, zero
    Polynomial<P> m{}, plain{};
    std::string d;
    if (kind == 0) d = gen_poly(c, m);
    else if (kind == 1) {
        d = gen_small(c, plain, (int64_t)P::plain_modulus - 1, 0);
        for (uint32_t i = 0; i < P::n; i++) m[i] = (T)((double)plain[i] * P::Δ);
    }
    else if (kind == 2) {
        d = gen_small(c, plain, 1, 0);
        for (uint32_t i = 0; i < P::n; i++) m[i] = plain[i] ? (T)P::μ : (T)-(T)P::μ;
    }
    else d = "zero";
    int mode = c.below(3);
    double a = mode == 0 ? alpha<P>() : mode == 1 ? std::ldexp(1.0 + c.below(1000) / 1000.0, -(int)c.range(10, W<T> - 4)) : 0;
    if (kind == 1 || kind == 2) a = std::min(a, std::ldexp(1.0, -10));
    other_encryptions<P>(c, *key);
    const char *kn[] = {"torus", "integer", "bit", "zero"};
    c.note("%s %s message %s, noise %.3g (%s)", pname<P>(), kn[kind], d.c_str(), a, mode == 0 ? "default" : "explicit");
    c.label(fmt("%s/%s/%s", pname<P>(), kn[kind], mode == 0 ? "default" : mode == 1 ? "alpha" : "noiseless"));
    c.nontrivial();
    const auto m0 = m, plain0 = plain;
    Err all;
    const int reps = 8;
    std::vector<double> coef(P::n, 0);
    for (int r = 0; r < reps; r++) {
        TRLWE<P> x;
        if (kind == 3) x = mode == 0 ? trlweSymEncryptZero<P>(*key) : trlweSymEncryptZero<P>(a, *key);
        else if (kind == 1) x = mode == 0 ? trlweSymIntEncrypt<P>(plain, *key) : trlweSymIntEncrypt<P>(plain, a, *key);
        else x = mode == 0 ? trlweSymEncrypt<P>(m, *key) : trlweSymEncrypt<P>(m, a, *key);
        auto ph = ref_phase<P>(x, *key);
        for (uint32_t i = 0; i < P::n; i++) {
            double e = dist<T>(ph[i], m[i]);
            all.add(e), coef[i] += e * e;
        }
        if (r == 0) {
            cmp_phase<P>(c, trlwePhase<P>(x, *key), ph, *key);
            auto bits = trlweSymDecrypt<P>(x, *key);
            double guard = phase_tol<P>(*key);
            for (uint32_t i = 0; i < P::n; i++) {
                S<T> s = (S<T>)ph[i];
                if (std::fabs((double)s) > guard && s != std::numeric_limits<S<T>>::min() && std::fabs(std::fabs((double)s) - std::ldexp(1.0, W<T> - 1)) > guard && bits[i] != (s > 0))
                    c.fail("trlweSymDecrypt coefficient %u contradicts the phase", i);
                if (kind == 2 && bits[i] != (plain[i] != 0)) c.fail("bit %u of the polynomial decrypts wrongly", i);
            }
            if (kind == 1) {
                auto v = trlweSymIntDecrypt<P>(x, *key);
                for (uint32_t i = 0; i < P::n; i++)
                    if (v[i] != plain[i]) c.fail("integer %" PRIu64 " in coefficient %u decrypts to %" PRIu64, (uint64_t)plain[i], i, (uint64_t)v[i]);
            }
        }
    }
    if (m != m0 || plain != plain0) c.fail("message modified");
    // the encryption itself multiplies by the key: its rounding is no noise
    double extra = (sizeof(T) == 8 ? 0.5 * std::sqrt((double)hw<P>(*key)) * 6 + 2 : 1.5 * P::k) * ulp<P>();
    if (a == 0) extra = phase_tol<P>(*key) * ulp<P>();
    noise_law<P>(c, "TRLWE", all, a, extra);
    if (a > 16 * extra)
        for (uint32_t i = 0; i < P::n; i++)
            if (!(coef[i] / reps > 1.5e-3 * a * a)) c.fail("coefficient %u has almost no noise over %d encryptions (rms %.3g of %.3g)", i, reps, std::sqrt(coef[i] / reps), a);
}
PROPERTY(trlwe, 3000, 60000)
{
    if (c.flip()) trlwe_case<lvl1param>(c);
    else trlwe_case<lvl2param>(c);
}

// phase the row must have: gadget element * message, on component k
template <class P>
Polynomial<P> row_phase(const Polynomial<P> &m, int i, uint32_t k, const Key<P> &key)
{
    using T = typename P::T;
    Polynomial<P> x;
    for (uint32_t j = 0; j < P::n; j++) x[j] = (T)(m[j] * ((T)1 << (W<T> - (i + 1) * P::Bgbit)));
    if (k == P::k) return x;
    Polynomial<P> y = negacyclic(x, keypart<P>(key, k));
    for (auto &v : y) v = (T)-v;
    return y;
}
template <class P>
TRLWE<P> unit(int i, uint32_t k)
{
    using T = typename P::T;
    TRLWE<P> u{};
    u[k][0] = (T)1 << (W<T> - (i + 1) * P::Bgbit);
    return u;
}
template <class P>
std::string gen_msg(Case &c, Polynomial<P> &m)
{
    if (c.chance(1, 4)) return gen_poly(c, m);
    return gen_small(c, m, (int64_t)1 << c.below(4), c.flip() ? -1 : 0);
}
// recovered rows against the phase they must have
template <class P, class F>
void check_rows(Case &c, const char *what, const Polynomial<P> &m, const Key<P> &key, double a, double extra_max, double extra_rms, F row)
{
    using T = typename P::T;
    for (uint32_t k = 0; k <= P::k; k++)
        for (uint32_t i = 0; i < P::l; i++) {
            auto want = row_phase<P>(m, i, k, key);
            TRLWE<P> r = row(i, k);
            auto ph = ref_phase<P>(r, key);
            Err e;
            for (uint32_t j = 0; j < P::n; j++) e.add(dist<T>(ph[j], want[j]));
            double lim = 9.5 * a + extra_max + ulp<P>();
            if (!(e.max() <= lim)) c.fail("%s row %u of component %u: phase is off by 2^%.2f, noise limit 2^%.2f", what, i, k, std::log2(e.max()), std::log2(lim));
            double s = std::sqrt(a * a + extra_rms * extra_rms);
            if (s > 0) {
                c.metric(fmt("%s/%s:rms/limit", pname<P>(), what), e.sd() / s);
                if (!(e.sd() <= s * (1 + 1.3 * 8 / std::sqrt(2.0 * P::n)) + ulp<P>())) c.fail("%s row %u of component %u: rms noise 2^%.2f, limit 2^%.2f", what, i, k, std::log2(e.sd()), std::log2(s));
                if (a > 8 * extra_rms + 4 * ulp<P>() && !(e.sd() >= 0.75 * a - ulp<P>())) c.fail("%s row %u of component %u: rms noise 2^%.2f is below the configured 2^%.2f", what, i, k, std::log2(e.sd()), std::log2(a));
            }
        }
}
// rows of two representations, per coefficient
template <class P>
void same_row(Case &c, const char *what, const TRLWE<P> &r, const TRLWE<P> &x, uint32_t row, double tol)
{
    double w = 0;
    for (uint32_t k = 0; k <= P::k; k++)
        for (uint32_t j = 0; j < P::n; j++) {
            double d = std::fabs((double)(S<typename P::T>)(r[k][j] - x[k][j]));
            w = std::max(w, d);
            if (!(d <= tol)) c.fail("%s: row %u component %u coefficient %u differs from the plain representation by %.4g units (limit %.4g)", what, row, k, j, d, tol);
        }
    c.metric(fmt("%s/%s:max/tol", pname<P>(), what), w / std::max(tol, 1.0));
}
template <class P>
struct Tol {
    using T = typename P::T;
    // FFT round trip of n words of W bits: C * 2^-53 * |a|_2 (see C04) + 1
    static double fft() { return 1 + 24 * std::ldexp(1.0, -53) * std::sqrt((double)P::n / 3) * std::ldexp(1.0, W<T> - 1); }
    // typical error: conversion of 32-bit words truncates
    static double fft_rms() { return sizeof(T) == 8 ? fft() / 16 : 1; }
    // one rescaling 2^64 <-> p each way; 32-bit words are exact
    static double ntt() { return sizeof(T) == 8 ? 2 : 0; }
    // rescaling 2^32 <-> raintt::P each way
    static double raintt() { return 1 + std::ldexp(1.0, W<T>) / (double)raintt::P; }
};

template <class P>
void trgsw_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> m;
    std::string d = gen_msg<P>(c, m);
    int mode = c.below(3), api = c.below(sizeof(T) == 4 ? 5 : 4);
    double a = mode == 0 ? alpha<P>() : mode == 1 ? std::ldexp(1.0, -(int)c.range(12, W<T> - 4)) : 0;
    other_encryptions<P>(c, *key);
    const char *an[] = {"plain", "fft", "ntt", "convert", "raintt"};
    c.note("%s TRGSW(%s) of %s, noise %.3g", pname<P>(), an[api], d.c_str(), a);
    c.label(fmt("%s/%s/%s", pname<P>(), an[api], mode == 0 ? "default" : mode == 1 ? "alpha" : "noiseless"));
    if (d != "zero") c.nontrivial();
    const auto m0 = m;
    double h = std::sqrt((double)hw<P>(*key) + 1), u = ulp<P>();
    double enc = sizeof(T) == 8 ? 0.5 * h * 8 * u : 1.5 * P::k * u;  // rounding inside the encryption
    double enc_max = phase_tol<P>(*key) * u, n1 = (double)P::k * P::n + 1;
    if (api == 0) {
        auto x = std::make_unique<TRGSW<P>>(mode == 0 ? trgswSymEncrypt<P>(m, *key) : trgswSymEncrypt<P>(m, a, *key));
        check_rows<P>(c, "TRGSW", m, *key, a, enc_max, enc, [&](uint32_t i, uint32_t k) { return (*x)[i + k * P::l]; });
    }
    else if (api == 1) {
        auto x = std::make_unique<TRGSWFFT<P>>(mode == 0 ? trgswfftSymEncrypt<P>(m, *key) : trgswfftSymEncrypt<P>(m, a, *key));
        double t = Tol<P>::fft() * u;
        check_rows<P>(c, "TRGSWFFT", m, *key, a, enc_max + t * h * 4, enc + Tol<P>::fft_rms() * h * u, [&](uint32_t i, uint32_t k) {
            TRLWE<P> r;
            trgswfftExternalProduct<P>(r, unit<P>(i, k), *x);
            return r;
        });
    }
    else if (api == 2) {
        auto x = std::make_unique<TRGSWNTT<P>>(mode == 0 ? trgswnttSymEncrypt<P>(m, *key) : trgswnttSymEncrypt<P>(m, a, *key));
        check_rows<P>(c, "TRGSWNTT", m, *key, a, enc_max + Tol<P>::ntt() * n1 * u, enc + Tol<P>::ntt() * h * u, [&](uint32_t i, uint32_t k) {
            TRLWE<P> r;
            trgswnttExternalProduct<P>(r, unit<P>(i, k), *x);
            return r;
        });
    }
    else if (api == 4) {
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(T) == 4) {
            auto x = std::make_unique<TRGSWRAINTT<P>>(mode == 0 ? trgswrainttSymEncrypt<P>(m, *key) : trgswrainttSymEncrypt<P>(m, a, *key));
            double t = Tol<P>::raintt() * u;
            check_rows<P>(c, "TRGSWRAINTT", m, *key, a, enc_max + t * n1, enc + t * h, [&](uint32_t i, uint32_t k) {
                TRLWE<P> r;
                trgswrainttExternalProduct<P>(r, unit<P>(i, k), *x);
                return r;
            });
        }
    }
    else {
        // all representations of one TRGSW (arbitrary words, not only encryptions)
        auto x = std::make_unique<TRGSW<P>>();
        if (c.flip()) *x = trgswSymEncrypt<P>(m, *key);
        else
            for (auto &row : *x)
                for (auto &p : row) gen_poly(c, p);
        const auto x0 = std::make_unique<TRGSW<P>>(*x);
        auto f = std::make_unique<TRGSWFFT<P>>(ApplyFFT2trgsw<P>(*x));
        auto n = std::make_unique<TRGSWNTT<P>>(ApplyNTT2trgsw<P>(*x));
        auto bit = std::make_unique<TRGSWNTT<P>>(TRGSW2NTT<P>(*x));
        auto n2 = std::make_unique<TRGSWNTT<P>>();
        for (uint32_t r = 0; r < (P::k + 1) * P::l; r++)
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t j = 0; j < P::n; j++) {
                    uint32_t b = 0;
                    for (uint32_t s = 0; s < P::nbit; s++) b |= ((j >> s) & 1) << (P::nbit - 1 - s);
                    (*n2)[r][k][b] = (*bit)[r][k][j];
                }
        for (uint32_t k = 0; k <= P::k; k++)
            for (uint32_t i = 0; i < P::l; i++) {
                uint32_t row = i + k * P::l;
                TRLWE<P> r, in = unit<P>(i, k);
                trgswfftExternalProduct<P>(r, in, *f);
                same_row<P>(c, "ApplyFFT2trgsw", r, (*x)[row], row, Tol<P>::fft());
                trgswnttExternalProduct<P>(r, in, *n);
                same_row<P>(c, "ApplyNTT2trgsw", r, (*x)[row], row, Tol<P>::ntt());
                trgswnttExternalProduct<P>(r, in, *n2);
                same_row<P>(c, "TRGSW2NTT", r, (*x)[row], row, Tol<P>::ntt());
            }
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(T) == 4) {
            auto ra = std::make_unique<TRGSWRAINTT<P>>(ApplyRAINTT2trgsw<P>(*x));
            for (uint32_t k = 0; k <= P::k; k++)
                for (uint32_t i = 0; i < P::l; i++) {
                    TRLWE<P> r;
                    trgswrainttExternalProduct<P>(r, unit<P>(i, k), *ra);
                    same_row<P>(c, "ApplyRAINTT2trgsw", r, (*x)[i + k * P::l], i + k * P::l, Tol<P>::raintt());
                }
        }
        if (*x != *x0) c.fail("conversion modified its input");
    }
    if (m != m0) c.fail("message modified");
}
PROPERTY(trgsw, 2400, 50000)
{
    if (c.flip()) trgsw_case<lvl1param>(c);
    else trgsw_case<lvl2param>(c);
}

template <class P>
void half_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> m;
    std::string d = gen_msg<P>(c, m);
    int mode = c.below(3), fft = c.below(3);
    double a = mode == 0 ? alpha<P>() : mode == 1 ? std::ldexp(1.0, -(int)c.range(12, W<T> - 4)) : 0;
    other_encryptions<P>(c, *key);
    c.note("%s half TRGSW %s of %s, noise %.3g", pname<P>(), fft == 0 ? "plain" : fft == 1 ? "fft" : "converted", d.c_str(), a);
    c.label(fmt("%s/half%d", pname<P>(), fft));
    if (d != "zero") c.nontrivial();
    double h = std::sqrt((double)hw<P>(*key) + 1), u = ulp<P>();
    double enc = sizeof(T) == 8 ? 0.5 * h * 8 * u : 1.5 * P::k * u, enc_max = phase_tol<P>(*key) * u;
    auto x = std::make_unique<HalfTRGSW<P>>();
    auto f = std::make_unique<HalfTRGSWFFT<P>>();
    if (fft == 1) *f = mode == 0 ? halftrgswfftSymEncrypt<P>(m, *key) : halftrgswfftSymEncrypt<P>(m, a, *key);
    else {
        *x = mode == 0 ? halftrgswSymEncrypt<P>(m, *key) : halftrgswSymEncrypt<P>(m, a, *key);
        if (fft == 2) *f = ApplyFFT2halftrgsw<P>(*x);
    }
    double t = fft ? Tol<P>::fft() * u : 0;
    for (uint32_t i = 0; i < P::l; i++) {
        TRLWE<P> r;
        if (fft == 0) r = (*x)[i];
        else {
            Polynomial<P> in{};
            in[0] = (T)1 << (W<T> - (i + 1) * P::Bgbit);
            halftrgswfftExternalProduct<P>(r, in, *f);
            if (fft == 2) same_row<P>(c, "ApplyFFT2halftrgsw", r, (*x)[i], i, Tol<P>::fft());
        }
        auto want = row_phase<P>(m, i, P::k, *key);
        auto ph = ref_phase<P>(r, *key);
        Err e;
        for (uint32_t j = 0; j < P::n; j++) e.add(dist<T>(ph[j], want[j]));
        double lim = 9.5 * a + enc_max + t * h * 4 + u;
        if (!(e.max() <= lim)) c.fail("half TRGSW row %u: phase is off by 2^%.2f, limit 2^%.2f", i, std::log2(e.max()), std::log2(lim));
        double er = enc + (fft ? Tol<P>::fft_rms() * h * u : 0), s = std::sqrt(a * a + er * er);
        if (s > 0 && !(e.sd() <= s * (1 + 1.3 * 8 / std::sqrt(2.0 * P::n)) + u)) c.fail("half TRGSW row %u: rms noise 2^%.2f, limit 2^%.2f", i, std::log2(e.sd()), std::log2(s));
        if (a > 8 * er + 4 * u && !(e.sd() >= 0.75 * a - u)) c.fail("half TRGSW row %u: rms noise 2^%.2f is below the configured 2^%.2f", i, std::log2(e.sd()), std::log2(a));
    }
}
PROPERTY(halftrgsw, 2400, 50000)
{
    if (c.flip()) half_case<lvl1param>(c);
    else half_case<lvl2param>(c);
}

// Samples modulo the transform's prime, kept in transform form (what
// parameter sets with q = raintt::P use): exact arithmetic modulo q.
template <uint32_t NB, uint32_t K, int32_t KMIN>
struct ModQ {
    static constexpr int32_t key_value_max = 1, key_value_min = KMIN;
    static constexpr std::uint32_t nbit = NB, n = 1 << NB, k = K, l = 2, Bgbit = 8, Bg = 1 << Bgbit;
    static constexpr ErrorDistribution errordist = ErrorDistribution::CenteredBinomial;
    static constexpr uint η = 3;
    using T = uint32_t;
    static constexpr T q = raintt::P;
    static constexpr uint qbit = raintt::wordbits;
    static constexpr std::make_signed_t<T> μ = 1U << 29;
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = μ;
};
template <class P>
std::vector<uint32_t> untransform(const PolynomialRAINTT<P> &x)
{
    Polynomial<P> y;
    auto t = std::make_unique<PolynomialRAINTT<P>>(x);
    raintt::TwistNTT<typename P::T, P::nbit, false>(y, *t, (*raintttable)[0], (*raintttwist)[0]);
    std::vector<uint32_t> r(P::n);
    for (uint32_t i = 0; i < P::n; i++) r[i] = (uint32_t)((((int64_t)(int32_t)y[i]) % raintt::P + raintt::P) % raintt::P);
    return r;
}
template <class P>
void modq_case(Case &c)
{
    const uint64_t q = raintt::P;
    auto key = std::make_unique<Key<P>>();
    Bulk kb(c.seed());
    for (auto &v : *key) v = P::key_value_min < 0 ? (uint32_t)kb.below(3) - 1 : kb.below(2);
    const uint eta = c.chance(1, 4) ? 0 : 1 + c.below(40);
    Polynomial<P> m{};
    std::string d = "zero";
    const bool zero = c.chance(1, 4);
    if (!zero) {
        d = gen_poly(c, m);
        for (auto &v : m) v %= q;
    }
    c.note("k=%u n=%u modulo q: %s, binomial noise %u", P::k, P::n, d.c_str(), eta);
    c.label(fmt("q/%u/%u/%s", P::k, P::nbit, zero ? "zero" : "message"));
    c.nontrivial();
    Err e;
    double s1 = 0;
    const int reps = 4;
    for (int r = 0; r < reps; r++) {
        auto x = std::make_unique<TRLWERAINTT<P>>(zero ? trlwerainttSymEncryptZero<P>(eta, *key) : trlwerainttSymEncrypt<P>(m, eta, *key));
        auto b = untransform<P>((*x)[P::k]);
        std::vector<int64_t> ph(b.begin(), b.end());
        for (uint32_t k = 0; k < P::k; k++) {
            auto a = untransform<P>((*x)[k]);
            for (uint32_t i = 0; i < P::n; i++) {
                int64_t s = (int32_t)(*key)[k * P::n + i];
                if (!s) continue;
                for (uint32_t j = 0; j < P::n; j++) {
                    uint32_t t = i + j;
                    if (t < P::n) ph[t] -= s * (int64_t)a[j];
                    else ph[t - P::n] += s * (int64_t)a[j];
                }
            }
        }
        for (uint32_t i = 0; i < P::n; i++) {
            int64_t v = (ph[i] - (int64_t)m[i]) % (int64_t)q;
            if (v < 0) v += q;
            if (v > (int64_t)q / 2) v -= q;
            if (std::llabs(v) > (int64_t)eta) c.fail("coefficient %u: phase is off by %lld, the noise is at most %u", i, (long long)v, eta);
            e.add((double)v);
            s1 += (double)v * v;
        }
    }
    if (eta) {
        const double N = (double)reps * P::n, var = eta / 2.0;
        if (std::fabs(e.mean()) > 8 * std::sqrt(var / N)) c.fail("noise has mean %.3g", e.mean());
        if (std::fabs(s1 / N - var) > 10 * var / std::sqrt(N)* 1.5) c.fail("noise has variance %.3g instead of %.3g", s1 / N, var);
        c.metric("modulus q:variance/expected", s1 / N / var);
    }
}
// gadget ciphertexts made directly modulo q: rows read back by external products
template <class P>
void modq_trgsw_case(Case &c)
{
    auto key = std::make_unique<Key<P>>();
    Bulk kb(c.seed());
    for (auto &v : *key) v = P::key_value_min < 0 ? (uint32_t)kb.below(3) - 1 : kb.below(2);
    const uint eta = c.chance(1, 4) ? 0 : 1 + c.below(20);
    Polynomial<P> m;
    std::string d = gen_small(c, m, (int64_t)1 << c.below(4), c.flip() ? -1 : 0);
    c.note("k=%u n=%u TRGSW modulo q of %s, binomial noise %u", P::k, P::n, d.c_str(), eta);
    c.label(fmt("q/%u/%u/TRGSW", P::k, P::nbit));
    c.nontrivial();
    auto x = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(m, eta, *key));
    const double unit_q = std::ldexp(1.0, 32) / raintt::P * ulp<P>();  // one unit modulo q
    double n1 = norm1(m);
    // the gadget is rounded to integers modulo q, the result to words
    double t = unit_q * (n1 * 0.5 * (1 + (double)P::k * P::n) + eta) + (1 + (double)P::k * P::n) * (ulp<P>() + 0.5 * unit_q);
    double h = std::sqrt(1.0 + hw<P>(*key));
    for (uint32_t k = 0; k <= P::k; k++)
        for (uint32_t i = 0; i < P::l; i++) {
            auto want = row_phase<P>(m, i, k, *key);
            double g2 = norm2sq(k == P::k ? m : negacyclic(m, keypart<P>(*key, k))) / P::n;
            double rms = std::sqrt(std::pow(unit_q, 2) * (eta / 2.0 + 0.25 * g2) + std::pow(h * (ulp<P>() + 0.5 * unit_q), 2));
            TRLWE<P> r;
            trgswrainttExternalProduct<P>(r, unit<P>(i, k), *x);
            auto ph = ref_phase<P>(r, *key);
            Err e;
            for (uint32_t j = 0; j < P::n; j++) e.add(dist<typename P::T>(ph[j], want[j]));
            c.metric("modulus q:row max/limit", e.max() / t);
            c.metric("modulus q:row rms/limit", e.sd() / rms);
            if (!(e.max() <= t)) c.fail("row %u of component %u: phase is off by 2^%.2f, limit 2^%.2f", i, k, std::log2(e.max()), std::log2(t));
            if (!(e.sd() <= 1.5 * rms)) c.fail("row %u of component %u: rms error 2^%.2f, limit 2^%.2f", i, k, std::log2(e.sd()), std::log2(rms));
        }
}
PROPERTY(modulus_q, 600, 12000)
{
    switch (c.below(6)) {
    case 0: return modq_case<ModQ<lvl1param::nbit, 1, -1>>(c);
    case 1: return modq_case<ModQ<lvl1param::nbit, 2, -1>>(c);
    case 2: return modq_case<ModQ<lvl1param::nbit, 3, 0>>(c);
    case 3: return modq_trgsw_case<ModQ<lvl1param::nbit, 1, -1>>(c);
    case 4: return modq_trgsw_case<ModQ<lvl1param::nbit, 2, -1>>(c);
    default: return modq_trgsw_case<ModQ<lvl1param::nbit, 1, 0>>(c);
    }
}
