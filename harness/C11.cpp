// C11: external products. Oracle: the exact product of the phases, computed by
// schoolbook arithmetic, with the analytic noise bound of the scheme.
#include "bounds.hpp"
using namespace tf;

template <class P>
struct Any {  // one TRGSW in a backend
    Backend be;
    std::unique_ptr<TRGSWFFT<P>> f;
    std::unique_ptr<TRGSWNTT<P>> n;
    std::unique_ptr<TRGSWRAINTT<P>> r;
    Any(Backend be, const TRGSW<P> &x) : be(be)
    {
        if (be == FFT) f = std::make_unique<TRGSWFFT<P>>(ApplyFFT2trgsw<P>(x));
        if (be == NTT) n = std::make_unique<TRGSWNTT<P>>(ApplyNTT2trgsw<P>(x));
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(typename P::T) == 4)
            if (be == RAINTT) r = std::make_unique<TRGSWRAINTT<P>>(ApplyRAINTT2trgsw<P>(x));
    }
    // encrypts directly into the backend
    Any(Backend be, const Polynomial<P> &m, double a, bool dflt, const Key<P> &key) : be(be)
    {
        if (be == FFT) f = std::make_unique<TRGSWFFT<P>>(dflt ? trgswfftSymEncrypt<P>(m, key) : trgswfftSymEncrypt<P>(m, a, key));
        if (be == NTT) n = std::make_unique<TRGSWNTT<P>>(dflt ? trgswnttSymEncrypt<P>(m, key) : trgswnttSymEncrypt<P>(m, a, key));
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(typename P::T) == 4)
            if (be == RAINTT) r = std::make_unique<TRGSWRAINTT<P>>(dflt ? trgswrainttSymEncrypt<P>(m, key) : trgswrainttSymEncrypt<P>(m, a, key));
    }
    void mul(TRLWE<P> &res, const TRLWE<P> &x) const
    {
        if (be == FFT) trgswfftExternalProduct<P>(res, x, *f);
        if (be == NTT) trgswnttExternalProduct<P>(res, x, *n);
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(typename P::T) == 4)
            if (be == RAINTT) trgswrainttExternalProduct<P>(res, x, *r);
    }
};
template <class P>
constexpr int nbackends()
{
    return std::is_same_v<P, lvl1param> && sizeof(typename P::T) == 4 ? 3 : 2;
}
// errors of different coefficients are independent: the batch's rms means something
template <class P>
bool stat_ok(Backend be, const Polynomial<P> &m, bool aligned, double noise)
{
    // a binary key has a mean, and correlates the errors it multiplies
    if (P::key_value_min >= 0 && (!aligned || noise == 0)) return false;
    if (P::key_value_min >= 0 && be == RAINTT) return false;  // rounded words times the key
    if (be == NTT && sizeof(typename P::T) == 4) return false;  // smooth wrap error
    double a = norm1(m);
    return a * a == norm2sq(m);  // at most one coefficient
}
template <class P>
std::string gen_m(Case &c, Polynomial<P> &m)
{
    if (c.chance(1, 3)) {
        m = {};
        uint32_t e = c.below(P::n);
        bool neg = c.flip();
        m[e] = (typename P::T)(neg ? -1 : 1);
        return pbt::fmt("%sX^%u", neg ? "-" : "", e);
    }
    if (c.chance(1, 3)) {
        m = {};
        m[0] = c.below(2);
        return pbt::fmt("bit %d", (int)m[0]);
    }
    return gen_small(c, m, (int64_t)1 << c.below(3), c.flip() ? -1 : 0);
}
// input sample; typical: all words uniform; aligned: no decomposition error
template <class P>
std::string gen_input(Case &c, TRLWE<P> &x, const Key<P> &key, bool &typical, bool &aligned)
{
    using T = typename P::T;
    typical = false, aligned = false;
    std::string d;
    switch (c.below(4)) {
    case 0: {
        Polynomial<P> p;
        bool u;
        d = "noiseless sample of " + gen_poly(c, p, &u);
        Bulk b(c.seed());
        x = make_trlwe<P>(b, p, key);
        typical = true;  // mask uniform; so is the body
        break;
    }
    case 1: {
        Polynomial<P> p;
        d = "encryption of " + gen_poly(c, p);
        x = trlweSymEncrypt<P>(p, key);
        typical = true;
        break;
    }
    case 2: {
        x = {};
        d = "trivial sample of " + gen_poly(c, x[P::k]);
        break;
    }
    default: {
        d = "words";
        for (auto &p : x) d += " " + gen_poly(c, p);
    }
    }
    if (c.chance(1, 3)) {
        aligned = true;
        d += " aligned";
        T mask = (T)0 - ((T)1 << (W<T> - P::l * P::Bgbit));
        for (auto &p : x)
            for (auto &v : p) v &= mask;
    }
    return d;
}
template <class P>
void check_phase(Case &c, const char *what, const TRLWE<P> &r, const Polynomial<P> &want, const Key<P> &key, const Bound &b, bool typical, bool stat)
{
    using T = typename P::T;
    auto ph = ref_phase<P>(r, key);
    Err e;
    for (uint32_t i = 0; i < P::n; i++) {
        e.add(dist<T>(ph[i], want[i]));
        if (!(std::fabs(e.e.back()) <= b.limit())) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, i, std::log2(std::fabs(e.e.back())), std::log2(b.limit()));
    }
    if (b.limit() > 0) c.metric(fmt("%s:max/limit", what), e.max() / b.limit());
    if (typical && stat) {
        check_noise(c, what, e, b.sigma(), 9.5);
    }
}
template <class P>
void product_case(Case &c)
{
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> m;
    std::string dm = gen_m<P>(c, m);
    Backend be = (Backend)c.below(nbackends<P>());
    int mode = c.below(3);
    double a = mode == 0 ? alpha<P>() : mode == 1 ? alpha<P>() * c.below(1000) / 250.0 : 0;
    auto x = std::make_unique<TRLWE<P>>(), r = std::make_unique<TRLWE<P>>();
    bool typical, aligned;
    std::string dx = gen_input<P>(c, *x, *key, typical, aligned);
    c.note("%s %s TRGSW(%s) noise %.3g times %s", pname<P>(), bname(be), dm.c_str(), a, dx.c_str());
    c.label(fmt("%s/%s%s%s%s", pname<P>(), bname(be), typical ? "" : "/adversarial", aligned ? "/aligned" : "", mode == 2 ? "/noiseless" : ""));
    if (dm != "zero") c.nontrivial();
    Any<P> g(be, m, a, mode == 0, *key);
    auto want = negacyclic(ref_phase<P>(*x, *key), m);
    auto x0 = std::make_unique<TRLWE<P>>(*x);
    g.mul(*r, *x);
    if (*x != *x0) c.fail("input modified");
    // with 64-bit words encryption itself rounds
    double enc = sizeof(typename P::T) == 8 ? std::sqrt((double)hw<P>(*key)) * ulp<P>() : P::k * ulp<P>();
    Bound b = extprod<P>(be, std::sqrt(a * a + enc * enc), hw<P>(*key), norm2sq(m), norm1(m), typical, aligned, false, norm_ms<P>(m, *key));
    std::string what = fmt("%s/%s%s%s%s", pname<P>(), bname(be), typical ? "" : "/adv", aligned ? "/aligned" : "", mode == 2 ? "/noiseless" : "");
    check_phase<P>(c, what.c_str(), *r, want, *key, b, typical, stat_ok<P>(be, m, aligned, a));
    // in place
    if (c.chance(1, 4)) {
        g.mul(*x, *x);
        if (*x != *r) c.fail("in-place product differs from out-of-place product");
    }
}
#define RINGS(f) \
    if (c.flip()) f<lvl1param>(c); \
    else f<lvl2param>(c);
PROPERTY(product, 4000, 80000) { RINGS(product_case) }

// the same TRGSW in every backend
template <class P>
void agree_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> m;
    std::string dm = gen_m<P>(c, m);
    auto x = std::make_unique<TRLWE<P>>();
    bool typical, aligned;
    std::string dx = gen_input<P>(c, *x, *key, typical, aligned);
    c.note("%s all backends TRGSW(%s) times %s", pname<P>(), dm.c_str(), dx.c_str());
    c.label(fmt("%s/agree", pname<P>()));
    if (dm != "zero") c.nontrivial();
    auto g = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(m, *key));
    auto r0 = std::make_unique<TRLWE<P>>(), r = std::make_unique<TRLWE<P>>();
    Any<P>(NTT, *g).mul(*r0, *x);
    for (int be = 0; be < nbackends<P>(); be++) {
        if (be == NTT) continue;
        Any<P>((Backend)be, *g).mul(*r, *x);
        // same decomposition, same rows: only rounding remains. hw = 0: word by word
        Bound b = extprod<P>((Backend)be, 0, 0, 0, 0, typical, true);
        b += extprod<P>(NTT, 0, 0, 0, 0, typical, true);
        if (!typical) b.max += 20 * b.sigma();
        double w = 0;
        for (uint32_t k = 0; k <= P::k; k++)
            for (uint32_t i = 0; i < P::n; i++) {
                double e = std::fabs(dist<T>((*r)[k][i], (*r0)[k][i]));
                w = std::max(w, e);
                if (!(e <= b.limit())) c.fail("%s and NTT products differ by 2^%.2f in component %u coefficient %u (rounding limit 2^%.2f)", bname((Backend)be), std::log2(e), k, i, std::log2(b.limit()));
            }
        c.metric(fmt("%s:%s-NTT/limit", pname<P>(), bname((Backend)be)), w / b.limit());
    }
}
PROPERTY(backends_agree, 2400, 50000) { RINGS(agree_case) }

template <class P>
void half_case(Case &c)
{
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> m, p;
    std::string dm = gen_m<P>(c, m);
    bool uniform;
    std::string dp = gen_poly(c, p, &uniform);
    int mode = c.below(2);
    double a = mode ? 0 : alpha<P>();
    bool aligned = c.chance(1, 3);
    if (aligned) {
        using T = typename P::T;
        T mask = (T)0 - ((T)1 << (W<T> - P::l * P::Bgbit));
        for (auto &v : p) v &= mask;
    }
    c.note("%s half TRGSW(%s) noise %.3g times %s%s", pname<P>(), dm.c_str(), a, dp.c_str(), aligned ? " aligned" : "");
    c.label(fmt("%s/half%s", pname<P>(), uniform ? "" : "/adversarial"));
    if (dm != "zero" && dp != "zero") c.nontrivial();
    auto f = std::make_unique<HalfTRGSWFFT<P>>(mode ? halftrgswfftSymEncrypt<P>(m, a, *key) : halftrgswfftSymEncrypt<P>(m, *key));
    auto r = std::make_unique<TRLWE<P>>();
    auto p0 = p;
    halftrgswfftExternalProduct<P>(*r, p, *f);
    if (p != p0) c.fail("input modified");
    double enc = sizeof(typename P::T) == 8 ? std::sqrt((double)hw<P>(*key)) * ulp<P>() : P::k * ulp<P>();
    Bound b = extprod<P>(FFT, std::sqrt(a * a + enc * enc), hw<P>(*key), norm2sq(m), norm1(m), uniform, aligned, true);
    check_phase<P>(c, fmt("%s/half%s%s", pname<P>(), uniform ? "" : "/adv", mode ? "/noiseless" : "").c_str(), *r, negacyclic(p, m), *key, b, uniform, stat_ok<P>(FFT, m, true, a));
}
PROPERTY(half_product, 3000, 60000) { RINGS(half_case) }

// products of products: the bound accumulates linearly
template <class P>
void chain_case(Case &c)
{
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    Polynomial<P> p;
    std::string d = gen_poly(c, p);
    auto x = std::make_unique<TRLWE<P>>(trlweSymEncrypt<P>(p, *key));
    Polynomial<P> want = p;
    Bound b;
    b.var = alpha<P>() * alpha<P>() + hw<P>(*key) * ulp<P>() * ulp<P>();
    int len = 2 + c.below(8);
    std::string ops;
    bool ntt = false;
    for (int i = 0; i < len; i++) {
        Polynomial<P> m{};
        uint32_t e = c.below(P::n);
        int s = (int)c.below(4);  // 0: zero (rare), 1: -X^e, else X^e
        m[e] = (typename P::T)(s == 0 && c.chance(1, 6) ? 0 : s == 1 ? -1 : 1);
        Backend be = (Backend)c.below(nbackends<P>());
        ntt |= be == NTT && sizeof(typename P::T) == 4;
        ops += fmt(" %s(%d X^%u)", bname(be), (int)(std::make_signed_t<typename P::T>)m[e], e);
        Any<P> g(be, m, 0, true, *key);
        g.mul(*x, *x);
        want = negacyclic(want, m);
        double m2 = norm2sq(m);
        b.var *= m2;
        b += extprod<P>(be, alpha<P>(), hw<P>(*key), m2, m2, true, false);
    }
    c.note("%s chain on %s:%s", pname<P>(), d.c_str(), ops.c_str());
    c.label(fmt("%s/chain", pname<P>()));
    c.nontrivial();
    // after a multiplication by zero the sample is no longer uniform
    check_phase<P>(c, fmt("%s/chain", pname<P>()).c_str(), *x, want, *key, b, true, !ntt && P::key_value_min < 0);
}
PROPERTY(chain, 1500, 30000) { RINGS(chain_case) }
