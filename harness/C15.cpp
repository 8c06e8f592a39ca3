// C15: homomorphic automorphism, annihilation and packing. Oracle: the phase
// polynomial mapped by the definition, with the analytic noise bound.
#include "bounds.hpp"
using namespace tf;

template <class P>
struct Ctx {
    SecretKey sk;
    Key<P> key;
    std::vector<double> part;  // Hamming weight of each key polynomial
    double hwt = 0;
    Ctx()
    {
        key = sk.key.get<P>();
        for (uint32_t k = 0; k < P::k; k++) part.push_back(norm2sq(keypart<P>(key, k))), hwt += part.back();
    }
    // one homomorphic automorphism
    Bound one(bool typical) const
    {
        Bound b;
        for (double h : part) b += extprod<P>(FFT, alpha<P>(), hwt, h, h, typical, false, true);
        // halving / truncation of every word by up to one unit
        b.max += (1 + hwt) * ulp<P>();
        return b;
    }
};
template <class P>
auto big_eak() { return big<EvalAutoKey<P>>(); }
template <class P>
auto big_ahk() { return big<AnnihilateKey<P>>(); }
template <class P>
std::string gen_input(Case &c, TRLWE<P> &x, const Key<P> &key, bool &typical)
{
    typical = false;
    switch (c.below(5)) {
    case 0: {
        Polynomial<P> p;
        std::string d = "noiseless sample of " + gen_poly(c, p);
        Bulk b(c.seed());
        x = make_trlwe<P>(b, p, key);
        typical = true;
        return d;
    }
    case 1:
        x = {};
        return "trivial sample of " + gen_poly(c, x[P::k]);
    case 2: {
        std::string d = "words";
        for (auto &p : x) d += " " + gen_poly(c, p);
        return d;
    }
    default: {
        Polynomial<P> p;
        std::string d = "encryption of " + gen_poly(c, p);
        x = trlweSymEncrypt<P>(p, key);
        typical = true;
        return d;
    }
    }
}
template <class P>
void judge(Case &c, const char *what, const TRLWE<P> &r, const Polynomial<P> &want, const Key<P> &key, const Bound &b, bool typical)
{
    auto ph = ref_phase<P>(r, key);
    double lim = b.limit(), w = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        double e = std::fabs(dist<typename P::T>(ph[i], want[i]));
        w = std::max(w, e / lim);
        if (!(e <= lim)) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, i, std::log2(e), std::log2(lim));
    }
    c.metric(fmt("%s/%s%s:max/limit", what, pname<P>(), typical ? "" : "/adv"), w);
}
// Annihilation by `steps` automorphisms: coefficients at multiples of 2^steps
// carry the message (want); the others should be zero. What the code leaves
// there is a multiple of 2^-(steps-1-s), s the number of factors 2 in the
// index (known finding); anything else is a violation. Returns the index of a
// coefficient that is not zero (0: none).
template <class P>
uint32_t judge_trace(Case &c, const char *what, const TRLWE<P> &r, const Polynomial<P> &want, const Key<P> &key, const Bound &b, uint32_t steps, bool strict)
{
    auto ph = ref_phase<P>(r, key);
    double lim = b.limit(), w = 0;
    uint32_t bad = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        double e = dist<typename P::T>(ph[i], want[i]);
        uint32_t s = i ? std::countr_zero(i) : P::nbit;
        if (s < steps && std::fabs(e) > lim && !strict) {
            bad = i;
            e = std::ldexp(e, steps - 1 - s);
            e = std::ldexp(e - std::round(e), -(int)(steps - 1 - s));
        }
        e = std::fabs(e);
        w = std::max(w, e / lim);
        if (!(e <= lim)) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, i, std::log2(e), std::log2(lim));
    }
    c.metric(fmt("%s/%s:max/limit", what, pname<P>()), w);
    return bad;
}
template <class P>
uint32_t gen_d(Case &c)
{
    switch (c.below(6)) {
    case 0: return (1u << (1 + c.below(P::nbit))) + 1;
    case 1: return 2 * P::n - 1;
    case 2: return 1 + 2 * c.below(4);
    case 3: return (uint32_t)(P::n + (c.flip() ? 1 : -1));
    default: return 1 + 2 * c.below(P::n);
    }
}
// a history of automorphisms of one sample
template <class P>
void auto_case(Case &c)
{
    auto ctx = std::make_unique<Ctx<P>>();
    auto x = std::make_unique<TRLWE<P>>(), r = std::make_unique<TRLWE<P>>();
    auto ak = big_eak<P>();
    bool typical;
    std::string d = gen_input<P>(c, *x, ctx->key, typical);
    int n = 1 + c.below(4);
    Bound b;
    auto want = ref_phase<P>(*x, ctx->key);
    c.label(fmt("auto %s%s", pname<P>(), typical ? "" : "/adv"));
    c.nontrivial();
    uint32_t e = 0;
    for (int i = 0; i < n; i++) {
        if (i == 0 || c.chance(2, 3)) {
            e = gen_d<P>(c);
            evalautokeygen<P>(*ak, e, ctx->key);
        }
        d += fmt(" d=%u", e);
        c.note("%s: automorphisms of %s", pname<P>(), d.c_str());
        auto x0 = *x;
        EvalAuto<P>(*r, *x, e, *ak);
        if (*x != x0) c.fail("input modified");
        want = automorphism<P>(want, e);
        b += ctx->one(typical);
        judge<P>(c, "automorphism", *r, want, ctx->key, b, typical);
        *x = *r;
    }
}
template <class P>
void annihilate_case(Case &c)
{
    auto ctx = std::make_unique<Ctx<P>>();
    auto x = std::make_unique<TRLWE<P>>(), r = std::make_unique<TRLWE<P>>();
    auto ahk = big_ahk<P>();
    if (c.flip()) annihilatekeygen<P>(*ahk, ctx->sk);
    else annihilatekeygen<P>(*ahk, ctx->key);
    c.label(fmt("annihilate %s", pname<P>()));
    c.nontrivial();
    uint32_t bad = 0;
    for (int i = 0; i < 3; i++) {
        bool typical;
        std::string d = gen_input<P>(c, *x, ctx->key, typical);
        bool alias = c.chance(1, 4);
        c.note("%s: annihilate %s%s", pname<P>(), d.c_str(), alias ? " in place" : "");
        auto p = ref_phase<P>(*x, ctx->key);
        Polynomial<P> want{};
        want[0] = p[0];
        auto x0 = *x;
        if (alias) {
            *r = *x;
            AnnihilateKeySwitching<P>(*r, *r, *ahk);
        }
        else AnnihilateKeySwitching<P>(*r, *x, *ahk);
        if (*x != x0) c.fail("input modified");
        Bound b;
        for (uint32_t j = 0; j < P::nbit; j++) b += ctx->one(typical);
        if (uint32_t j = judge_trace<P>(c, "annihilation", *r, want, ctx->key, b, P::nbit, d.rfind("trivial", 0) == 0)) bad = j;
    }
    if (bad) c.known("annihilation-residue", "annihilation: coefficient %u is not cleared", bad);
}
template <class P>
void pack_case(Case &c)
{
    auto ctx = std::make_unique<Ctx<P>>();
    auto ahk = big_ahk<P>();
    annihilatekeygen<P>(*ahk, ctx->key);
    uint32_t bad = 0;
    for (int rep = 0; rep < 2; rep++) {
        uint32_t n;
        switch (c.below(6)) {
        case 0: n = 1 + c.below(5); break;
        case 1: n = 1u << c.below(P::nbit + 1); break;
        case 2: n = (uint32_t)std::clamp<int64_t>((1 << c.below(P::nbit + 1)) + c.range(-1, 1), 1, P::n); break;
        case 3: n = P::n - c.below(3); break;
        default: n = 1 + c.below(c.flip() ? 40 : P::n);
        }
        int kind = c.below(5);
        bool lsb = c.flip();
        uint64_t s = c.seed();
        typename P::T w = c.word<typename P::T>();
        static const char *kn[] = {"fresh encryptions of words", "fresh encryptions of bits", "noiseless samples of words", "copies of one sample of a word", "trivial samples of words"};
        c.note("%s: %s packing of %u %s (seed %" PRIu64 ", word %#" PRIx64 ")", pname<P>(), lsb ? "in-order" : "strided", n, kn[kind], s, (uint64_t)w);
        c.label(fmt("pack %s %s%s", pname<P>(), lsb ? "in-order" : "strided", std::has_single_bit(n) ? "" : " not a power of two"));
        if (n > 1) c.nontrivial();
        Bulk b(s);
        std::vector<TLWE<P>> v(n);
        for (uint32_t i = 0; i < n; i++) {
            typename P::T m = b.below(8) ? (typename P::T)b.next() : w;
            switch (kind) {
            case 0: v[i] = tlweSymEncrypt<P>(m, ctx->key); break;
            case 1: v[i] = tlweSymEncrypt<P>(b.below(2) ? P::μ : 0 - P::μ, ctx->key); break;
            case 2: v[i] = make_tlwe<P>(b, m, ctx->key); break;
            case 3: v[i] = i ? v[0] : tlweSymEncrypt<P>(w, ctx->key); break;
            default: v[i] = {}; v[i][P::k * P::n] = m;
            }
        }
        auto v0 = v;
        auto r = std::make_unique<TRLWE<P>>();
        for (auto &p : *r) p.fill((typename P::T)b.next());
        uint32_t step = 1;
        if (lsb) TLWE2TRLWEPacking<P>(*r, v, *ahk);
        else {
            TLWE2TRLWEChengsPacking<P>(*r, v, *ahk);
            step = P::n / std::bit_ceil(n);
        }
        Polynomial<P> want{};
        for (uint32_t i = 0; i < n; i++) {
            want[i * step] = ref_phase<P>(v0[i], ctx->key);
            if (i < v.size() && v[i] != v0[i]) c.fail("input %u modified", i);
        }
        Bound bd;
        for (uint32_t j = 0; j < P::nbit; j++) bd += ctx->one(true);
        if (lsb) judge<P>(c, "in-order packing", *r, want, ctx->key, bd, true);
        else if (uint32_t j = judge_trace<P>(c, "strided packing", *r, want, ctx->key, bd, std::countr_zero(step), false)) bad = j;
    }
    if (bad) c.known("annihilation-residue", "strided packing: coefficient %u is not cleared", bad);
}
PROPERTY(evalauto, 120, 3000)
{
    if (c.below(3)) auto_case<lvl1param>(c);
    else auto_case<lvl2param>(c);
}
PROPERTY(annihilate, 60, 1500)
{
    if (c.below(3)) annihilate_case<lvl1param>(c);
    else annihilate_case<lvl2param>(c);
}
PROPERTY(pack, 120, 3000)
{
    if (c.below(4)) pack_case<lvl1param>(c);
    else pack_case<lvl2param>(c);
}
