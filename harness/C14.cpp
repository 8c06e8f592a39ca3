// C14: private key switching and TLWE-to-TRLWE key switching. Oracle: the
// source phase times the secret polynomial, with the analytic noise bound.
#include "fix.hpp"
using namespace tf;

// small keys, generated per case
struct Small01 {
    using domainP = lvl0param;
    using targetP = lvl1param;
    static constexpr uint32_t t = 2, basebit = 3;
};
struct Small12 {
    using domainP = lvl1param;
    using targetP = lvl1param;
    static constexpr uint32_t t = 2, basebit = 2;
};
struct Small02 {
    using domainP = lvl0param;
    using targetP = lvl2param;
    static constexpr uint32_t t = 3, basebit = 1;
};
// short source keys, so that switching can use many digits and the secret
// polynomial may have large coefficients
template <class D, int N>
struct Short : D {
    static constexpr uint32_t n = N, k = 1;
};
using Short32 = Short<lvl1param, 40>;
using Short64 = Short<lvl2param, 24>;
template <class D, class G, uint32_t T, uint32_t B>
struct Fine {
    using domainP = D;
    using targetP = G;
    static constexpr uint32_t t = T, basebit = B;
};
template <class P>
constexpr int64_t largest()
{
    // the rounding of the source phase (times about sqrt(n)) must stay visible
    constexpr int b = std::min<int>(P::t * P::basebit, W<typename P::targetP::T>) - 8;
    return (int64_t)1 << (b > 1 ? b : 1);
}
template <class P>
std::string ksname() { return fmt("%s->%s", pname<typename P::domainP>(), pname<typename P::targetP>()); }

template <class D>
std::string gen_tlwe(Case &c, TLWE<D> &x, const Key<D> &key, bool &typical)
{
    using T = typename D::T;
    typical = false;
    switch (c.below(6)) {
    case 0: {
        x = {};
        x[D::k * D::n] = c.word<T>();
        return fmt("trivial %#" PRIx64, (uint64_t)x[D::k * D::n]);
    }
    case 1: {
        T a = c.word<T>(), b = c.word<T>();
        for (uint32_t i = 0; i <= D::k * D::n; i++) x[i] = i & 1 ? a : b;
        return fmt("alternating %#" PRIx64 ",%#" PRIx64, (uint64_t)a, (uint64_t)b);
    }
    case 2: {
        T m = c.word<T>();
        Bulk b(c.seed());
        x = make_tlwe<D>(b, m, key);
        typical = true;
        return fmt("noiseless %#" PRIx64, (uint64_t)m);
    }
    default: {
        T m = c.word<T>();
        x = tlweSymEncrypt<D>(m, key);
        typical = true;
        return fmt("encryption of %#" PRIx64, (uint64_t)m);
    }
    }
}
// the secret polynomial
template <class G>
std::string gen_func(Case &c, Polynomial<G> &f, const Key<G> &key, int64_t large = 0)
{
    switch (c.below(large ? 9 : 6)) {
    case 6: {
        // few coefficients, at and next to powers of two
        f = {};
        std::string d = "terms";
        for (int i = c.range(1, 4); i > 0; i--) {
            int64_t v = ((int64_t)1 << c.below(std::bit_width((uint64_t)large))) + c.range(-1, 1);
            if (c.flip()) v = -v;
            uint32_t at = c.below(G::n);
            f[at] = (typename G::T)v;
            d += fmt(" %" PRId64 "X^%u", v, at);
        }
        return d;
    }
    case 7: case 8: return gen_small(c, f, large, c.flip() ? -1 : 0);
    case 0: f = {}, f[0] = 1; return "1";
    case 1: {
        int k = c.below(G::k);
        f = keypart<G>(key, k);
        if (c.flip()) {
            for (auto &v : f) v = 0 - v;
            return fmt("-key part %d", k);
        }
        return fmt("key part %d", k);
    }
    case 2: return "torus " + gen_poly(c, f);
    default: return gen_small(c, f, (int64_t)1 << c.below(4), c.flip() ? -1 : 0);
    }
}
// err: tb bits of the input were used; rows: key rows that may be added
template <class D, class G>
void judge(Case &c, const char *what, const TRLWE<G> &r, const TLWE<D> &x, const Key<D> &dk, const Key<G> &tk, const Polynomial<G> &f, uint32_t tb, double rows, double fraction, bool typical)
{
    double s2 = 1, s1 = 1;
    for (uint32_t i = 0; i < D::k * D::n; i++) {
        double v = (double)(S<typename D::T>)dk[i];
        s2 += v * v, s1 += std::fabs(v);
    }
    double delta = tb < (uint32_t)W<typename D::T> ? std::ldexp(1.0, -(int)tb - 1) : 0;
    // rounding in encryption itself
    double enc = sizeof(typename G::T) == 8 ? std::sqrt((double)hw<G>(tk)) * ulp<G>() : G::k * ulp<G>();
    double a = alpha<G>(), key = rows * (typical ? fraction : 1) * (a * a + enc * enc);
    auto ph = ref_phase<G>(r, tk);
    double in = real<typename D::T>(ref_phase<D>(x, dk)), w = 0;
    for (uint32_t i = 0; i < G::n; i++) {
        double m = (double)(S<typename G::T>)f[i];
        // |in| < 1/2 known to 53 bits; large m: reduce exactly in words
        double want;
        {
            // x * f[i] mod 1, exactly: in is a multiple of 2^-W_D
            __int128 p = (__int128)(S<typename D::T>)ref_phase<D>(x, dk) * (S<typename G::T>)f[i];
            // p * 2^-W_D mod 1
            constexpr int w1 = W<typename D::T>;
            unsigned __int128 q = (unsigned __int128)p << (128 - w1);
            want = std::ldexp((double)(int64_t)(uint64_t)(q >> 64), -64);
            (void)in;
        }
        double e = real<typename G::T>(ph[i]) - want;
        e -= std::round(e);
        double lim = typical ? 9.5 * std::sqrt(key + s2 * m * m * delta * delta / 3) : 9.5 * std::sqrt(key) + s1 * std::fabs(m) * delta;
        lim += (std::fabs(m) + 2) * std::ldexp(1.0, -53);
        if (lim > 0.5) lim = 0.5;
        w = std::max(w, std::fabs(e) / lim);
        if (!(std::fabs(e) <= lim)) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, i, std::log2(std::fabs(e)), std::log2(lim));
    }
    c.metric(fmt("%s%s:max/limit", what, typical ? "" : "/adv"), w);
}
template <class P>
double frac_signed() { return 1 - std::ldexp(1.0, -(int)P::basebit); }

// ---- shared big keys ------------------------------------------------------------
static SecretKey *SK;
static uint64_t SEED;
template <class P>
void fixture_func(Polynomial<typename P::targetP> &f, int which)
{
    using G = typename P::targetP;
    Bulk b(pbt::hash2(SEED, 500 + which));
    auto key = std::make_unique<Key<G>>(SK->key.get<G>());
    if (which == 0)
        for (uint32_t i = 0; i < G::n; i++) f[i] = 0 - (*key)[i];
    else
        for (auto &v : f) v = (typename G::T)((int)b.below(5) - 2);
}
template <class P>
struct Priv {
    static inline Big<PrivateKeySwitchingKey<P>> key;
    static inline std::unique_ptr<Polynomial<typename P::targetP>> f;
    static void build()
    {
        f = std::make_unique<Polynomial<typename P::targetP>>();
        fixture_func<P>(*f, std::is_same_v<P, lvl21param> ? 0 : 1);
        key = big<PrivateKeySwitchingKey<P>>();
        privkskgen<P>(*key, *f, *SK);
    }
};
static Big<SubsetPrivateKeySwitchingKey<lvl21param>> SUB;
static std::unique_ptr<Polynomial<lvl1param>> SUBF;
static Big<TLWE2TRLWEIKSKey<lvl11param>> T2T;
FIXTURE(seed)
{
    SEED = seed;
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    std::vector<std::function<void()>> jobs{
        [] {
            T2T = big<TLWE2TRLWEIKSKey<lvl11param>>();
            tlwe2trlweikskgen<lvl11param>(*T2T, *SK);
        },
        [] {
            SUB = big<SubsetPrivateKeySwitchingKey<lvl21param>>();
            SUBF = std::make_unique<Polynomial<lvl1param>>();
            fixture_func<lvl21param>(*SUBF, 1);
            subprivkskgen<lvl21param>(*SUB, *SUBF, *SK);
        },
        Priv<lvl11param>::build, Priv<lvl21param>::build};
    const char *tier = getenv("C14_LVL22");
    if (tier) jobs.insert(jobs.begin(), Priv<lvl22param>::build);
    build_parallel(seed, jobs);
}
template <class P>
void priv_shared(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    if (!Priv<P>::key) c.discard();
    auto dk = std::make_unique<Key<D>>(SK->key.get<D>());
    auto tk = std::make_unique<Key<G>>(SK->key.get<G>());
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TRLWE<G>>();
    c.label(ksname<P>());
    c.nontrivial();
    int n = 1 + c.below(3);
    std::string d;
    for (int i = 0; i < n; i++) {
        bool typical;
        d += " " + gen_tlwe<D>(c, *x, *dk, typical);
        c.note("private %s, shared key:%s", ksname<P>().c_str(), d.c_str());
        auto x0 = *x;
        PrivKeySwitch<P>(*r, *x, *Priv<P>::key);
        if (*x != x0) c.fail("input modified");
        judge<D, G>(c, ksname<P>().c_str(), *r, *x, *dk, *tk, *Priv<P>::f, P::t * P::basebit, (D::k * D::n + 1) * P::t, frac_signed<P>(), typical);
    }
}
PROPERTY(private_shared, 300, 6000)
{
    switch (c.below(9)) {
    case 0: return priv_shared<lvl22param>(c);
    case 1: case 2: case 3: return priv_shared<lvl11param>(c);
    default: return priv_shared<lvl21param>(c);
    }
}
// a key of the level, or of a short one
template <class D>
std::unique_ptr<Key<D>> source_key(Case &c, const SecretKey &sk)
{
    auto dk = std::make_unique<Key<D>>();
    if constexpr (D::n < 64) {
        int lo = -(int)c.below(2);
        Bulk b(c.seed());
        for (auto &v : *dk) v = (typename D::T)(lo + (int)b.below(2 - lo));
    }
    else
        *dk = sk.key.get<D>();
    return dk;
}
template <class P>
void priv_fresh(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    SecretKey sk;
    auto dk = source_key<D>(c, sk);
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    Polynomial<G> f;
    std::string df = gen_func<G>(c, f, *tk, largest<P>()), d;
    auto key = big<PrivateKeySwitchingKey<P>>();
    c.note("private %s for %s", ksname<P>().c_str(), df.c_str());
    c.label(ksname<P>() + " fresh");
    if (df != "zero") c.nontrivial();
    privkskgen<P>(*key, f, *dk, *tk);
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TRLWE<G>>();
    for (int i = 0; i < 6; i++) {
        bool typical;
        d += " " + gen_tlwe<D>(c, *x, *dk, typical);
        c.note("private %s for %s:%s", ksname<P>().c_str(), df.c_str(), d.c_str());
        PrivKeySwitch<P>(*r, *x, *key);
        judge<D, G>(c, (ksname<P>() + "/fresh").c_str(), *r, *x, *dk, *tk, f, P::t * P::basebit, (D::k * D::n + 1) * P::t, frac_signed<P>(), typical);
    }
}
PROPERTY(private_fresh, 120, 3000)
{
    switch (c.below(14)) {
    case 0: return priv_fresh<Small02>(c);
    case 1: case 2: return priv_fresh<Small12>(c);
    case 3: case 4: case 5: return priv_fresh<Small01>(c);
    case 6: case 7: return priv_fresh<Fine<Short32, lvl1param, 8, 3>>(c);
    case 8: return priv_fresh<Fine<Short32, lvl1param, 25, 1>>(c);
    case 9: return priv_fresh<Fine<Short32, lvl2param, 4, 6>>(c);
    case 10: return priv_fresh<Fine<Short64, lvl1param, 6, 5>>(c);
    case 11: return priv_fresh<Fine<Short64, lvl2param, 10, 4>>(c);
    case 12: return priv_fresh<Fine<Short64, lvl2param, 40, 1>>(c);
    default: return priv_fresh<Fine<Short32, lvl1param, 3, 8>>(c);
    }
}
// the source key is the head of the level-2 key
PROPERTY(private_subset, 300, 6000)
{
    using P = lvl21param;
    using G = P::targetP;
    auto k2 = std::make_unique<Key<lvl2param>>(SK->key.get<lvl2param>());
    auto tk = std::make_unique<Key<G>>(SK->key.get<G>());
    Key<G> head;
    for (uint32_t i = 0; i < G::k * G::n; i++) head[i] = (G::T)(*k2)[i];
    auto x = std::make_unique<TLWE<G>>();
    auto r = std::make_unique<TRLWE<G>>();
    c.label("subset");
    c.nontrivial();
    std::string d;
    int n = 1 + c.below(3);
    for (int i = 0; i < n; i++) {
        bool typical;
        d += " " + gen_tlwe<G>(c, *x, head, typical);
        c.note("subset private key switch:%s", d.c_str());
        auto x0 = *x;
        SubsetPrivKeySwitch<P>(*r, *x, *SUB);
        if (*x != x0) c.fail("input modified");
        judge<G, G>(c, "subset", *r, *x, head, *tk, *SUBF, P::t * P::basebit, (G::k * G::n + 1) * P::t, frac_signed<P>(), typical);
    }
}
// the same with fresh keys and any secret polynomial
template <class P>
void subset_fresh(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    SecretKey sk;
    auto dk = std::make_unique<Key<D>>(sk.key.get<D>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    if (c.chance(1, 4)) dk->fill(1);  // rounding errors of one sign add up
    auto head = std::make_unique<Key<G>>();
    for (uint32_t i = 0; i < G::k * G::n; i++) (*head)[i] = (typename G::T)(*dk)[i];
    Polynomial<G> f;
    std::string df = gen_func<G>(c, f, *tk, largest<P>()), d;
    auto key = big<SubsetPrivateKeySwitchingKey<P>>();
    c.label("subset fresh");
    if (df != "zero") c.nontrivial();
    subprivkskgen<P>(*key, f, *dk, *tk);
    auto x = std::make_unique<TLWE<G>>();
    auto r = std::make_unique<TRLWE<G>>();
    for (int i = 0; i < 4; i++) {
        bool typical;
        d += " " + gen_tlwe<G>(c, *x, *head, typical);
        c.note("subset %u digits of %u bits for %s:%s", (unsigned)P::t, (unsigned)P::basebit, df.c_str(), d.c_str());
        SubsetPrivKeySwitch<P>(*r, *x, *key);
        judge<G, G>(c, "subset/fresh", *r, *x, *head, *tk, f, P::t * P::basebit, (G::k * G::n + 1) * P::t, frac_signed<P>(), typical);
    }
}
PROPERTY(subset_fresh, 60, 1500)
{
    switch (c.below(4)) {
    case 0: return subset_fresh<Fine<lvl2param, lvl1param, 3, 2>>(c);
    case 1: return subset_fresh<Fine<lvl2param, lvl1param, 20, 1>>(c);
    case 2: return subset_fresh<Fine<lvl2param, lvl1param, 7, 3>>(c);
    default: return subset_fresh<Fine<lvl2param, lvl1param, 2, 4>>(c);
    }
}
// ---- TLWE to TRLWE ---------------------------------------------------------------
template <class P>
void t2t_judge(Case &c, const char *what, const TLWE2TRLWEIKSKey<P> &key, const Key<typename P::domainP> &dk, const Key<typename P::targetP> &tk)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TRLWE<G>>();
    std::string d;
    int n = 1 + c.below(4);
    for (int i = 0; i < n; i++) {
        bool typical;
        d += " " + gen_tlwe<D>(c, *x, dk, typical);
        c.note("%s:%s", what, d.c_str());
        auto x0 = *x;
        TLWE2TRLWEIKS<P>(*r, *x, key);
        if (*x != x0) c.fail("input modified");
        double s1 = 0;
        for (uint32_t j = 0; j < D::k * D::n; j++) s1 += dk[j] != 0;
        double enc = sizeof(typename G::T) == 8 ? std::sqrt((double)hw<G>(tk)) * ulp<G>() : G::k * ulp<G>();
        double a = alpha<G>(), rows = (double)D::k * D::n * P::t * (typical ? frac_signed<P>() : 1), key_ = rows * (a * a + enc * enc);
        double delta = std::ldexp(1.0, -(int)(P::t * P::basebit) - 1);
        auto ph = ref_phase<G>(*r, tk);
        double in = real<typename D::T>(ref_phase<D>(*x, dk)), w = 0;
        for (uint32_t j = 0; j < G::n; j++) {
            double e = real<typename G::T>(ph[j]) - (j ? 0 : in);
            e -= std::round(e);
            double lim = typical ? 9.5 * std::sqrt(key_ + (j ? 0 : s1 * delta * delta / 3)) : 9.5 * std::sqrt(key_) + (j ? 0 : s1 * delta);
            if (!j && W<typename D::T> > W<typename G::T>) lim += ulp<G>();
            lim += std::ldexp(1.0, -53);
            w = std::max(w, std::fabs(e) / lim);
            if (!(std::fabs(e) <= lim)) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, j, std::log2(std::fabs(e)), std::log2(lim));
        }
        c.metric(fmt("%s%s:max/limit", what, typical ? "" : "/adv"), w);
    }
}
template <class P>
void t2t_fresh(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    SecretKey sk;
    auto dk = source_key<D>(c, sk);
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    auto key = big<TLWE2TRLWEIKSKey<P>>();
    tlwe2trlweikskgen<P>(*key, *dk, *tk);
    t2t_judge<P>(c, ("tlwe2trlwe " + ksname<P>() + " fresh").c_str(), *key, *dk, *tk);
}
PROPERTY(tlwe_to_trlwe, 300, 6000)
{
    c.nontrivial();
    int w = c.below(14);
    if (w == 0) t2t_fresh<Small01>(c);
    else if (w == 1) t2t_fresh<Small12>(c);
    else if (w == 2) t2t_fresh<Fine<Short32, lvl2param, 5, 4>>(c);
    else if (w == 3) t2t_fresh<Fine<Short64, lvl1param, 14, 2>>(c);
    else if (w == 4) t2t_fresh<Fine<Short64, lvl2param, 6, 6>>(c);
    else if (w == 5) t2t_fresh<Fine<Short32, lvl1param, 25, 1>>(c);
    else t2t_judge<lvl11param>(c, "tlwe2trlwe lvl1->lvl1", *T2T, SK->key.get<lvl1param>(), SK->key.get<lvl1param>());
}
