// C13: identity key switching. Oracle: the phase under the source key, the
// analytic noise bound of the switch, and exact relations between inputs.
#include "fix.hpp"
using namespace tf;

template <class P>
struct Law {
    using D = typename P::domainP;
    using G = typename P::targetP;
    // standard deviation of the error of a switch, for uniform and for
    // arbitrary inputs; subset: only the last coefficients are switched
    static double delta() { return P::t * P::basebit < (uint32_t)W<typename D::T> ? std::ldexp(1.0, -(int)(P::t * P::basebit) - 1) : 0; }
    static double var_key(uint32_t n, bool typical = true)
    {
        double a = alpha<G>(), u = ulp<G>();
        return (double)n * P::t * (a * a + u * u / 3) * (typical ? 1 - std::ldexp(1.0, -(int)P::basebit) : 1);
    }
    static double body()
    {
        return W<typename D::T> > W<typename G::T> ? ulp<G>() : 0;
    }
};
template <class T, class U>
double rescaled_dist(T got, U want)
{
    // both as reals; widths differ
    double d = real<T>(got) - real<U>(want);
    return d - std::round(d);
}
// a sample under key with a known phase; kinds as in C12
template <class D>
std::string gen_tlwe(Case &c, TLWE<D> &x, const Key<D> &key, bool &typical)
{
    using T = typename D::T;
    typical = false;
    switch (c.below(6)) {
    case 0: {
        x = {};
        x[D::k * D::n] = c.word<T>();
        return fmt("trivial %#" PRIx64, (uint64_t)x[D::k * D::n]);
    }
    case 1: {
        T a = c.word<T>(), b = c.word<T>();
        for (uint32_t i = 0; i <= D::k * D::n; i++) x[i] = i & 1 ? a : b;
        return fmt("alternating %#" PRIx64 ",%#" PRIx64, (uint64_t)a, (uint64_t)b);
    }
    case 2: {  // boundary words everywhere
        Bulk b(c.seed());
        for (auto &v : x) {
            T one = (T)1 << b.below(W<T>);
            v = b.below(2) ? one : (T)(0 - one);
            v = (T)(v + (T)(b.below(3)) - 1);
        }
        return "boundary words";
    }
    case 3: {
        T m = c.word<T>();
        Bulk b(c.seed());
        x = make_tlwe<D>(b, m, key);
        typical = true;
        return fmt("noiseless %#" PRIx64, (uint64_t)m);
    }
    default: {
        T m = c.word<T>();
        x = tlweSymEncrypt<D>(m, key);
        typical = true;
        return fmt("encryption of %#" PRIx64, (uint64_t)m);
    }
    }
}
template <class P>
void judge(Case &c, const char *what, const TLWE<typename P::targetP> &r, const TLWE<typename P::domainP> &x, const Key<typename P::domainP> &dk, const Key<typename P::targetP> &tk, uint32_t first, bool typical, Err *batch = nullptr)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    double l1 = 0;
    for (uint32_t i = first; i < D::k * D::n; i++) l1 += std::fabs((double)(S<typename D::T>)dk[i]);
    double conv = 0;  // subset form: the kept coefficients are rounded as well
    if (first && W<typename D::T> > W<typename G::T>)
        for (uint32_t i = 0; i < first; i++) conv += dk[i] != 0;
    double delta = Law<P>::delta(), u = Law<P>::body();
    double var = Law<P>::var_key(D::k * D::n - first, typical) + (typical ? l1 * delta * delta / 3 + conv * u * u / 12 : 0);
    double limit = 9.5 * std::sqrt(var) + (typical ? 0 : l1 * delta + conv * u / 2) + u / 2;
    double e = rescaled_dist(ref_phase<G>(r, tk), ref_phase<D>(x, dk));
    c.metric(fmt("%s%s:max/limit", what, typical ? "" : "/adv"), std::fabs(e) / limit);
    if (!(std::fabs(e) <= limit)) c.fail("%s: phase off by 2^%.2f, limit 2^%.2f", what, std::log2(std::fabs(e)), std::log2(limit));
    if (batch && typical) batch->add(e);
}
template <class P>
double sigma_typical(const Key<typename P::domainP> &dk, uint32_t first = 0)
{
    using D = typename P::domainP;
    double l1 = 0;
    for (uint32_t i = first; i < D::k * D::n; i++) l1 += dk[i] != 0;
    double delta = Law<P>::delta(), u = Law<P>::body();
    return std::sqrt(Law<P>::var_key(D::k * D::n - first) + l1 * delta * delta / 3 + u * u + (first ? first * u * u / 12 : 0));
}

// ---- shared keys ----------------------------------------------------------------
static SecretKey *SK;
template <class P>
struct Shared {
    static inline Big<KeySwitchingKey<P>> ksk;
    static inline std::unique_ptr<Key<typename P::domainP>> dk;
    static inline std::unique_ptr<Key<typename P::targetP>> tk;
    static void build()
    {
        dk = std::make_unique<Key<typename P::domainP>>(SK->key.get<typename P::domainP>());
        tk = std::make_unique<Key<typename P::targetP>>(SK->key.get<typename P::targetP>());
        ksk = big<KeySwitchingKey<P>>();
        ikskgen<P>(*ksk, *SK);
    }
};
static Big<SubsetKeySwitchingKey<lvl21param>> SUB;
static void build_sub()
{
    SUB = big<SubsetKeySwitchingKey<lvl21param>>();
    subikskgen<lvl21param>(*SUB, *SK);
}
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    build_parallel(seed, {Shared<lvl22param>::build, Shared<lvl31param>::build, Shared<lvl11param>::build, build_sub, Shared<lvl21param>::build, Shared<lvl1hparam>::build, Shared<lvl2hparam>::build,
                          Shared<lvl20param>::build, Shared<lvl10param>::build});
}
template <class P>
const char *ksname()
{
    static std::string s = fmt("%s->%s", pname<typename P::domainP>(), pname<typename P::targetP>());
    return s.c_str();
}

template <class P>
void one_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    const auto &ksk = *Shared<P>::ksk;
    const auto &dk = *Shared<P>::dk;
    const auto &tk = *Shared<P>::tk;
    int n = 1 + c.below(24);
    Err batch;
    std::string d;
    c.label(ksname<P>());
    for (int i = 0; i < n; i++) {
        auto x = std::make_unique<TLWE<D>>();
        auto r = std::make_unique<TLWE<G>>();
        bool typical;
        std::string s = gen_tlwe<D>(c, *x, dk, typical);
        if (i < 3) d += (i ? ", " : "") + s;
        c.note("%s shared key: %s", ksname<P>(), d.c_str());
        auto x0 = *x;
        IdentityKeySwitch<P>(*r, *x, ksk);
        if (*x != x0) c.fail("input modified");
        if (s[0] != 't') c.nontrivial();
        else {
            for (uint32_t k = 0; k < G::k * G::n; k++)
                if ((*r)[k] != 0) c.fail("a sample with zero mask got a mask");
        }
        judge<P>(c, ksname<P>(), *r, *x, dk, tk, 0, typical, &batch);
        // only the rounded digits matter
        if constexpr (P::t * P::basebit < (uint32_t)W<typename D::T>) {
            if (c.chance(1, 4)) {
                using T = typename D::T;
                const T unit = (T)1 << (W<T> - P::t * P::basebit);
                auto y = *x;
                for (uint32_t k = 0; k < D::k * D::n; k++) {
                    T f = y[k] & (unit - 1);
                    if (f != unit / 2) y[k] = f < unit / 2 ? y[k] - f : y[k] - f + unit;
                }
                auto q = std::make_unique<TLWE<G>>();
                IdentityKeySwitch<P>(*q, y, ksk);
                if (*q != *r) c.fail("%s: rounding the mask to the digits' precision changes the result", ksname<P>());
            }
        }
    }
    double s = sigma_typical<P>(dk);
    // part of the error is common to all samples under one key
    if (batch.e.size() >= 4) {
        double m = std::fabs(batch.mean()) / (s * (std::sqrt(1.0 / batch.e.size()) + std::sqrt(1.0 / (1 << P::basebit))));
        c.metric(fmt("%s:centred", ksname<P>()), m);
        if (m > 6) c.fail("%s: mean error of %d samples is %.3g, standard deviation of the bound %.3g", ksname<P>(), (int)batch.e.size(), batch.mean(), s);
    }
}
#define EACH(f) \
    switch (c.below(32)) { \
    case 0: return f<lvl22param>(c); \
    case 1: case 2: return f<lvl31param>(c); \
    case 3: case 4: case 5: case 6: return f<lvl21param>(c); \
    case 7: case 8: case 9: case 10: return f<lvl11param>(c); \
    case 11: case 12: case 13: case 14: return f<lvl1hparam>(c); \
    case 15: case 16: case 17: case 18: return f<lvl20param>(c); \
    case 19: case 20: case 21: case 22: return f<lvl2hparam>(c); \
    default: return f<lvl10param>(c); \
    }
PROPERTY(identity, 1000, 40000) { EACH(one_case) }

template <class P, uint n>
void cat_n(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto x = std::make_unique<std::array<TLWE<D>, n>>();
    auto r = std::make_unique<std::array<TLWE<G>, n>>();
    std::string d;
    for (uint i = 0; i < n; i++) {
        bool t;
        std::string s = gen_tlwe<D>(c, (*x)[i], *Shared<P>::dk, t);
        if (i < 3) d += " " + s;
        if (i && c.chance(1, 5)) (*x)[i] = (*x)[i - 1];
    }
    c.note("%s concatenation of %u:%s", ksname<P>(), n, d.c_str());
    c.label(fmt("%s/cat%u", ksname<P>(), n));
    c.nontrivial();
    auto x0 = std::make_unique<std::array<TLWE<D>, n>>(*x);
    CatIdentityKeySwitch<P, n>(*r, *x, *Shared<P>::ksk);
    if (*x != *x0) c.fail("input modified");
    for (uint i = 0; i < n; i++) {
        TLWE<G> one;
        IdentityKeySwitch<P>(one, (*x)[i], *Shared<P>::ksk);
        if (one != (*r)[i]) c.fail("element %u of %u differs from the single key switch", i, n);
    }
}
template <class P>
void cat_case(Case &c)
{
    switch (c.below(5)) {
    case 0: return cat_n<P, 1>(c);
    case 1: return cat_n<P, 3>(c);
    case 2: return cat_n<P, 4>(c);
    case 3: return cat_n<P, 8>(c);
    default: return cat_n<P, 2>(c);
    }
}
PROPERTY(concatenated, 500, 16000) { EACH(cat_case) }

// fresh keys, chosen as well as generated
template <class D>
std::string gen_key(Case &c, Key<D> &k)
{
    using T = typename D::T;
    auto v = [&](Bulk &b) { return (T)(D::key_value_min + (int)b.below(D::key_value_max - D::key_value_min + 1)); };
    switch (c.below(6)) {
    case 0: k.fill((T)D::key_value_max); return "all max";
    case 1: k.fill((T)D::key_value_min); return "all min";
    case 2: {
        k = {};
        uint32_t i = c.below(D::k * D::n);
        k[i] = (T)D::key_value_max;
        return fmt("single %u", i);
    }
    default: {
        Bulk b(c.seed());
        for (auto &x : k) x = v(b);
        return "random";
    }
    }
}
template <class P>
void fresh_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<D>>();
    auto tk = std::make_unique<Key<G>>();
    std::string a = gen_key<D>(c, *dk), b = gen_key<G>(c, *tk);
    auto ksk = big<KeySwitchingKey<P>>();
    ikskgen<P>(*ksk, *dk, *tk);
    c.label(fmt("%s/fresh", ksname<P>()));
    c.nontrivial();
    Err batch;
    for (int i = 0; i < 8; i++) {
        auto x = std::make_unique<TLWE<D>>();
        auto r = std::make_unique<TLWE<G>>();
        bool typical;
        std::string s = gen_tlwe<D>(c, *x, *dk, typical);
        c.note("%s keys %s / %s: %s", ksname<P>(), a.c_str(), b.c_str(), s.c_str());
        IdentityKeySwitch<P>(*r, *x, *ksk);
        judge<P>(c, fmt("%s/fresh", ksname<P>()).c_str(), *r, *x, *dk, *tk, 0, typical, &batch);
    }
}
PROPERTY(fresh_keys, 80, 4000)
{
    if (c.flip()) fresh_case<lvl10param>(c);
    else if (c.flip()) fresh_case<lvl20param>(c);
    else fresh_case<lvl1hparam>(c);
}

// the target key is the head of the source key
PROPERTY(subset, 800, 16000)
{
    using P = lvl21param;
    using D = P::domainP;
    using G = P::targetP;
    static thread_local Key<D> dk;
    dk = SK->key.get<D>();
    Key<G> tk;
    for (uint32_t i = 0; i < G::k * G::n; i++) tk[i] = (G::T)dk[i];
    int n = 1 + c.below(16);
    Err batch;
    for (int i = 0; i < n; i++) {
        auto x = std::make_unique<TLWE<D>>();
        auto r = std::make_unique<TLWE<G>>();
        bool typical;
        std::string s = gen_tlwe<D>(c, *x, dk, typical);
        c.note("subset lvl2->lvl1: %s", s.c_str());
        if (s[0] != 't') c.nontrivial();
        auto x0 = *x;
        SubsetIdentityKeySwitch<P>(*r, *x, *SUB);
        if (*x != x0) c.fail("input modified");
        judge<P>(c, "subset", *r, *x, dk, tk, G::k * G::n, typical, &batch);
    }
    c.label("subset");
}

// switching is a function of the sum only up to the bound: phases of sums
PROPERTY(additive, 400, 8000)
{
    using P = lvl10param;
    using D = P::domainP;
    using G = P::targetP;
    const auto &ksk = *Shared<P>::ksk;
    auto x = std::make_unique<TLWE<D>>(), y = std::make_unique<TLWE<D>>(), z = std::make_unique<TLWE<D>>();
    bool tx, ty;
    std::string a = gen_tlwe<D>(c, *x, *Shared<P>::dk, tx), b = gen_tlwe<D>(c, *y, *Shared<P>::dk, ty);
    for (size_t i = 0; i < x->size(); i++) (*z)[i] = (*x)[i] + (*y)[i];
    TLWE<G> rx, ry, rz;
    IdentityKeySwitch<P>(rx, *x, ksk);
    IdentityKeySwitch<P>(ry, *y, ksk);
    IdentityKeySwitch<P>(rz, *z, ksk);
    c.note("lvl1->lvl0 of %s + %s", a.c_str(), b.c_str());
    c.nontrivial();
    double s = sigma_typical<P>(*Shared<P>::dk), l1 = (tx && ty) ? 0 : D::k * D::n * Law<P>::delta();
    double e = rescaled_dist(ref_phase<G>(rz, *Shared<P>::tk), (typename G::T)(ref_phase<G>(rx, *Shared<P>::tk) + ref_phase<G>(ry, *Shared<P>::tk)));
    double lim = 9.5 * std::sqrt(3.0) * s + 3 * l1 + 3 * ulp<G>();
    c.metric("additive:max/limit", std::fabs(e) / lim);
    if (!(std::fabs(e) <= lim)) c.fail("switched sum differs from sum of switched samples by 2^%.2f", std::log2(std::fabs(e)));
}
