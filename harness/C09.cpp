// C09: linearity of the phase and sample extraction, on arbitrary samples and
// arbitrary keys (the identities are algebraic: they hold for keys of full
// torus words too, which makes every coefficient count).
#include "tf.hpp"
using namespace tf;

template <class P>
std::string gen_key(Case &c, Key<P> &key)
{
    if (c.chance(1, 3)) {
        gen_poly(c, key);
        // uint16_t factors are promoted to int: keys of 15 bits keep the
        // products defined (the keys of this type are binary)
        if (sizeof(typename P::T) == 2)
            for (auto &v : key) v &= 0x7fff;
        return "arbitrary key";
    }
    uint64_t s = c.seed();
    Bulk b(s);
    for (auto &v : key) v = (typename P::T)(int64_t)((int64_t)P::key_value_min + (int64_t)b.below(P::key_value_max - P::key_value_min + 1));
    return "key";
}
template <class P>
void linear_case(Case &c)
{
    using T = typename P::T;
    static thread_local Key<P> key;
    static thread_local TLWE<P> a, b, r, a0;
    std::string dk = gen_key<P>(c, key), da = gen_poly(c, a), db = gen_poly(c, b);
    T x = c.word<T>(), y = c.word<T>();
    c.note("%s %s a:%s b:%s coefficients %#" PRIx64 " %#" PRIx64, pname<P>(), dk.c_str(), da.c_str(), db.c_str(), (uint64_t)x, (uint64_t)y);
    c.label(pname<P>());
    if (da != "zero" && x != 0) c.nontrivial();
    a0 = a;
    T pa = ref_phase<P>(a, key), pb = ref_phase<P>(b, key);
    auto expect = [&](const char *what, const TLWE<P> &t, T want) {
        T p = tlweSymPhase<P>(t, key);
        if (p != want) c.fail("%s: phase is %#" PRIx64 ", expected %#" PRIx64, what, (uint64_t)p, (uint64_t)want);
    };
    expect("a", a, pa);
    expect("b", b, pb);
    for (size_t i = 0; i < r.size(); i++) r[i] = (T)(a[i] + b[i]);
    expect("a+b", r, (T)(pa + pb));
    for (size_t i = 0; i < r.size(); i++) r[i] = (T)(a[i] - b[i]);
    expect("a-b", r, (T)(pa - pb));
    for (size_t i = 0; i < r.size(); i++) r[i] = (T)((uint64_t)x * a[i] + (uint64_t)y * b[i]);
    expect("x*a+y*b", r, (T)((uint64_t)x * pa + (uint64_t)y * pb));
    HomNOT<P>(r, a);
    expect("NOT a", r, (T)-pa);
    HomNOT<P>(r, r);
    if (r != a) c.fail("NOT NOT a differs from a");
    HomCOPY<P>(r, b);
    if (r != b) c.fail("COPY differs from its input");
    HomCONSTANTONE<P>(r);
    expect("constant one", r, (T)P::μ);
    HomCONSTANTZERO<P>(r);
    expect("constant zero", r, (T)-(T)P::μ);
    if (a != a0) c.fail("input modified");
}
PROPERTY_PURE(linear, 60000, 3000000)
{
    switch (c.below(9)) {
    case 0: case 1: return linear_case<lvl0param>(c);
    case 2: case 3: return linear_case<lvlhalfparam>(c);
    case 4: case 5: return linear_case<lvl1param>(c);
    case 6: case 7: return linear_case<lvl2param>(c);
    default: return linear_case<lvl3param>(c);
    }
}

// phase of ring samples: linear up to the rounding of the library's products
template <class P>
void ring_case(Case &c)
{
    using T = typename P::T;
    static thread_local Key<P> key;
    static thread_local TRLWE<P> a, b, r;
    uint64_t ks = c.seed();
    {
        Bulk bk(ks);
        for (auto &v : key) v = (T)(int64_t)((int64_t)P::key_value_min + (int64_t)bk.below(P::key_value_max - P::key_value_min + 1));
    }
    std::string d;
    for (auto &p : a) d += gen_poly(c, p) + " ";
    for (auto &p : b) d += gen_poly(c, p) + " ";
    int64_t x = c.range(-9, 9), y = c.range(-9, 9);
    c.note("%s a,b:%s coefficients %" PRId64 " %" PRId64, pname<P>(), d.c_str(), x, y);
    c.label(fmt("ring/%s", pname<P>()));
    c.nontrivial();
    for (size_t k = 0; k < a.size(); k++)
        for (size_t i = 0; i < P::n; i++) r[k][i] = (T)((T)((T)x * a[k][i]) + (T)((T)y * b[k][i]));
    auto pr = trlwePhase<P>(r, key), pa = trlwePhase<P>(a, key), pb = trlwePhase<P>(b, key);
    double n1 = 0;
    for (auto v : key) n1 += std::fabs((double)(S<T>)v);
    // per product: 64-bit words 0.5*|key|_1 + 2 (rescaling), 32-bit 1.5 (rounding)
    double one = sizeof(T) == 8 ? 0.5 * n1 + 2 * P::k : 1.5 * P::k, tol = one * (1 + std::fabs((double)x) + std::fabs((double)y));
    auto ex = ref_phase<P>(r, key);
    for (size_t i = 0; i < P::n; i++) {
        double e1 = std::fabs((double)(S<T>)(T)(pr[i] - ex[i]));
        if (!(e1 <= one)) c.fail("phase coefficient %zu is off by %.3g units (limit %.3g)", i, e1, one);
        double e = std::fabs((double)(S<T>)(T)(pr[i] - (T)((T)((T)x * pa[i]) + (T)((T)y * pb[i]))));
        if (!(e <= tol)) c.fail("phase(x*a+y*b) differs from x*phase(a)+y*phase(b) by %.3g units at coefficient %zu (limit %.3g)", e, i, tol);
    }
}
PROPERTY_PURE(ring_linear, 4000, 200000)
{
    if (c.flip()) ring_case<lvl1param>(c);
    else ring_case<lvl2param>(c);
}

template <class P>
void extract_case(Case &c)
{
    using T = typename P::T;
    static thread_local Key<P> key;
    static thread_local TRLWE<P> a, a0, back;
    static thread_local TLWE<P> t, t2;
    std::string d = gen_key<P>(c, key);
    for (auto &p : a) d += " " + gen_poly(c, p);
    c.note("%s %s", pname<P>(), d.c_str());
    c.label(fmt("extract/%s", pname<P>()));
    c.nontrivial();
    a0 = a;
    const bool big = P::n > 4096;
    Polynomial<P> ph{};
    if (!big) ph = ref_phase<P>(a, key);
    int count = big ? 4 : 24;
    for (int q = 0; q < count; q++) {
        int idx = q == 0 ? 0 : q == 1 ? (int)P::n - 1 : (int)c.below(P::n);
        uniform_fill(*std::make_unique<Bulk>(q), t.data(), t.size());  // stale contents
        SampleExtractIndex<P>(t, a, idx);
        T want;
        if (!big) want = ph[idx];
        else {
            want = a[P::k][idx];
            for (uint32_t k = 0; k < P::k; k++)
                for (int j = 0; j < (int)P::n; j++) {
                    T m = (T)(a[k][j] * key[k * P::n + (idx - j + (int)P::n) % P::n]);
                    want = j <= idx ? (T)(want - m) : (T)(want + m);
                }
        }
        T got = tlweSymPhase<P>(t, key);
        if (got != want) c.fail("extracting coefficient %d gives phase %#" PRIx64 ", the coefficient is %#" PRIx64, idx, (uint64_t)got, (uint64_t)want);
        // re-embed and extract again
        for (auto &p : back) uniform_fill(*std::make_unique<Bulk>(q + 100), p.data(), p.size());
        int at = c.chance(1, 3) ? idx : (int)c.below(P::n);
        InvSampleExtractIndex<P>(back, t, at);
        SampleExtractIndex<P>(t2, back, at);
        if (t2 != t) c.fail("re-embedding at %d and extracting again changes the sample", at);
        for (int j = 0; j < (int)P::n; j++)
            if (j != at && back[P::k][j] != 0) c.fail("re-embedding at %d sets body coefficient %d", at, j);
        // embedding what was extracted restores the mask polynomials
        if (at == idx)
            for (uint32_t k = 0; k < P::k; k++)
                if (back[k] != a[k]) c.fail("re-embedding at the extracted index %d changes mask polynomial %u", idx, k);
        if (q == 0 && !big) {
            auto bp = ref_phase<P>(back, key);
            if (bp[at] != want) c.fail("phase at coefficient %d after re-embedding is %#" PRIx64 ", expected %#" PRIx64, at, (uint64_t)bp[at], (uint64_t)want);
        }
    }
    if (a != a0) c.fail("input modified");
}
PROPERTY_PURE(extract, 8000, 400000)
{
    switch (c.below(7)) {
    case 0: case 1: case 2: return extract_case<lvl1param>(c);
    case 3: case 4: case 5: return extract_case<lvl2param>(c);
    default: return extract_case<lvl3param>(c);
    }
}
// every index once, per ring level
PROPERTY_PURE(extract_all, 40, 1500)
{
    auto run = [&](auto tag) {
        using P = typename decltype(tag)::type;
        using T = typename P::T;
        static thread_local Key<P> key;
        static thread_local TRLWE<P> a;
        static thread_local TLWE<P> t;
        Bulk b(c.seed());
        uniform_fill(b, key.data(), key.size());
        for (auto &p : a) uniform_fill(b, p.data(), p.size());
        c.nontrivial();
        c.note("%s every index", pname<P>());
        auto ph = ref_phase<P>(a, key);
        for (uint32_t i = 0; i < P::n; i++) {
            SampleExtractIndex<P>(t, a, i);
            T got = ref_phase<P>(t, key);
            if (got != ph[i]) c.fail("extracting coefficient %u gives phase %#" PRIx64 ", the coefficient is %#" PRIx64, i, (uint64_t)got, (uint64_t)ph[i]);
        }
    };
    if (c.flip()) run(std::type_identity<lvl1param>{});
    else run(std::type_identity<lvl2param>{});
}
