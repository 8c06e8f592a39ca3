// C02: NTT over the 64-bit field. Oracle: schoolbook product mod p / mod 2^w.
#include "tf.hpp"
using namespace tf;
using cuHEpp::INTorus;
static constexpr uint64_t PP = 0xFFFFFFFF00000001ULL;
typedef unsigned __int128 u128;

template <uint32_t Nbit>
struct Tab {
    decltype(cuHEpp::TableGen<Nbit>()) table;
    decltype(cuHEpp::TwistGen<Nbit>()) twist;
    static Tab &get()
    {
        static Tab t;
        return t;
    }
    void init()
    {
        if (table) return;
        table = cuHEpp::TableGen<Nbit>();
        twist = cuHEpp::TwistGen<Nbit>();
    }
};
template <uint32_t B, uint32_t E>
void init_tabs()
{
    if constexpr (B <= E) {
        Tab<B>::get().init();
        init_tabs<B + 1, E>();
    }
}
FIXTURE(s) { init_tabs<8, 12>(); }

// The library's API transforms words of type T; uint32_t words enter unscaled,
// so a field element is fed as x = lo + 2^32 hi (linearity is part of the
// property) or, for the transform alone, directly through the public INTT/NTT.
template <uint32_t Nbit>
void field_case(Case &c)
{
    constexpr size_t N = 1u << Nbit;
    auto &t = Tab<Nbit>::get();
    std::array<uint64_t, N> a, b;
    std::string da = gen_poly(c, a), db = gen_poly(c, b);
    c.note("Nbit=%u a:%s b:%s", Nbit, da.c_str(), db.c_str());
    c.label(fmt("Nbit%u", Nbit));
    if (da != "zero") c.nontrivial();
    alignas(64) static thread_local std::array<INTorus, N> x, y, z;
    for (size_t i = 0; i < N; i++) {
        a[i] %= PP, b[i] %= PP;
        x[i] = INTorus(a[i], false) * (*t.twist)[1][i];
        y[i] = INTorus(b[i], false) * (*t.twist)[1][i];
    }
    cuHEpp::INTT<Nbit, 6>(x, (*t.table)[1]);
    cuHEpp::INTT<Nbit, 6>(y, (*t.table)[1]);
    const uint64_t ninv = cuHEpp::InvPow2(Nbit).value;
    for (size_t i = 0; i < N; i++) z[i] = x[i] * y[i];
    cuHEpp::NTT<Nbit, 6>(x, (*t.table)[0]);
    for (size_t i = 0; i < N; i++) {
        uint64_t r = (x[i] * (*t.twist)[0][i] * INTorus(ninv, false)).value;
        if (r != a[i]) c.fail("round trip: coefficient %zu is %#" PRIx64 ", was %#" PRIx64, i, r, a[i]);
    }
    cuHEpp::NTT<Nbit, 6>(z, (*t.table)[0]);
    // schoolbook on sampled coefficients (each needs a full sum)
    for (int s = 0; s < 24; s++) {
        size_t i = s == 0 ? 0 : s == 1 ? N - 1 : s == 2 ? 1 : s == 3 ? N / 2 : c.below(N);
        u128 pos = 0, neg = 0;
        for (size_t j = 0; j < N; j++) {
            u128 pr = (u128)a[j] * b[(i - j) & (N - 1)] % PP;
            (j <= i ? pos : neg) += pr;
        }
        uint64_t e = (uint64_t)((pos % PP + PP - neg % PP) % PP);
        uint64_t r = (z[i] * (*t.twist)[0][i] * INTorus(ninv, false)).value;
        if (r != e) c.fail("product coefficient %zu is %#" PRIx64 ", expected %#" PRIx64, i, r, e);
    }
}
PROPERTY_PURE(field_product, 8000, 300000)
{
    switch (c.below(6)) {
    case 0: return field_case<8>(c);
    case 1: return field_case<9>(c);
    case 2: return field_case<11>(c);
    case 3: return field_case<12>(c);
    default: return field_case<10>(c);
    }
}

// torus32 times small: exact mod 2^32 through the unscaled transforms. The
// exact integer product must lie in [0, p): PolyMullvl1 on unsigned words is
// exact mod p, i.e. for |sum| small; negative results wrap mod p.
template <uint32_t Nbit>
void u32_case(Case &c)
{
    constexpr size_t N = 1u << Nbit;
    auto &t = Tab<Nbit>::get();
    alignas(64) std::array<uint32_t, N> a, b, r;
    std::string da = gen_poly(c, a), db = gen_poly(c, b);
    c.note("Nbit=%u a:%s b:%s", Nbit, da.c_str(), db.c_str());
    c.label(fmt("Nbit%u", Nbit));
    if (da != "zero" && db != "zero") c.nontrivial();
    auto a0 = a, b0 = b;
    cuHEpp::PolyMullvl1<uint32_t, Nbit>(r, a, b, *t.table, *t.twist);
    if (a != a0 || b != b0) c.fail("an input of the multiplication was modified");
    for (int s = 0; s < 40; s++) {
        size_t i = s == 0 ? 0 : s == 1 ? N - 1 : c.below(N);
        __int128 acc = 0;
        for (size_t j = 0; j < N; j++) {
            __int128 pr = (__int128)((u128)a[j] * b[(i - j) & (N - 1)]);
            acc += j <= i ? pr : -pr;
        }
        __int128 m = acc % (__int128)PP;
        if (m < 0) m += PP;
        if (r[i] != (uint32_t)(uint64_t)m) c.fail("product coefficient %zu is %#x, expected %#x", i, r[i], (uint32_t)(uint64_t)m);
    }
    alignas(64) static thread_local std::array<INTorus, N> x;
    cuHEpp::TwistINTT<uint32_t, Nbit>(x, a, (*t.table)[1], (*t.twist)[1]);
    cuHEpp::TwistNTT<uint32_t, Nbit>(r, x, (*t.table)[0], (*t.twist)[0]);
    if (r != a) c.fail("u32 round trip is not the identity");
}
PROPERTY_PURE(u32_product, 12000, 400000)
{
    switch (c.below(4)) {
    case 0: return u32_case<8>(c);
    case 1: return u32_case<9>(c);
    case 2: return u32_case<11>(c);
    default: return u32_case<10>(c);
    }
}

// 64-bit torus words enter and leave rescaled between 2^64 and p: the transform
// pair is the identity up to that rounding, small integers enter exactly, and a
// product small*torus is exact up to half an ulp per unit of |small|_1.
PROPERTY_PURE(torus64, 5000, 200000)
{
    using P = lvl2param;
    alignas(64) Polynomial<P> a, b, r;
    alignas(64) static thread_local PolynomialNTT<P> x;
    std::string da = gen_small(c, a, 1 << c.below(14), -(1 << c.below(14))), db = gen_poly(c, b);
    c.note("a:%s b:%s", da.c_str(), db.c_str());
    if (da != "zero" && db != "zero") c.nontrivial();
    TwistINTT<P>(x, b);
    for (uint32_t i = 0; i < P::n; i++)
        if (x[i].value >= PP) c.fail("transform output %u is not reduced", i);
    TwistNTT<P>(r, x);
    for (uint32_t i = 0; i < P::n; i++) {
        int64_t d = (int64_t)(r[i] - b[i]);
        c.metric("roundtrip", std::llabs(d));
        if (d < -1 || d > 1) c.fail("torus64 round trip: coefficient %u is off by %" PRId64, i, d);
    }
    PolyMul<P>(r, a, b);
    Polynomial<P> e = negacyclic(b, a);
    double lim = 0.5 * norm1(a) + 2;
    for (uint32_t i = 0; i < P::n; i++) {
        double d = std::fabs((double)(int64_t)(r[i] - e[i]));
        c.metric("product/limit", d / lim);
        if (d > lim) c.fail("product coefficient %u is off by %.0f (limit %.0f)", i, d, lim);
    }
}
// The same entry points at level 1, on which the NTT external product rests.
PROPERTY_PURE(level1, 6000, 250000)
{
    using P = lvl1param;
    alignas(64) Polynomial<P> a, b, r;
    alignas(64) static thread_local PolynomialNTT<P> x, y;
    int B = 1 << c.below(10);
    std::string da = gen_small(c, a, B, 0), db = gen_poly(c, b);
    c.note("a:%s b:%s", da.c_str(), db.c_str());
    if (da != "zero" && db != "zero") c.nontrivial();
    TwistINTT<P>(x, a);
    TwistINTT<P>(y, b);
    for (uint32_t i = 0; i < P::n; i++) {
        if (x[i].value >= PP || y[i].value >= PP) c.fail("transform output %u is not reduced", i);
        x[i] *= y[i];
    }
    TwistNTT<P>(r, y);
    if (r != b) c.fail("round trip is not the identity");
    TwistNTT<P>(r, x);
    std::vector<__int128> acc(P::n, 0);
    for (uint32_t i = 0; i < P::n; i++)
        if (a[i])
            for (uint32_t j = 0; j < P::n; j++) {
                __int128 p = (__int128)a[i] * b[j];
                if (i + j < P::n) acc[i + j] += p;
                else acc[i + j - P::n] -= p;
            }
    for (uint32_t i = 0; i < P::n; i++) {
        __int128 m = acc[i] % (__int128)PP;
        if (m < 0) m += PP;
        if (r[i] != (uint32_t)(uint64_t)m) c.fail("product coefficient %u is %#x, expected %#x", i, r[i], (uint32_t)(uint64_t)m);
    }
}
PROPERTY_PURE(bitreverse, 2000, 100000)
{
    auto chk = [&](uint32_t bits, uint32_t v, uint32_t r) {
        uint32_t e = 0;
        for (uint32_t i = 0; i < bits; i++) e |= (v >> i & 1) << (bits - 1 - i);
        if (e != r) c.fail("BitReverse<%u>(%u) = %u, expected %u", bits, v, r, e);
    };
    uint32_t v = c.below(1 << 11);
    c.note("bit reversal of %u", v);
    if (v) c.nontrivial();
    chk(10, v & 1023, cuHEpp::BitReverse<10>(v & 1023));
    chk(11, v, cuHEpp::BitReverse<11>(v));
    chk(6, v & 63, cuHEpp::BitReverse<6>(v & 63));
    chk(5, v & 31, cuHEpp::BitReverse<5>(v & 31));
    chk(3, v & 7, cuHEpp::BitReverse<3>(v & 7));
    chk(10, v & 1023, raintt::BitReverse<10>(v & 1023));
    chk(3, v & 7, raintt::BitReverse<3>(v & 7));
}
