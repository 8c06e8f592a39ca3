// C06: gadget decomposition. Oracle: exact recombination modulo 2^w.
#include "tf.hpp"
using namespace tf;

// values near the rounding/carry boundaries of the gadget
template <class P>
typename P::T boundary(Bulk &b)
{
    using T = typename P::T;
    const int w = W<T>;
    T v = 0;
    for (uint32_t i = 1; i <= P::l; i++) {
        T d;
        switch (b.below(6)) {
        case 0: d = P::Bg / 2; break;
        case 1: d = P::Bg / 2 - 1; break;
        case 2: d = P::Bg - 1; break;
        case 3: d = 0; break;
        case 4: d = P::Bg / 2 + 1; break;
        default: d = b.below(P::Bg);
        }
        v += d << (w - i * P::Bgbit);
    }
    const int rem = w - P::l * P::Bgbit;
    switch (b.below(6)) {
    case 0: break;
    case 1: v += (T)1 << (rem - 1); break;
    case 2: v += ((T)1 << (rem - 1)) - 1; break;
    case 3: v += ((T)1 << rem) - 1; break;
    case 4: v += ((T)1 << (rem - 1)) + 1; break;
    default: v += (T)b.next() & (((T)1 << rem) - 1);
    }
    return v;
}
template <class P>
void decomp(Case &c)
{
    using T = typename P::T;
    const int w = W<T>;
    alignas(64) Polynomial<P> p;
    std::string d;
    if (c.flip()) {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = boundary<P>(b);
        d = fmt("gadget boundaries seed %" PRIu64, s);
    }
    else
        d = gen_poly(c, p);
    T rb = c.chance(1, 3) ? c.word<T>() : 0;
    c.note("%s p:%s randbits=%#" PRIx64, pname<P>(), d.c_str(), (uint64_t)rb);
    c.label(pname<P>());
    if (d != "zero") c.nontrivial();
    auto p0 = p;
    alignas(64) static thread_local DecomposedPolynomial<P> dec;
    for (auto &x : dec) x.fill((T)0x13579bdf);
    if (rb) Decomposition<P>(dec, p, rb);
    else Decomposition<P>(dec, p);
    if (p != p0) c.fail("input modified");
    constexpr auto h = hgen<P>();
    const S<T> half = P::Bg / 2;
    const T lim = (T)1 << (w - P::l * P::Bgbit - 1);
    for (uint32_t i = 0; i < P::n; i++) {
        T sum = 0;
        for (uint32_t j = 0; j < P::l; j++) {
            S<T> g = (S<T>)dec[j][i];
            if (g < -half || g > half) c.fail("digit %u of %#" PRIx64 " is %" PRId64 ", outside +-%" PRId64, j, (uint64_t)p[i], (int64_t)g, (int64_t)half);
            sum += (T)g * ((T)1 << (w - (j + 1) * P::Bgbit));
        }
        T e = sum - p[i];
        T ae = (S<T>)e < 0 ? (T)-e : e;
        if (ae > lim) c.fail("digits of %#" PRIx64 " recombine to %#" PRIx64 ", off by more than %#" PRIx64, (uint64_t)p[i], (uint64_t)sum, (uint64_t)lim);
    }
    for (uint32_t j = 0; j < P::l; j++)
        if (h[j] != (T)1 << (w - (j + 1) * P::Bgbit)) c.fail("gadget element %u is %#" PRIx64, j, (uint64_t)h[j]);
}
PROPERTY_PURE(digits, 40000, 2000000)
{
    if (c.flip()) decomp<lvl1param>(c);
    else decomp<lvl2param>(c);
}
#ifndef C06_NO_TRANSFORMED
// The transformed decompositions are the transforms of the same digits.
// (32-bit words only: the moduli of the number transforms do not hold the
// negative digits of 64-bit words.)
template <class P>
static void transformed_case(Case &c)
{
    alignas(64) Polynomial<P> p;
    std::string d = gen_poly(c, p);
    c.note("p:%s", d.c_str());
    if (d != "zero") c.nontrivial();
    alignas(64) static thread_local DecomposedPolynomial<P> dec;
    alignas(64) static thread_local DecomposedPolynomialNTT<P> ntt;
    alignas(64) static thread_local DecomposedPolynomialRAINTT<P> rai;
    Decomposition<P>(dec, p);
    DecompositionNTT<P>(ntt, p);
    DecompositionRAINTT<P>(rai, p);
    constexpr uint8_t rem = ((P::nbit - 1) % 3) + 1;
    for (uint32_t j = 0; j < P::l; j++) {
        alignas(64) Polynomial<P> r;
        TwistNTT<P>(r, ntt[j]);
        if (r != dec[j]) c.fail("NTT digits %u do not transform back to the digits", j);
        for (uint32_t i = 0; i < P::n; i++)
            if ((i & ((1 << rem) - 1)) > 1) rai[j][i] = raintt::MulSREDC(rai[j][i], raintt::R2);
        raintt::TwistNTT<typename P::T, P::nbit, false>(r, rai[j], (*raintttable)[0], (*raintttwist)[0]);
        for (uint32_t i = 0; i < P::n; i++) {
            int64_t e = (int32_t)dec[j][i];
            if (e < 0) e += raintt::P;
            if (r[i] != (uint32_t)e) c.fail("RAINTT digit %u coefficient %u is %u, expected %" PRId64, j, i, r[i], e);
        }
    }
}
PROPERTY_PURE(transformed, 3000, 150000)
{
    if constexpr (std::is_same_v<lvl1param::T, uint32_t>)
        transformed_case<lvl1param>(c);
    else
        c.discard();
}
#endif
