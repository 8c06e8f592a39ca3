// C04: FFT polynomial products. Oracle: exact products; bound: the rounding
// error of double precision, eps * C * |a|_2 * |b|_2 (+1 for the final
// conversion to an integer word).
#include "tf.hpp"
using namespace tf;
static const double EPS = std::ldexp(1.0, -53);
// Structured operands reach about 7 (energy concentrated in few frequencies).
static const double C = 24;

template <class P>
double check_close(Case &c, const char *what, const Polynomial<P> &r, const Polynomial<P> &e, double lim)
{
    double w = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        double d = std::fabs((double)(S<typename P::T>)(r[i] - e[i]));
        w = std::max(w, d);
        if (!(d <= lim)) c.fail("%s: coefficient %u is %#" PRIx64 ", exact value %#" PRIx64 " (off by 2^%.1f, limit 2^%.1f)", what, i, (uint64_t)r[i], (uint64_t)e[i], std::log2(d), std::log2(lim));
    }
    c.metric(fmt("%s/%s", pname<P>(), what), w / lim);
    if (w > 1) c.metric(fmt("%s/%s(over1)", pname<P>(), what), w / lim);
    return w;
}
template <class P>
void roundtrip_case(Case &c)
{
    alignas(64) Polynomial<P> a, r;
    alignas(64) PolynomialInFD<P> f;
    std::string d = gen_poly(c, a);
    c.note("%s %s", pname<P>(), d.c_str());
    c.label(pname<P>());
    if (d != "zero") c.nontrivial();
    TwistIFFT<P>(f, a);
    TwistFFT<P>(r, f);
    check_close<P>(c, "roundtrip", r, a, 1 + C * EPS * std::sqrt(norm2sq(a)) * std::sqrt((double)P::n) / 8);
}
PROPERTY_PURE(roundtrip, 20000, 800000)
{
    if (c.flip()) roundtrip_case<lvl1param>(c);
    else roundtrip_case<lvl2param>(c);
}
template <class P>
void mul_case(Case &c)
{
    alignas(64) Polynomial<P> a, b, r;
    // small factor: up to gadget digits and beyond, as far as the conversion of
    // the result to 64-bit integers reaches
    int B = 1 << c.below(14);
    std::string da = gen_small(c, a, B, c.flip() ? -B : 0), db = gen_poly(c, b);
    c.note("%s a(<=%d):%s b:%s", pname<P>(), B, da.c_str(), db.c_str());
    c.label(pname<P>());
    if (da != "zero" && db != "zero") c.nontrivial();
    auto a0 = a, b0 = b;
    auto e = negacyclic(b, a);
    double lim = 1 + C * EPS * std::sqrt(norm2sq(a) * norm2sq(b));
    alignas(64) PolynomialInFD<P> fa, fb, fr;
    TwistIFFT<P>(fa, a);
    TwistIFFT<P>(fb, b);
    MulInFD<P::n>(fr, fa, fb);
    TwistFFT<P>(r, fr);
    check_close<P>(c, "MulInFD3", r, e, lim);
    MulInFD<P::n>(fa, fb);
    TwistFFT<P>(r, fa);
    check_close<P>(c, "MulInFD2", r, e, lim);
    if constexpr (sizeof(typename P::T) == 4) {
        PolyMul<P>(r, a, b);
        check_close<P>(c, "PolyMul", r, e, lim);
        PolyMul<P>(r, b, a);
        check_close<P>(c, "PolyMul(swapped)", r, e, lim);
        r = a;
        PolyMul<P>(r, r, b);
        check_close<P>(c, "PolyMul(in place)", r, e, lim);
    }
    if (a != a0 || b != b0) c.fail("input modified");
}
PROPERTY_PURE(product, 12000, 500000)
{
    if (c.flip()) mul_case<lvl1param>(c);
    else mul_case<lvl2param>(c);
}
// sum_i a_i*b_i accumulated in the frequency domain
template <class P>
void fma_case(Case &c)
{
    int terms = 1 + c.below(8);
    alignas(64) Polynomial<P> a, b, r, e{};
    alignas(64) PolynomialInFD<P> fa, fb, acc;
    double lim = 1;
    c.note("%s", pname<P>());
    c.label(fmt("%s/%d", pname<P>(), terms));
    if (terms > 1) c.nontrivial();
    for (int t = 0; t < terms; t++) {
        int B = 1 << c.below(10);
        std::string da = gen_small(c, a, B, -B), db = gen_poly(c, b);
        c.note(" + %s * %s", da.c_str(), db.c_str());
        negacyclic_acc(e, b, a);
        lim += C * EPS * std::sqrt(norm2sq(a) * norm2sq(b));
        TwistIFFT<P>(fa, a);
        TwistIFFT<P>(fb, b);
        if (t == 0) MulInFD<P::n>(acc, fa, fb);
        else FMAInFD<P::n>(acc, fa, fb);
    }
    TwistFFT<P>(r, acc);
    check_close<P>(c, "FMAInFD", r, e, lim);
}
PROPERTY_PURE(accumulate, 6000, 250000)
{
    if (c.flip()) fma_case<lvl1param>(c);
    else fma_case<lvl2param>(c);
}
// unsigned product rescaled by Delta, full-size operands on both sides
PROPERTY_PURE(rescale, 4000, 150000)
{
    using P = lvl1param;
    alignas(64) Polynomial<P> a, b, r;
    std::string da = gen_poly(c, a), db = gen_poly(c, b);
    c.note("a:%s b:%s", da.c_str(), db.c_str());
    if (da != "zero" && db != "zero") c.nontrivial();
    auto a0 = a, b0 = b;
    PolyMulRescaleUnsigned<P>(r, a, b);
    if (a != a0 || b != b0) c.fail("input modified");
    double na = 0, nb = 0;
    for (auto v : a) na += (double)v * v;
    for (auto v : b) nb += (double)v * v;
    double lim = 2 + C * EPS * std::sqrt(na * nb) / P::Δ;
    std::vector<__int128> acc(P::n, 0);
    for (uint32_t i = 0; i < P::n; i++)
        if (a[i])
            for (uint32_t j = 0; j < P::n; j++) {
                __int128 p = (__int128)((uint64_t)a[i] * b[j]);
                if (i + j < P::n) acc[i + j] += p;
                else acc[i + j - P::n] -= p;
            }
    Polynomial<P> e;
    for (uint32_t i = 0; i < P::n; i++) e[i] = (uint32_t)(int64_t)(acc[i] >> (int)std::log2(P::Δ));
    check_close<P>(c, "PolyMulRescaleUnsigned", r, e, lim);
    if (c.chance(1, 16)) {
        Polynomial<P> n;
        PolyMulNaieveRescaleUnsigned<P>(n, a, b);
        if (P::Δ == (double)(1 << 29) && n != e) c.fail("PolyMulNaieveRescaleUnsigned is not exact");
    }
}
template <class P>
void naive_case(Case &c)
{
    Polynomial<P> a, b, r;
    std::string da = gen_poly(c, a), db = gen_poly(c, b);
    c.note("%s a:%s b:%s", pname<P>(), da.c_str(), db.c_str());
    c.label(pname<P>());
    if (da != "zero" && db != "zero") c.nontrivial();
    PolyMulNaive<P>(r, a, b);
    auto e = negacyclic(b, a);
    for (uint32_t i = 0; i < P::n; i++)
        if (r[i] != e[i]) c.fail("PolyMulNaive coefficient %u is %#" PRIx64 ", expected %#" PRIx64, i, (uint64_t)r[i], (uint64_t)e[i]);
}
PROPERTY_PURE(naive, 600, 20000)
{
    if (c.flip()) naive_case<lvl1param>(c);
    else naive_case<lvl2param>(c);
}
#ifdef USE_TERNARY
PROPERTY_PURE(xai_minus_one_fd, 4000, 150000)
{
    using P = lvl1param;
    alignas(64) Polynomial<P> a, r;
    alignas(64) PolynomialInFD<P> f, g;
    std::string d = gen_poly(c, a);
    int k = (int)c.below(2 * P::n + 1) * (c.flip() ? -1 : 1);
    if (k == -(int)(2 * P::n)) k = 0;
    c.note("%s exponent %d", d.c_str(), k);
    if (k && d != "zero") c.nontrivial();
    TwistIFFT<P>(f, a);
    PolynomialMulByXaiMinusOneInFD<P>(g, f, k);
    TwistFFT<P>(r, g);
    auto e = mul_xa<P>(a, (k + 2 * P::n) % (2 * P::n));
    for (uint32_t i = 0; i < P::n; i++) e[i] -= a[i];
    check_close<P>(c, "X^a-1", r, e, 1 + C * EPS * std::sqrt(norm2sq(a)) * 2);
}
#endif
