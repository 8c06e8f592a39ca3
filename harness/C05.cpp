// C05: exact ring laws in Z_q[X]/(X^n+1). Oracle: index arithmetic / schoolbook.
#include "tf.hpp"
#include <nussbaumer.hpp>
using namespace tf;

template <class P>
uint64_t gen_exp(Case &c)
{
    switch (c.below(6)) {
    case 0: return c.below(3);
    case 1: return P::n - 1 + c.below(3);
    case 2: return 2 * P::n - c.below(3);
    case 3: return std::min<uint64_t>(2 * P::n, (1ULL << c.below(P::nbit + 2)) + c.range(-1, 1));
    default: return c.below(2 * P::n + 1);
    }
}
template <class P>
void xai(Case &c)
{
    Polynomial<P> p, r, q;
    std::string d = gen_poly(c, p);
    uint64_t a = gen_exp<P>(c), b = gen_exp<P>(c);
    c.note("%s a=%" PRIu64 " b=%" PRIu64 " p:%s", pname<P>(), a, b, d.c_str());
    c.label(pname<P>());
    if (a && d != "zero") c.nontrivial();
    r.fill((typename P::T)0x5a5a5a5a);
    auto p0 = p;
    PolynomialMulByXai<P>(r, p, a);
    auto e = mul_xa<P>(p, a);
    for (uint32_t i = 0; i < P::n; i++)
        if (r[i] != e[i]) c.fail("X^%" PRIu64 "*p: coefficient %u is %#" PRIx64 ", expected %#" PRIx64, a, i, (uint64_t)r[i], (uint64_t)e[i]);
    q.fill((typename P::T)0xa5a5a5a5);
    PolynomialMulByXaiMinusOne<P>(q, p, a);
    for (uint32_t i = 0; i < P::n; i++)
        if (q[i] != (typename P::T)(e[i] - p[i])) c.fail("(X^%" PRIu64 "-1)*p: coefficient %u is %#" PRIx64 ", expected %#" PRIx64, a, i, (uint64_t)q[i], (uint64_t)(typename P::T)(e[i] - p[i]));
    if (p != p0) c.fail("input modified");
    // group law: X^b (X^a p) = X^(a+b mod 2n) p
    PolynomialMulByXai<P>(q, r, b);
    PolynomialMulByXai<P>(r, p, (a + b) % (2 * P::n));
    if (q != r) c.fail("X^%" PRIu64 "*(X^%" PRIu64 "*p) != X^%" PRIu64 "*p", b, a, (a + b) % (2 * P::n));
}
PROPERTY_PURE(monomial, 60000, 3000000)
{
    switch (c.below(3)) {
    case 0: return xai<lvl1param>(c);
    case 1: return xai<lvl2param>(c);
    default: return xai<lvl3param>(c);
    }
}
template <class P>
void autom(Case &c)
{
    Polynomial<P> p, r, q, s;
    std::string dp = gen_poly(c, p);
    uint64_t d;
    switch (c.below(4)) {
    case 0: d = 2 * c.below(4) + 1; break;
    case 1: d = 2 * P::n - 1 - 2 * c.below(4); break;
    case 2: d = (1ULL << (1 + c.below(P::nbit))) + 1; break;  // the exponents of annihilation
    default: d = 2 * c.below(P::n) + 1;
    }
    uint64_t d2 = 2 * c.below(P::n) + 1;
    c.note("%s d=%" PRIu64 " d2=%" PRIu64 " p:%s", pname<P>(), d, d2, dp.c_str());
    c.label(pname<P>());
    if (d != 1 && dp != "zero") c.nontrivial();
    r.fill((typename P::T)0x77777777);
    Automorphism<P>(r, p, d);
    auto e = automorphism<P>(p, d);
    for (uint32_t i = 0; i < P::n; i++)
        if (r[i] != e[i]) c.fail("p(X^%" PRIu64 "): coefficient %u is %#" PRIx64 ", expected %#" PRIx64, d, i, (uint64_t)r[i], (uint64_t)e[i]);
    Automorphism<P>(q, r, d2);
    Automorphism<P>(s, p, (d * d2) % (2 * P::n));
    if (q != s) c.fail("automorphisms %" PRIu64 " and %" PRIu64 " do not compose", d, d2);
}
PROPERTY_PURE(automorphisms, 60000, 3000000)
{
    switch (c.below(3)) {
    case 0: return autom<lvl1param>(c);
    case 1: return autom<lvl2param>(c);
    default: return autom<lvl3param>(c);
    }
}

// Nussbaumer: transform, multiply pointwise-equivalent, invert. The innermost
// pairs are cyclic length-2 transforms, so the product law of the transform is
// checked through its linear structure: T^-1(T(a)) = n*a and T turns
// multiplication by X^k ... for all supported word types and sizes.
template <class T, uint Nbit>
void nuss(Case &c, const char *tn)
{
    constexpr size_t N = 1u << Nbit;
    std::array<T, N> a, b, s;
    std::string da = gen_poly(c, a), db = gen_poly(c, b);
    T k = c.word<T>();
    c.note("Nussbaumer %s Nbit=%u a:%s b:%s k=%#" PRIx64, tn, Nbit, da.c_str(), db.c_str(), (uint64_t)k);
    c.label(fmt("%s/%u", tn, Nbit));
    if (da != "zero") c.nontrivial();
    auto a0 = a;
    for (size_t i = 0; i < N; i++) s[i] = a[i] + k * b[i];
    Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{a});
    Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{b});
    Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{s});
    for (size_t i = 0; i < N; i++)
        if (s[i] != (T)(a[i] + k * b[i])) c.fail("the transform is not linear at output %zu", i);
    Nussbaumer::InverseNussbaumerTransform<T, Nbit>(std::span<T, N>{a});
    for (size_t i = 0; i < N; i++)
        if (a[i] != (T)(a0[i] * (T)N)) c.fail("inverse(transform(a)) coefficient %zu is %#" PRIx64 ", expected n*a = %#" PRIx64, i, (uint64_t)a[i], (uint64_t)(T)(a0[i] * (T)N));
}
PROPERTY_PURE(nussbaumer_transform, 30000, 1500000)
{
    switch (c.below(8)) {
    case 0: return nuss<uint64_t, 1>(c, "u64");
    case 1: return nuss<uint64_t, 2>(c, "u64");
    case 2: return nuss<uint32_t, 3>(c, "u32");
    case 3: return nuss<uint64_t, 5>(c, "u64");
    case 4: return nuss<uint64_t, 9>(c, "u64");
    case 5: return nuss<uint64_t, 11>(c, "u64");
    case 6: return nuss<uint32_t, 10>(c, "u32");
    default: return nuss<uint64_t, 10>(c, "u64");
    }
}
