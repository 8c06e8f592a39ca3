// C03: Montgomery arithmetic and the RAINTT transform modulo raintt::P.
// Oracle: 128-bit integer arithmetic and schoolbook products.
#include "tf.hpp"
using namespace tf;
typedef __int128 i128;
static const int64_t Q = raintt::P;
static constexpr uint32_t RB = 3;

static int64_t mod(i128 x)
{
    i128 r = x % Q;
    return (int64_t)(r < 0 ? r + Q : r);
}
static int64_t powm(int64_t a, uint64_t e)
{
    int64_t r = 1;
    for (a = mod(a); e; e >>= 1, a = mod((i128)a * a)) if (e & 1) r = mod((i128)r * a);
    return r;
}
static int64_t Rinv()
{
    static int64_t v = powm(mod((i128)1 << 32), Q - 2);
    return v;
}
// integers of a signed range [lo, hi], biased to its ends, 0 and +-P
static int64_t pick(Case &c, int64_t lo, int64_t hi)
{
    int64_t v;
    switch (c.below(6)) {
    case 0: v = hi - (int64_t)c.below(4); break;
    case 1: v = lo + (int64_t)c.below(4); break;
    case 2: v = c.range(-3, 3); break;
    case 3: v = (c.flip() ? 1 : -1) * Q * (int64_t)c.below(4) + c.range(-2, 2); break;
    case 4: v = (c.flip() ? 1 : -1) * ((int64_t)1 << c.below(62)) + c.range(-2, 2); break;
    default: v = lo + (int64_t)c.below((uint64_t)(hi - lo) + 1);
    }
    return std::min(hi, std::max(lo, v));
}

PROPERTY_PURE(reductions, 1500000, 60000000)
{
    switch (c.below(5)) {
    case 0: {  // unsigned Montgomery reduction of T < P * 2^32
        uint64_t T = (uint64_t)pick(c, 0, (int64_t)((i128)Q * ((i128)1 << 32) - 1));
        if (c.chance(1, 8)) T = (uint64_t)c.below(Q) << 32;
        c.note("REDC(%" PRIu64 ")", T);
        c.label("REDC");
        if (T > (uint64_t)Q) c.nontrivial();
        uint64_t r = raintt::REDC(T);
        if (r > (uint64_t)Q || mod((i128)r) != mod((i128)mod(T) * Rinv())) c.fail("REDC(%" PRIu64 ") = %" PRIu64, T, r);
        break;
    }
    case 1: {  // signed reduction of |T| <= P * 2^31
        int64_t L = Q << 31;
        int64_t T = pick(c, -L, L - 1);
        c.note("SREDC(%" PRId64 ")", T);
        c.label("SREDC");
        if (T > Q || T < -Q) c.nontrivial();
        int64_t r = raintt::SREDC(T);
        if (r <= -Q || r >= Q || mod(r) != mod((i128)mod(T) * Rinv())) c.fail("SREDC(%" PRId64 ") = %" PRId64, T, r);
        break;
    }
    case 2: {  // products: residues below P times words, and signed lazily reduced ones
        int64_t a = pick(c, 0, Q - 1), b = pick(c, 0, UINT32_MAX);
        c.note("MulREDC(%" PRId64 ", %" PRId64 ")", a, b);
        c.label("MulREDC");
        if (a > 1 && b > 1) c.nontrivial();
        uint64_t r = raintt::MulREDC((uint32_t)a, (uint32_t)b);
        if (r > (uint64_t)Q || mod(r) != mod((i128)mod((i128)a * b) * Rinv())) c.fail("MulREDC(%" PRId64 ",%" PRId64 ") = %" PRIu64, a, b, r);
        int64_t sa = pick(c, -Q, Q), sb = pick(c, INT32_MIN, INT32_MAX);
        int64_t s = raintt::MulSREDC(sa, sb);
        if (s < -Q || s > Q || mod(s) != mod((i128)mod((i128)sa * sb) * Rinv())) c.fail("MulSREDC(%" PRId64 ",%" PRId64 ") = %" PRId64, sa, sb, s);
        break;
    }
    case 3: {  // modular add/sub of reduced (signed) residues: result is again reduced
        int64_t a = pick(c, -Q + 1, Q - 1), b = pick(c, -Q + 1, Q - 1);
        c.note("AddMod/SubMod(%" PRId64 ", %" PRId64 ")", a, b);
        c.label("AddMod");
        if (a && b) c.nontrivial();
        int64_t s = raintt::AddMod(a, b), d = raintt::SubMod(a, b);
        if (s <= -Q || s >= Q || mod(s) != mod((i128)a + b)) c.fail("AddMod(%" PRId64 ",%" PRId64 ") = %" PRId64, a, b, s);
        if (d <= -Q || d >= Q || mod(d) != mod((i128)a - b)) c.fail("SubMod(%" PRId64 ",%" PRId64 ") = %" PRId64, a, b, d);
        break;
    }
    default: {
        uint32_t a = pick(c, 0, Q - 1);
        uint e = c.chance(1, 20) ? c.below(5000) : c.below(100);
        c.note("PowREDC(%u, %u)", a, e);
        c.label("PowREDC");
        if (a > 1 && e > 1) c.nontrivial();
        uint64_t r = raintt::PowREDC(a, e);
        if (r > (uint64_t)Q || mod(r) != powm(a, e)) c.fail("PowREDC(%u,%u) = %" PRIu64, a, e, r);
    }
    }
}

template <uint Nbit>
struct Tab {
    decltype(raintt::TableGen<Nbit>()) table;
    decltype(raintt::TwistGen<Nbit, RB>()) twist;
    static Tab &get()
    {
        static Tab t;
        return t;
    }
    void init() { table = raintt::TableGen<Nbit>(), twist = raintt::TwistGen<Nbit, RB>(); }
};
FIXTURE(s)
{
    Tab<10>::get().init();
    Tab<TFHEpp::lvl1param::nbit>::get().init();
#ifndef C03_ONE_SIZE
    Tab<7>::get().init(), Tab<8>::get().init(), Tab<9>::get().init(), Tab<11>::get().init(), Tab<12>::get().init(), Tab<13>::get().init();
#endif
}

// polynomials of residues: signed, unsigned-looking words, boundary residues
template <size_t N>
static std::string gen_res(Case &c, std::array<uint32_t, N> &a)
{
    a = {};
    auto res = [&](Bulk &b) -> int64_t {
        switch (b.below(8)) {
        case 0: return Q - 1;
        case 1: return -Q + 1;
        case 2: return b.below(3);
        default: return (int64_t)b.below(2 * Q - 1) - (Q - 1);
        }
    };
    switch (c.below(7)) {
    case 0: return "zero";
    case 1: {
        int64_t v = pick(c, -Q + 1, Q - 1);
        a.fill((uint32_t)(int32_t)v);
        return fmt("const %" PRId64, v);
    }
    case 2: {
        int64_t v = pick(c, -Q + 1, Q - 1);
        size_t i = c.chance(1, 3) ? N - 1 : c.below(N);
        a[i] = (uint32_t)(int32_t)v;
        return fmt("monomial %" PRId64 "*X^%zu", v, i);
    }
    case 3: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : a) v = b.below(2) ? (uint32_t)(int32_t)(Q - 1) : (uint32_t)(int32_t)(-Q + 1);
        return fmt("extremes seed %" PRIu64, s);
    }
    case 4: {
        uint64_t s = c.seed();
        int64_t B = 1 + (1LL << c.below(29));
        Bulk b(s);
        for (auto &v : a) v = (uint32_t)(int32_t)((int64_t)b.below(2 * B + 1) - B);
        return fmt("|.|<=%" PRId64 " seed %" PRIu64, B, s);
    }
    default: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : a) v = (uint32_t)(int32_t)res(b);
        return fmt("residues seed %" PRIu64, s);
    }
    }
}
template <uint Nbit>
void transform_case(Case &c)
{
    constexpr size_t N = 1u << Nbit;
    auto &t = Tab<Nbit>::get();
    std::array<uint32_t, N> a, b, r;
    std::string da = gen_res(c, a), db = gen_res(c, b);
    c.note("Nbit=%u a:%s b:%s", Nbit, da.c_str(), db.c_str());
    c.label(fmt("Nbit%u", Nbit));
    if (da != "zero" && db != "zero") c.nontrivial();
    auto a0 = a, b0 = b;
    raintt::PolyMullvl1<uint32_t, Nbit, false, false>(r, a, b, *t.table, *t.twist);
    if (a != a0 || b != b0) c.fail("an input of the multiplication was modified");
    std::vector<int64_t> acc(N, 0);
    // exact negacyclic product modulo P
    for (int s = 0; s < 48; s++) {
        size_t i = s == 0 ? 0 : s == 1 ? N - 1 : s == 2 ? 1 : c.below(N);
        i128 e = 0;
        for (size_t j = 0; j < N; j++) {
            i128 p = (i128)(int64_t)(int32_t)a[j] * (int32_t)b[(i - j) & (N - 1)];
            e += j <= i ? p : -p;
        }
        if (r[i] >= (uint32_t)Q || (int64_t)r[i] != mod(e)) c.fail("product coefficient %zu is %u, expected %" PRId64, i, r[i], mod(e));
    }
    // forward then inverse is the identity, linear in the transformed domain
    constexpr uint8_t rem = ((Nbit - 1) % 3) + 1;
    std::array<raintt::DoubleSWord, N> x, y;
    raintt::TwistINTT<uint32_t, Nbit, false>(x, a, (*t.table)[1], (*t.twist)[1]);
    raintt::TwistINTT<uint32_t, Nbit, false>(y, b, (*t.table)[1], (*t.twist)[1]);
    bool sub = c.flip();
    for (size_t i = 0; i < N; i++) {
        if (std::llabs(x[i]) > INT32_MAX) c.fail("transform output %zu = %" PRId64 " does not fit a word", i, (int64_t)x[i]);
        int64_t u = x[i], v = y[i];
        if ((i & ((1 << rem) - 1)) > 1) u = raintt::MulSREDC(u, raintt::R2), v = raintt::MulSREDC(v, raintt::R2);
        x[i] = sub ? raintt::SubMod(u, v) : raintt::AddMod(u, v);
    }
    raintt::TwistNTT<uint32_t, Nbit, false>(r, x, (*t.table)[0], (*t.twist)[0]);
    for (size_t i = 0; i < N; i++) {
        int64_t e = mod((i128)(int32_t)a[i] + (sub ? -(i128)(int32_t)b[i] : (i128)(int32_t)b[i]));
        if ((int64_t)r[i] != e) c.fail("inverse(transform(a)%stransform(b)) coefficient %zu is %u, expected %" PRId64, sub ? "-" : "+", i, r[i], e);
    }
}
PROPERTY_PURE(transform, 15000, 500000)
{
#ifndef C03_ONE_SIZE
    switch (c.below(8)) {
    case 0: return transform_case<7>(c);
    case 1: return transform_case<8>(c);
    case 2: return transform_case<9>(c);
    case 3: return transform_case<11>(c);
    case 4: return transform_case<12>(c);
    case 5: return transform_case<13>(c);
    }
#endif
    transform_case<TFHEpp::lvl1param::nbit>(c);
}
// small times torus with modulus switching 2^32 -> P -> 2^32
PROPERTY_PURE(modswitch_product, 8000, 300000)
{
    using P = lvl1param;
    constexpr uint Nbit = P::nbit;
    auto &t = Tab<Nbit>::get();
    Polynomial<P> a, b, r;
    std::string da = gen_small(c, a, 1 << c.below(7), -(1 << c.below(7))), db = gen_poly(c, b);
    c.note("a:%s b:%s", da.c_str(), db.c_str());
    if (da != "zero" && db != "zero") c.nontrivial();
    raintt::PolyMullvl1<uint32_t, Nbit, false, true>(r, a, b, *t.table, *t.twist);
    Polynomial<P> e = negacyclic(b, a);
    double step = std::ldexp(1.0, 32) / Q, lim = 0.5 * step * norm1(a) + step + 2;
    for (uint32_t i = 0; i < P::n; i++) {
        double d = std::fabs((double)(int32_t)(r[i] - e[i]));
        c.metric("error/limit", d / lim);
        if (d > lim) c.fail("product coefficient %u is off by %.0f (limit %.1f)", i, d, lim);
    }
}
