// C20: levelled (BFV-style) arithmetic on integer-encoded TRLWE samples.
// Oracle: the exact negacyclic product over the integers, rounded, and the
// plaintext ring modulo the plaintext modulus.
#include "bounds.hpp"
#include "fix.hpp"
using namespace tf;
using P = lvl1param;
static_assert(std::is_same_v<P::T, uint32_t> && P::k == 1, "defined for 32-bit words and one key polynomial");
using Poly = Polynomial<P>;
using Wide = std::vector<__int128>;
constexpr uint32_t N = P::n;
const double DELTA = P::Δ;
constexpr uint32_t PM = P::plain_modulus;

static Key<P> key_of(const SecretKey &sk) { return sk.key.get<P>(); }
// acc += a * b, words taken as integers in [0, 2^32)
static void mul_acc(Wide &acc, const Poly &a, const Poly &b)
{
    std::vector<unsigned __int128> t(2 * N, 0);
    for (uint32_t i = 0; i < N; i++) {
        const uint64_t m = b[i];
        if (!m) continue;
        for (uint32_t j = 0; j < N; j++) t[i + j] += (unsigned __int128)(m * (uint64_t)a[j]);
    }
    for (uint32_t j = 0; j < N; j++) acc[j] += (__int128)t[j] - (__int128)t[j + N];
}
static Poly keysquare(const Key<P> &key)
{
    Poly s;
    for (uint32_t i = 0; i < N; i++) s[i] = key[i];
    return negacyclic(s, s);
}
static Poly phase3(const TRLWE3<P> &c, const Key<P> &key, const Poly &s2)
{
    Poly s, r = c[1];
    for (uint32_t i = 0; i < N; i++) s[i] = key[i];
    Poly t = negacyclic(c[0], s), u = negacyclic(c[2], s2);
    for (uint32_t i = 0; i < N; i++) r[i] += u[i] - t[i];
    return r;
}
// plaintext polynomials
static std::string gen_plain(Case &c, Poly &p)
{
    p = {};
    switch (c.below(7)) {
    case 0: return "zero";
    case 1: {
        uint32_t v = c.below(PM);
        p.fill(v);
        return fmt("all %u", v);
    }
    case 2: {
        uint32_t i = c.chance(1, 3) ? N - 1 : c.below(N), v = 1 + c.below(PM - 1);
        p[i] = v;
        return fmt("%u*X^%u", v, i);
    }
    case 3: {
        int k = 1 + c.below(5);
        for (int i = 0; i < k; i++) p[c.below(N)] = c.below(PM);
        return fmt("sparse %d", k);
    }
    case 4: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = b.below(2) ? PM - 1 : 0;
        return fmt("extremes seed %" PRIu64, s);
    }
    default: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = b.below(PM);
        return fmt("random seed %" PRIu64, s);
    }
    }
}
// A sample of plaintext p. var: its noise variance. uniform: uniform mask.
static std::string gen_sample(Case &c, TRLWE<P> &x, Poly &p, const Key<P> &key, double &var, bool &uniform)
{
    std::string d = gen_plain(c, p);
    Poly ph;
    for (uint32_t i = 0; i < N; i++) ph[i] = (P::T)(p[i] * (uint64_t)DELTA);
    var = 0, uniform = true;
    switch (c.below(6)) {
    case 0: x = {}; x[1] = ph; uniform = false; return "trivial " + d;
    case 1: {
        Bulk b(c.seed());
        x = make_trlwe<P>(b, ph, key);
        return "noiseless " + d;
    }
    case 2: {  // a sum
        int n = 2 + c.below(6);
        x = trlweSymIntEncrypt<P>(p, key);
        for (int i = 1; i < n; i++) {
            Poly q;
            d += " + " + gen_plain(c, q);
            auto y = trlweSymIntEncrypt<P>(q, key);
            for (int k = 0; k < 2; k++)
                for (uint32_t j = 0; j < N; j++) x[k][j] += y[k][j];
            for (uint32_t j = 0; j < N; j++) p[j] = (p[j] + q[j]) % PM;
        }
        var = n * alpha<P>() * alpha<P>();
        return d;
    }
    default:
        x = trlweSymIntEncrypt<P>(p, key);
        var = alpha<P>() * alpha<P>();
        return d;
    }
}
static Poly plain_mul(const Poly &a, const Poly &b)
{
    Poly r = negacyclic(a, b);
    for (auto &v : r) v %= PM;  // PM divides 2^32
    return r;
}
// variance and worst case of relinearisation with s2 = s^2
struct Relin {
    double typical, adversarial;
    double sigma;
};
static Relin relin_bound(const Poly &s2, double h)
{
    double a = alpha<P>(), delta = std::ldexp(1.0, -(int)(P::l * P::Bgbit) - 1), Bg = P::Bg;
    double rnd = fft_round<P>(P::l, std::sqrt((Bg * Bg + 2) / 12));
    double keyv = P::l * (double)N * (Bg * Bg + 2) / 12 * (a * a + ulp<P>() * ulp<P>());
    double keya = P::l * (double)N * Bg * Bg / 4 * (a * a + ulp<P>() * ulp<P>());
    Relin r;
    double n2 = norm2sq(s2);
    r.sigma = std::sqrt(keyv + n2 * delta * delta / 3 + (1 + h) * rnd * rnd);
    r.typical = 9.5 * r.sigma;
    r.adversarial = 9.5 * std::sqrt(keya) + norm1(s2) * delta + 4 * std::sqrt(1 + h) * rnd;
    return r;
}
static void check_relin(Case &c, const TRLWE<P> &r, const TRLWE3<P> &x, const Key<P> &key, const Poly &s2, bool typical)
{
    Relin b = relin_bound(s2, hw<P>(key));
    Poly ph = ref_phase<P>(r, key), want = phase3(x, key, s2);
    double lim = typical ? b.typical : b.adversarial;
    Err e;
    for (uint32_t i = 0; i < N; i++) {
        e.add(dist<P::T>(ph[i], want[i]));
        if (!(std::fabs(e.e.back()) <= lim)) c.fail("relinearised phase coefficient %u is off by 2^%.2f, limit 2^%.2f", i, std::log2(std::fabs(e.e.back())), std::log2(lim));
    }
    c.metric(typical ? "relinearisation:max/limit" : "relinearisation/adv:max/limit", e.max() / lim);
    if (typical) {
        // few effective degrees of freedom: the errors pass through s^2
        double rl = b.sigma * std::sqrt(1 + 9.5 * std::sqrt(12.0 / N));
        c.metric("relinearisation:rms/limit", e.sd() / rl);
        if (!(e.sd() <= rl)) c.fail("relinearisation noise 2^%.2f rms, limit 2^%.2f", std::log2(e.sd()), std::log2(rl));
    }
}
static Poly decrypt3(const TRLWE3<P> &c, const Key<P> &key, const Poly &s2)
{
    Poly ph = phase3(c, key, s2);
    for (auto &v : ph) v = (uint32_t)(((uint64_t)v + (uint64_t)(DELTA / 2)) / (uint64_t)DELTA) % PM;
    return ph;
}
static Poly as_poly(const Poly &p) { return p; }
template <class A>
static Poly as_poly(const A &p)
{
    Poly r;
    for (uint32_t i = 0; i < N; i++) r[i] = p[i];
    return r;
}
static void expect(Case &c, const char *what, const Poly &got, const Poly &want)
{
    for (uint32_t i = 0; i < N; i++)
        if (got[i] != want[i]) c.fail("%s: coefficient %u decrypts to %u, expected %u", what, i, got[i], want[i]);
}
static std::string gen_words(Case &c, TRLWE<P> &x)
{
    std::string d = "words";
    for (auto &p : x) d += " " + gen_poly(c, p);
    return d;
}
// largest distance of a coefficient of the product from the exact one, in units
static double product_error(const Poly &got, const Wide &exact)
{
    double w = 0;
    constexpr uint64_t D = (uint64_t)P::Δ;
    for (uint32_t i = 0; i < N; i++) {
        __int128 x = exact[i] / D, f = exact[i] - x * (__int128)D;
        double d = (double)(int32_t)(uint32_t)(got[i] - (uint32_t)(uint64_t)x) - (double)f / (double)D;
        w = std::max(w, std::fabs(d));
    }
    return w;
}
static void check_product(Case &c, const TRLWE3<P> &r, const TRLWE<P> &a, const TRLWE<P> &b)
{
    Wide e(N, 0);
    mul_acc(e, a[0], b[1]), mul_acc(e, a[1], b[0]);
    double w0 = product_error(r[0], e);
    Wide f(N, 0), g(N, 0);
    mul_acc(f, a[1], b[1]), mul_acc(g, a[0], b[0]);
    double w1 = product_error(r[1], f), w2 = product_error(r[2], g), w = std::max({w0, w1, w2});
    c.metric("product:error in units", w);
    if (!(w <= 1.5)) c.fail("the rescaled product is off by %.3g units in part %d", w, w == w0 ? 0 : w == w1 ? 1 : 2);
}
// the product without relinearisation, of any samples, with its parts exact
PROPERTY(product, 200, 6000)
{
    TRLWE<P> a, b;
    std::string da, db;
    SecretKey sk;
    Key<P> key = key_of(sk);
    Poly p, q;
    double v;
    bool u, same = c.chance(1, 8);
    da = c.flip() ? gen_words(c, a) : gen_sample(c, a, p, key, v, u);
    db = c.flip() ? gen_words(c, b) : gen_sample(c, b, q, key, v, u);
    if (same) b = a, db = "itself";
    c.note("%s times %s", da.c_str(), db.c_str());
    c.label(same ? "square" : "product");
    if (a != TRLWE<P>{} && b != TRLWE<P>{}) c.nontrivial();
    auto a0 = a, b0 = b;
    TRLWE3<P> r;
    for (auto &x : r) x.fill(0x5a5a5a5a);
    TRLWEMultWithoutRelinerization<P>(r, a, same ? a : b);
    if (a != a0 || b != b0) c.fail("operand modified");
    check_product(c, r, a, b);
}
PROPERTY(relinearisation, 200, 6000)
{
    SecretKey sk;
    Key<P> key = key_of(sk);
    Poly s2 = keysquare(key);
    auto rk = std::make_unique<relinKeyFFT<P>>(relinKeyFFTgen<P>(key));
    TRLWE3<P> x;
    bool u = false, all = true;
    std::string d;
    for (int i = 0; i < 3; i++) {
        d += " " + gen_poly(c, x[i], &u);
        if (i == 2) all = u;
    }
    c.note("relinearise%s", d.c_str());
    c.label(all ? "uniform" : "structured");
    if (x[2] != Poly{}) c.nontrivial();
    auto x0 = x;
    TRLWE<P> r;
    for (auto &y : r) y.fill(0x5a5a5a5a);
    Relinearization<P>(r, x, *rk);
    if (x != x0) c.fail("operand modified");
    check_relin(c, r, x, key, s2, all);
    if (x[2] == Poly{} && (r[0] != x[0] || r[1] != x[1])) {
        // nothing to relinearise: at most rounding
        for (int k = 0; k < 2; k++)
            for (uint32_t i = 0; i < N; i++)
                if (std::abs((int32_t)(r[k][i] - x[k][i])) > 1) c.fail("changed a sample without a quadratic part");
    }
}
PROPERTY(multiply, 200, 6000)
{
    SecretKey sk;
    Key<P> key = key_of(sk);
    Poly s2 = keysquare(key), p, q;
    auto rk = std::make_unique<relinKeyFFT<P>>(relinKeyFFTgen<P>(key));
    TRLWE<P> a, b, r;
    double va, vb;
    bool ua, ub;
    std::string da = gen_sample(c, a, p, key, va, ua), db = gen_sample(c, b, q, key, vb, ub);
    c.note("(%s) * (%s)", da.c_str(), db.c_str());
    if (p != Poly{} && q != Poly{}) c.nontrivial();
    c.label(ua && ub ? "encrypted" : "trivial");
    Poly want = plain_mul(p, q);
    // quotients of the unsigned words by the modulus: 8 standard deviations
    double h = hw<P>(key), k2 = h / 3 + 1, t = PM;
    double np = norm2sq(p), nq = norm2sq(q);
    double var = va * nq + vb * np + t * t * N * k2 * (va + vb);
    double bias = t * N * 0;  // a ternary key has no mean
    auto a0 = a, b0 = b;
    TRLWE3<P> x;
    TRLWEMultWithoutRelinerization<P>(x, a, b);
    Relin rb = relin_bound(s2, h);
    double rounding = 2 * (1 + h + norm1(s2)) * ulp<P>();
    double lim3 = 9.5 * 1.6 * std::sqrt(var) + bias + rounding, half = 0.5 / PM;
    c.metric("log2 product noise limit", std::log2(lim3));
    Poly ph = phase3(x, key, s2);
    if (lim3 < half)
        for (uint32_t i = 0; i < N; i++) {
            double e = real<P::T>((P::T)(ph[i] - (P::T)(want[i] * (uint64_t)DELTA)));
            c.metric("product noise/limit", std::fabs(e) / lim3);
            if (!(std::fabs(e) <= lim3)) c.fail("product phase coefficient %u is off by 2^%.2f, limit 2^%.2f", i, std::log2(std::fabs(e)), std::log2(lim3));
        }
    if (lim3 < half) expect(c, "product", decrypt3(x, key, s2), want);
    // with relinearisation, also in place
    int alias = c.below(3);
    if (alias == 1) r = a, TRLWEMult<P>(r, r, b, *rk);
    else if (alias == 2) r = b, TRLWEMult<P>(r, a, r, *rk);
    else TRLWEMult<P>(r, a, b, *rk);
    if (a != a0 || b != b0) c.fail("operand modified");
    bool typical = ua && ub;
    check_relin(c, r, x, key, s2, typical);
    double lim = lim3 + (typical ? rb.typical : rb.adversarial);
    c.metric("log2 relinearised limit", std::log2(lim));
    if (lim < half) expect(c, "relinearised product", as_poly(trlweSymIntDecrypt<P>(r, key)), want);
    else c.label("margin exceeded");
}
// sums, differences and small multiples, then one product
PROPERTY(linear_history, 200, 6000)
{
    SecretKey sk;
    Key<P> key = key_of(sk);
    struct V {
        TRLWE<P> x;
        Poly p;
        double var;
    };
    std::vector<V> w;
    int n = 1 + c.below(4), ops = c.below(12);
    std::string d;
    for (int i = 0; i < n; i++) {
        w.push_back({});
        d += (i ? ", " : "") + gen_plain(c, w.back().p);
        w.back().x = trlweSymIntEncrypt<P>(w.back().p, key);
        w.back().var = alpha<P>();
    }
    for (int i = 0; i < ops; i++) {
        size_t a = c.below(w.size()), b = c.below(w.size());
        V v = w[a];
        int op = c.below(5);
        uint32_t m = op == 2 ? c.below(PM) : op == 3 ? c.below(2 * N) : 0;
        d += fmt("; %s(%zu,%zu,%u)", (const char *[]){"add", "sub", "scale", "shift", "neg"}[op], a, b, m);
        if (op == 3) {
            for (auto &y : v.x) y = mul_xa<P>(y, m);
            v.p = mul_xa<P>(v.p, m);
            for (auto &y : v.p) y %= PM;
        }
        else
            for (int k = 0; k < 3; k++)
                for (uint32_t j = 0; j < N; j++) {
                    uint32_t &l = k < 2 ? v.x[k][j] : v.p[j];
                    uint32_t r = k < 2 ? w[b].x[k][j] : w[b].p[j];
                    if (op == 0) l += r;
                    if (op == 1) l -= r;
                    if (op == 2) l *= m;
                    if (op == 4) l = 0 - l;
                    if (k == 2) l %= PM;
                }
        // amplitudes add (dependent samples)
        v.var = op < 2 ? v.var + w[b].var : op == 2 ? v.var * m : v.var;
        w.push_back(v);
    }
    c.note("%s", d.c_str());
    c.label(fmt("%d operations", ops / 4 * 4));
    if (ops) c.nontrivial();
    for (size_t i = 0; i < w.size(); i++) {
        if (9.5 * w[i].var >= 0.5 / PM) continue;
        Poly r = as_poly(trlweSymIntDecrypt<P>(w[i].x, key));
        expect(c, fmt("value %zu", i).c_str(), r, w[i].p);
    }
}
// the same on TLWE samples, through a private key switch
static SecretKey *SK;
static Big<PrivateKeySwitchingKey<lvl11param>> PK;
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    build_parallel(seed, {[] {
                       PK = big<PrivateKeySwitchingKey<lvl11param>>();
                       Poly one{};
                       one[0] = 1;
                       privkskgen<lvl11param>(*PK, one, *SK);
                   }});
}
PROPERTY(tlwe_product, 100, 3000)
{
    static const Key<P> key = key_of(*SK);
    static const Poly s2 = keysquare(key);
    auto rk = std::make_unique<relinKeyFFT<P>>(relinKeyFFTgen<P>(key));
    uint32_t p = c.below(PM), q = c.below(PM);
    TLWE<P> a = tlweSymIntEncrypt<P>(p, key), b = tlweSymIntEncrypt<P>(q, key), r;
    bool trivial = c.chance(1, 4);
    if (trivial) a = {}, a[N] = (P::T)(p * (uint64_t)DELTA);
    c.note("TLWE %u%s * %u", p, trivial ? " (trivial)" : "", q);
    c.label(trivial ? "TLWE, one trivial" : "TLWE");
    if (p && q) c.nontrivial();
    auto a0 = a, b0 = b;
    TLWEMult<lvl11param>(r, a, b, *rk, *PK);
    if (a != a0 || b != b0) c.fail("operand modified");
    // the switched operands and their exact product
    TRLWE<P> x, y;
    PrivKeySwitch<lvl11param>(x, a, *PK);
    PrivKeySwitch<lvl11param>(y, b, *PK);
    Wide e(N, 0), f(N, 0), g(N, 0);
    mul_acc(e, x[0], y[1]), mul_acc(e, x[1], y[0]), mul_acc(f, x[1], y[1]), mul_acc(g, x[0], y[0]);
    TRLWE3<P> z;
    for (uint32_t i = 0; i < N; i++) {
        auto rs = [](__int128 v) { return (uint32_t)(uint64_t)(v / (__int128)(uint64_t)P::Δ); };
        z[0][i] = rs(e[i]), z[1][i] = rs(f[i]), z[2][i] = rs(g[i]);
    }
    double want = real<P::T>(phase3(z, key, s2)[0]), got = real<P::T>(ref_phase<P>(r, key));
    double lim = relin_bound(s2, hw<P>(key)).typical + 2 * (1 + hw<P>(key) + norm1(s2)) * ulp<P>(), d = got - want;
    d -= std::round(d);
    c.metric("TLWE product:err/limit", std::fabs(d) / lim);
    if (!(std::fabs(d) <= lim)) c.fail("product phase is off by 2^%.2f, limit 2^%.2f", std::log2(std::fabs(d)), std::log2(lim));
    // against the plaintexts: the switching noise enters multiplied by the quotients
    double sw = lvl11param::t * (double)(N + 1) * alpha<P>() * alpha<P>() + (1 + hw<P>(key)) * std::pow(2, -2.0 * (lvl11param::t * lvl11param::basebit + 1)) / 3;
    double t = PM, var = 2 * sw * (t * t * N * (hw<P>(key) / 3.0 + 1) + t * t), lp = 9.5 * 1.6 * std::sqrt(var) + lim;
    if (lp < 0.5) {
        double m = got - (double)((p * q) % PM) / PM;
        m -= std::round(m);
        c.metric("TLWE product:message err/limit", std::fabs(m) / lp);
        if (!(std::fabs(m) <= lp)) c.fail("product phase is off by 2^%.2f from the message, limit 2^%.2f", std::log2(std::fabs(m)), std::log2(lp));
    }
}
