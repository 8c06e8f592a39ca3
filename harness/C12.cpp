// C12: CMUX and CMUX trees. Oracle: plain arrays of phases; error bound per
// CMUX passed through.
#include <pthread.h>

#include <functional>

#include "bounds.hpp"
using namespace tf;

template <class P>
struct Ring {
    std::unique_ptr<SecretKey> sk = std::make_unique<SecretKey>();
    std::unique_ptr<Key<P>> key = std::make_unique<Key<P>>(sk->key.get<P>());
    double h = hw<P>(*key);
};
template <class P>
TRGSWFFT<P> bit_fft(bool b, const Key<P> &key)
{
    Polynomial<P> m{};
    m[0] = b;
    return trgswfftSymEncrypt<P>(m, key);
}
// bound of one CMUX given the selector
template <class P>
Bound cmux_bound(Backend be, double h, bool sel, bool typical)
{
    return extprod<P>(be, alpha<P>() + (sizeof(typename P::T) == 8 ? std::sqrt(h) * ulp<P>() : ulp<P>()), h, sel, sel, typical, false);
}
template <class P>
void check_phase(Case &c, const char *what, const TRLWE<P> &r, const Polynomial<P> &want, const Key<P> &key, const Bound &b)
{
    using T = typename P::T;
    auto ph = ref_phase<P>(r, key);
    double w = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        double e = std::fabs(dist<T>(ph[i], want[i]));
        w = std::max(w, e);
        if (!(e <= b.limit())) c.fail("%s: phase coefficient %u is off by 2^%.2f, limit 2^%.2f", what, i, std::log2(e), std::log2(b.limit()));
    }
    if (b.limit() > 0) c.metric(fmt("%s:max/limit", what), w / b.limit());
}
// a sample with a known phase; kind "trivial"/"words" is not uniform
template <class P>
std::string gen_sample(Case &c, TRLWE<P> &x, const Ring<P> &R, bool &typical)
{
    switch (c.below(5)) {
    case 0: {
        std::string d = "trivial ";
        x = {};
        typical = false;
        return d + gen_poly(c, x[P::k]);
    }
    case 1: {
        std::string d = "words";
        for (auto &p : x) d += " " + gen_poly(c, p);
        typical = false;
        return d;
    }
    case 2: {
        Polynomial<P> p;
        std::string d = "noiseless ";
        d += gen_poly(c, p);
        Bulk b(c.seed());
        x = make_trlwe<P>(b, p, *R.key);
        return d;
    }
    default: {
        Polynomial<P> p;
        std::string d = "enc ";
        d += gen_poly(c, p);
        x = trlweSymEncrypt<P>(p, *R.key);
        return d;
    }
    }
}

template <class P>
void cmux_case(Case &c)
{
    Ring<P> R;
    auto c1 = std::make_unique<TRLWE<P>>(), c0 = std::make_unique<TRLWE<P>>(), r = std::make_unique<TRLWE<P>>();
    bool typical = true, sel = c.flip();
    std::string d1 = gen_sample<P>(c, *c1, R, typical), d0 = gen_sample<P>(c, *c0, R, typical);
    int alias = c.below(3);
    c.note("%s CMUX(%d, %s, %s)%s", pname<P>(), sel, d1.c_str(), d0.c_str(), alias == 2 ? " into c1" : "");
    c.label(fmt("%s/sel%d%s", pname<P>(), sel, typical ? "" : "/adversarial"));
    c.nontrivial();
    auto s = std::make_unique<TRGSWFFT<P>>(bit_fft<P>(sel, *R.key)), s0 = std::make_unique<TRGSWFFT<P>>(*s);
    auto want = ref_phase<P>(sel ? *c1 : *c0, *R.key);
    auto k1 = std::make_unique<TRLWE<P>>(*c1), k0 = std::make_unique<TRLWE<P>>(*c0);
    CMUXFFT<P>(*r, *s, *c1, *c0);
    if (*c1 != *k1 || *c0 != *k0 || *s != *s0) c.fail("CMUX modified an input");
    check_phase<P>(c, typical ? "cmux" : "cmux/adv", *r, want, *R.key, cmux_bound<P>(FFT, R.h, sel, typical));
    if (alias == 2) {
        CMUXFFT<P>(*c1, *s, *c1, *c0);
        if (*c1 != *r) c.fail("CMUX into its first input differs");
        if (*c0 != *k0) c.fail("CMUX modified an input");
    }
    // equal inputs: nothing to select, no noise
    if (c.chance(1, 8)) {
        CMUXFFT<P>(*r, *s, *c0, *c0);
        double u = P::k * ulp<P>();
        check_phase<P>(c, "cmux-equal", *r, ref_phase<P>(*c0, *R.key), *R.key, Bound{u * u, 2 * R.h * u});
    }
}
#define RINGS(f) \
    if (c.flip()) f<lvl1param>(c); \
    else f<lvl2param>(c);
PROPERTY(cmux, 3000, 60000) { RINGS(cmux_case) }

uint32_t gen_exponent(Case &c, uint32_t n)
{
    switch (c.below(4)) {
    case 0: return c.below(3);
    case 1: return n - 1 + c.below(3);
    case 2: return 2 * n - c.below(3);
    default: return c.below(2 * n + 1);
    }
}
// acc <- X^(a*s) acc
template <class bkP>
void rotate_case(Case &c)
{
    using P = typename bkP::targetP;
    Ring<P> R;
    auto x = std::make_unique<TRLWE<P>>();
    bool typical = true;
    constexpr bool fft_only = bkP::domainP::key_value_diff != 1;
    constexpr bool rain = std::is_same_v<P, lvl1param> && sizeof(typename P::T) == 4;
    std::string d = gen_sample<P>(c, *x, R, typical);
    Backend be = fft_only ? FFT : (Backend)c.below(rain ? 3 : 2);
    int s = bkP::domainP::key_value_min + (int)c.below(bkP::domainP::key_value_max - bkP::domainP::key_value_min + 1);
    uint32_t a = gen_exponent(c, P::n);
    if (fft_only) a %= 2 * P::n;
    c.note("%s %s X^(%d*%u) times %s", pname<P>(), bname(be), s, a, d.c_str());
    c.label(fmt("%s/%s/sel%d%s", pname<P>(), bname(be), s, typical ? "" : "/adversarial"));
    c.nontrivial();
    auto want = mul_xa<P>(ref_phase<P>(*x, *R.key), (uint64_t)((int64_t)s * a + 4 * P::n) % (2 * P::n));
    Bound b;
    if (be == FFT) {
        auto bk = std::make_unique<BootstrappingKeyElementFFT<bkP>>();
        int cnt = 0;
        for (int v = bkP::domainP::key_value_min; v <= bkP::domainP::key_value_max; v++)
            if (v != 0) {
                (*bk)[cnt++] = bit_fft<P>(v == s, *R.key);
                b += cmux_bound<P>(be, R.h, v == s, typical);
            }
        auto bk0 = std::make_unique<BootstrappingKeyElementFFT<bkP>>(*bk);
        CMUXFFTwithPolynomialMulByXaiMinusOne<bkP>(*x, *bk, a);
        if (*bk != *bk0) c.fail("key modified");
    }
    else {
        b += cmux_bound<P>(be, R.h, s != 0, typical);
        Polynomial<P> m{};
        m[0] = s;
        if (be == NTT) {
            auto g = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(m, *R.key));
            CMUXNTTwithPolynomialMulByXaiMinusOne<P>(*x, *g, a);
        }
        else if constexpr (rain) {
            auto g = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(m, *R.key));
            CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>(*x, *g, a);
        }
    }
    check_phase<P>(c, fmt("rotate/%s/%s%s", pname<P>(), bname(be), typical ? "" : "/adv").c_str(), *x, want, *R.key, b);
}
PROPERTY(cmux_rotate, 3000, 60000)
{
    if (c.flip()) rotate_case<lvl01param>(c);
    else rotate_case<lvl02param>(c);
}

// ---- memories ---------------------------------------------------------------------
template <class P>
void content(Case &c, Polynomial<P> &p, std::string &d)
{
    if (c.flip()) {  // bits
        Bulk b(c.seed());
        for (auto &v : p) v = b.below(2) ? P::μ : -P::μ;
        d += " bits";
    }
    else d += " " + gen_poly(c, p);
}
// with the stack a program has by default
static void on_8mb(std::function<void()> f)
{
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8u << 20);
    pthread_t t;
    if (pthread_create(&t, &at, [](void *p) -> void * { (*(std::function<void()> *)p)(); return nullptr; }, &f)) abort();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
}
// RAM: random reads and writes against an array of phases
template <class P, uint32_t abit>
void ram_case(Case &c)
{
    constexpr uint32_t size = 1u << abit;
    Ring<P> R;
    using Mem = std::array<TRLWE<P>, size>;
    auto mem = std::make_unique<Mem>(), keep = std::make_unique<Mem>();
    std::vector<Polynomial<P>> model(size);
    std::vector<Bound> bound(size);
    std::string d;
    double a = alpha<P>() + std::sqrt(R.h) * ulp<P>();
    for (uint32_t i = 0; i < size; i++) {
        if (i < 4) content<P>(c, model[i], d);
        else {
            Bulk b(c.seed());
            for (auto &v : model[i]) v = (typename P::T)b.next();
        }
        (*mem)[i] = trlweSymEncrypt<P>(model[i], *R.key);
        bound[i].var = a * a;
    }
    using Addr = std::array<TRGSWFFT<P>, abit>;
    auto addr = std::make_unique<std::array<Addr, 2>>();
    auto r = std::make_unique<TRLWE<P>>();
    int nops = size > 16 ? 1 + c.below(3) : 1 + c.below(6);
    d += " ops:";
    c.label(fmt("%s/ram%u", pname<P>(), abit));
    c.nontrivial();
    for (int op = 0; op < nops; op++) {
        bool write = op + 1 < nops && c.flip();
        uint32_t at = c.below(size);
        d += fmt(" %s[%u]", write ? "write" : "read", at);
        c.note("%s RAM of %u:%s", pname<P>(), size, d.c_str());
        for (uint32_t i = 0; i < abit; i++) {
            bool b = at >> i & 1;
            (*addr)[1][i] = bit_fft<P>(b, *R.key);
            (*addr)[0][i] = bit_fft<P>(!b, *R.key);
        }
        if (write) {
            Polynomial<P> p;
            content<P>(c, p, d);
            auto w = std::make_unique<TRLWE<P>>(trlweSymEncrypt<P>(p, *R.key));
            auto w0 = std::make_unique<TRLWE<P>>(*w);
            // every word; of a large memory: the written one, its neighbours in
            // every address bit, and some others
            Bulk pick(c.seed());
            for (uint32_t i = 0; i < size; i++) {
                if (size > 16 && __builtin_popcount(i ^ at) > 1 && pick.below(size) >= 8) continue;
                auto e0 = (*mem)[i];
                RAMwriteBar<P, abit>(*r, *w, (*mem)[i], i, *addr);
                if (*w != *w0 || (*mem)[i] != e0) c.fail("RAM write modified an input");
                (*mem)[i] = *r;
                if (i == at) bound[i] = Bound{a * a, 0}, model[i] = p;
                for (uint32_t k = 0; k < abit; k++) bound[i] += cmux_bound<P>(FFT, R.h, true, true);
                check_phase<P>(c, i == at ? "write/at" : "write/other", (*mem)[i], model[i], *R.key, bound[i]);
            }
        }
        else {
            *keep = *mem;
            auto inv0 = std::make_unique<Addr>((*addr)[0]);
            on_8mb([&] { RAMUX<P, abit>(*r, (*addr)[0], *mem); });
            if (*keep != *mem || *inv0 != (*addr)[0]) c.fail("RAM read modified its input");
            Bound b = bound[at];
            for (uint32_t k = 0; k < abit; k++) b += cmux_bound<P>(FFT, R.h, true, true);
            check_phase<P>(c, fmt("read/%s", pname<P>()).c_str(), *r, model[at], *R.key, b);
        }
    }
}
PROPERTY(ram_history, 400, 8000)
{
    switch (c.below(11)) {
    case 0: return ram_case<lvl1param, 3>(c);
    case 1: return ram_case<lvl1param, 4>(c);
    case 2: return ram_case<lvl1param, 5>(c);
    case 3: return ram_case<lvl1param, 8>(c);
    case 4: return ram_case<lvl2param, 2>(c);
    case 5: return ram_case<lvl2param, 3>(c);
    case 6: return ram_case<lvl1param, 6>(c);
    case 7: return ram_case<lvl1param, 7>(c);
    case 8: return c.below(4) ? ram_case<lvl2param, 4>(c) : ram_case<lvl1param, 9>(c);
    case 9: return c.below(4) ? ram_case<lvl2param, 5>(c) : c.below(3) ? ram_case<lvl1param, 10>(c) : c.below(3) ? ram_case<lvl1param, 11>(c) : ram_case<lvl1param, 12>(c);
    default: return ram_case<lvl1param, 2>(c);
    }
}
// ROM: vertical and horizontal packing
template <class P, uint32_t abit, uint32_t wbit>
void rom_case(Case &c)
{
    if constexpr (wbit <= P::nbit) {
        using T = typename P::T;
        constexpr uint32_t size = 1u << (abit - wbit), wordbits = P::nbit - wbit;
        Ring<P> R;
        std::vector<Polynomial<P>> model(size);
        auto data = std::make_unique<std::array<TRLWE<P>, size>>();
        std::string d;
        for (uint32_t i = 0; i < size; i++) {
            if (i < 2) content<P>(c, model[i], d);
            else {
                Bulk b(c.seed());
                for (auto &v : model[i]) v = (T)b.next();
            }
            (*data)[i] = trlweSymEncrypt<P>(model[i], *R.key);
        }
        double a = alpha<P>() + std::sqrt(R.h) * ulp<P>();
        uint32_t at = c.below(1u << abit);
        c.note("%s ROM address bits %u, of these %u within a sample; read [%u]%s", pname<P>(), abit, wbit, at, d.c_str());
        c.label(fmt("%s/rom%u.%u", pname<P>(), abit, wbit));
        c.nontrivial();
        using Addr = std::array<TRGSWFFT<P>, abit>;
        auto addr = std::make_unique<Addr>(), inv = std::make_unique<Addr>();
        for (uint32_t i = 0; i < abit; i++) {
            bool b = at >> i & 1;
            (*addr)[i] = bit_fft<P>(i < wbit ? b : !b, *R.key);
        }
        *inv = *addr;
        auto data0 = std::make_unique<std::array<TRLWE<P>, size>>(*data);
        auto u = std::make_unique<TRLWE<P>>();
        on_8mb([&] { UROMUX<P, abit, wbit>(*u, *addr, *data); });
        if (*data0 != *data || *inv != *addr) c.fail("ROM read modified its input");
        Bound b{a * a, 0};
        for (uint32_t k = 0; k < abit - wbit; k++) b += cmux_bound<P>(FFT, R.h, true, true);
        check_phase<P>(c, "rom/upper", *u, model[at >> wbit], *R.key, b);
        std::vector<TLWE<P>> res(1u << wordbits);
        auto u0 = std::make_unique<TRLWE<P>>(*u);
        LROMUX<P, abit, wbit>(res, *addr, *u);
        if (*u0 != *u || *inv != *addr) c.fail("ROM lookup modified its input");
        for (uint32_t k = 0; k < wbit; k++) b += cmux_bound<P>(FFT, R.h, true, true);
        uint32_t lo = (at & ((1u << wbit) - 1)) << wordbits;
        double w = 0;
        for (uint32_t i = 0; i < res.size(); i++) {
            double e = std::fabs(dist<T>(ref_phase<P>(res[i], *R.key), model[at >> wbit][lo + i]));
            w = std::max(w, e);
            if (!(e <= b.limit())) c.fail("word element %u is off by 2^%.2f, limit 2^%.2f", i, std::log2(e), std::log2(b.limit()));
        }
        c.metric("rom/word:max/limit", w / b.limit());
    }
    else c.discard();
}
PROPERTY(rom, 400, 8000)
{
    switch (c.below(12)) {
    case 0: return rom_case<lvl1param, 8, 5>(c);
    case 1: return rom_case<lvl1param, 4, 2>(c);
    case 2: return rom_case<lvl1param, 7, 5>(c);
    case 3: return rom_case<lvl1param, lvl1param::nbit + 2, lvl1param::nbit>(c);
    case 4: return rom_case<lvl1param, 6, 1>(c);
    case 5: return rom_case<lvl2param, 5, 3>(c);
    case 6: return rom_case<lvl2param, lvl2param::nbit + 2, lvl2param::nbit>(c);
    case 7: return rom_case<lvl1param, lvl1param::nbit + 3, lvl1param::nbit - 1>(c);
    case 8: return rom_case<lvl1param, 9, 3>(c);
    case 9: return c.below(4) ? rom_case<lvl1param, 10, 1>(c) : c.below(2) ? rom_case<lvl1param, 12, 1>(c) : rom_case<lvl1param, 13, 2>(c);
    case 10: return rom_case<lvl2param, 7, 1>(c);
    default: return rom_case<lvl1param, 3, 1>(c);
    }
}
