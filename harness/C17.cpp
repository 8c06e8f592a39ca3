// C17: homomorphic gates. Oracle: Boolean evaluation, and the distance of every
// output phase from +-mu within the noise bound of one bootstrap.
#include "boot.hpp"
using namespace tf;

static SecretKey *SK;
static EvalKey *EK;
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    EK = new EvalKey(*SK);
    build_parallel(seed, {[] { EK->emplacebkfft<lvl02param>(*SK); }, [] { EK->emplaceiksk<lvl20param>(*SK); }, [] { EK->emplacebkfft<lvlh1param>(*SK); },
                          [] { EK->emplacebkfft<lvl01param>(*SK); }, [] { EK->emplaceiksk<lvl1hparam>(*SK); }, [] { EK->emplaceiksk<lvl10param>(*SK); }});
}
static const char *GATES[] = {"NAND", "NOR", "XNOR", "AND", "OR", "XOR", "ANDNY", "ANDYN", "ORNY", "ORYN"};
static bool eval(int g, bool a, bool b)
{
    switch (g) {
    case 0: return !(a && b);
    case 1: return !(a || b);
    case 2: return a == b;
    case 3: return a && b;
    case 4: return a || b;
    case 5: return a != b;
    case 6: return !a && b;
    case 7: return a && !b;
    case 8: return !a || b;
    default: return a || !b;
    }
}
#define DISPATCH(...) \
    switch (g) { \
    case 0: HomNAND __VA_ARGS__(r, a, b, *EK); break; \
    case 1: HomNOR __VA_ARGS__(r, a, b, *EK); break; \
    case 2: HomXNOR __VA_ARGS__(r, a, b, *EK); break; \
    case 3: HomAND __VA_ARGS__(r, a, b, *EK); break; \
    case 4: HomOR __VA_ARGS__(r, a, b, *EK); break; \
    case 5: HomXOR __VA_ARGS__(r, a, b, *EK); break; \
    case 6: HomANDNY __VA_ARGS__(r, a, b, *EK); break; \
    case 7: HomANDYN __VA_ARGS__(r, a, b, *EK); break; \
    case 8: HomORNY __VA_ARGS__(r, a, b, *EK); break; \
    default: HomORYN __VA_ARGS__(r, a, b, *EK); \
    }
// switch to the small key, then bootstrap: wires at the large level
template <class iksP, class brP, bool defaults = false>
struct SwitchFirst {
    using L = typename iksP::domainP;
    using BR = brP;
    static std::string name() { return fmt("%s->%s->%s", pname<L>(), pname<typename brP::domainP>(), pname<typename brP::targetP>()); }
    static void gate(int g, TLWE<L> &r, const TLWE<L> &a, const TLWE<L> &b)
    {
        if constexpr (defaults) { DISPATCH() }
        else { DISPATCH(<iksP, brP, brP::targetP::μ>) }
    }
    static Bound out() { return boot_noise<brP>(FFT, SK->key.get<typename brP::domainP>(), SK->key.get<L>()); }
    static double guard() { return 9.5 * ks_noise<iksP>(SK->key.get<L>()).sigma() + drift<brP>(SK->key.get<typename brP::domainP>()) / (2 * L::n); }
    static double tight() { return tight_guard<brP>(SK->key.get<typename brP::domainP>(), ks_noise<iksP>(SK->key.get<L>()).sigma()); }
};
// bootstrap, then switch back: wires at the small level
template <class brP, class iksP, bool defaults = false>
struct BootFirst {
    using L = typename brP::domainP;
    using BR = brP;
    static std::string name() { return fmt("%s->%s->%s", pname<L>(), pname<typename brP::targetP>(), pname<typename iksP::targetP>()); }
    static void gate(int g, TLWE<L> &r, const TLWE<L> &a, const TLWE<L> &b)
    {
        if constexpr (defaults) { DISPATCH() }
        else { DISPATCH(<brP, brP::targetP::μ, iksP>) }
    }
    static Bound out()
    {
        Bound b = boot_noise<brP>(FFT, SK->key.get<L>(), SK->key.get<typename brP::targetP>());
        b += ks_noise<iksP>(SK->key.get<typename brP::targetP>());
        return b;
    }
    static double guard() { return drift<brP>(SK->key.get<L>()) / (2 * brP::targetP::n) + ulp<L>(); }
    static double tight() { return tight_guard<brP>(SK->key.get<L>(), 0); }
};
using A1 = SwitchFirst<lvl10param, lvl01param>;
using A1d = SwitchFirst<lvl10param, lvl01param, true>;
using A2 = SwitchFirst<lvl20param, lvl02param>;
using Ah = SwitchFirst<lvl1hparam, lvlh1param>;
using B1 = BootFirst<lvl01param, lvl10param>;
using B1d = BootFirst<lvl01param, lvl10param, true>;
using B2 = BootFirst<lvl02param, lvl20param>;
using Bh = BootFirst<lvlh1param, lvl1hparam>;
template <template <class> class F>
void dispatch(Case &c)
{
    // a level whose mu is unsigned cannot be a gate's wire level
    auto if_signed = [&](auto cfg) {
        using C = decltype(cfg);
        if constexpr (std::is_signed_v<decltype(C::L::μ)>) F<C>::run(c);
        else F<A1>::run(c);
    };
    switch (c.below(16)) {
    case 0: return if_signed(A2{});
    case 1: return if_signed(B2{});
    case 2: return if_signed(Ah{});
    case 3: return if_signed(Bh{});
    case 4: case 5: case 6: case 7: return F<A1>::run(c);
    case 8: case 9: case 10: case 11: return F<B1>::run(c);
    case 12: case 13: return F<A1d>::run(c);
    default: return F<B1d>::run(c);
    }
}
template <class L>
double target(bool v) { return v ? real<typename L::T>(L::μ) : -real<typename L::T>(L::μ); }
template <class L>
const Key<L> &lkey()
{
    static const Key<L> k = SK->key.get<L>();
    return k;
}
template <class L>
double err(const TLWE<L> &x, bool v)
{
    double e = real<typename L::T>(ref_phase<L>(x, lkey<L>())) - target<L>(v);
    return e - std::round(e);
}
// an input wire: error at most `margin`
template <class L>
std::string gen_wire(Case &c, TLWE<L> &x, bool v, double margin)
{
    using T = typename L::T;
    T mu = v ? L::μ : (T)(0 - L::μ);
    Bulk b(c.seed());
    switch (c.below(5)) {
    case 0: x = {}; x[L::k * L::n] = mu; return fmt("trivial %d", v);
    case 1: x = make_tlwe<L>(b, mu, lkey<L>()); return fmt("noiseless %d", v);
    case 2: {
        double e = margin * (c.flip() ? 1 : -1) * (c.flip() ? 1 : c.below(1000) / 1000.0);
        x = make_tlwe<L>(b, (T)(mu + (T)(int64_t)std::llround(std::ldexp(e, W<T>))), lkey<L>());
        return fmt("%d%+.4f", v, e);
    }
    case 3: x = bootsSymEncrypt<L>({(uint8_t)v}, lkey<L>())[0]; return fmt("fresh %d", v);
    default: x = tlweSymEncrypt<L>(mu, lkey<L>()); return fmt("fresh %d", v);
    }
}
template <class C>
struct Single {
    using L = typename C::L;
    static void run(Case &c)
    {
        int g = c.below(10);
        bool va = c.flip(), vb = c.flip(), want = eval(g, va, vb);
        // both operands may be off by so much: the sum (doubled for XOR, whose
        // margin is twice as large) stays on the right side
        double margin = g == 2 || g == 5 ? (0.25 - C::guard()) / 4 : (0.125 - C::guard()) / 2;
        if (margin < 0) margin = 0;
        TLWE<L> a, b, r;
        std::string da = gen_wire<L>(c, a, va, margin), db = gen_wire<L>(c, b, vb, margin);
        bool same = c.chance(1, 8);
        if (same) b = a, db = da, vb = va, want = eval(g, va, va);
        int alias = c.below(4);
        c.note("%s %s(%s, %s)%s", C::name().c_str(), GATES[g], da.c_str(), db.c_str(), alias == 1 ? " in place of the first" : alias == 2 ? " in place of the second" : "");
        c.label(fmt("%s %s", C::name().c_str(), GATES[g]));
        c.nontrivial();
        for (auto &v : r) v = 0x5a5a;
        auto a0 = a, b0 = b;
        if (alias == 1) C::gate(g, a, a, same ? a : b), r = a;
        else if (alias == 2) C::gate(g, b, a, b), r = b;
        else C::gate(g, r, a, same ? a : b);
        if ((alias != 1 && a != a0) || (alias != 2 && b != b0)) c.fail("input modified");
        Bound o = C::out();
        double e = err<L>(r, want), lim = o.limit();
        c.metric(C::name() + ":err/limit", std::fabs(e) / lim);
        if (!(std::fabs(e) <= lim)) c.fail("output phase is off by %.5f from the encoding of %d, limit %.5f", e, want, lim);
        if (tlweSymDecrypt<L>(r, lkey<L>()) != want) c.fail("decrypts to %d", !want);
    }
};
PROPERTY(gates, 1200, 30000) { dispatch<Single>(c); }

// Where exactly a gate decides: operands whose errors use up the margin, down
// to 4.5 standard deviations of the gate's own randomness.
template <class C>
struct Threshold {
    using L = typename C::L;
    using T = typename L::T;
    static void run(Case &c)
    {
        const int g = c.below(10);
        const bool va = c.flip(), vb = c.flip(), want = eval(g, va, vb);
        const bool dbl = g == 2 || g == 5;
        double m = dbl ? (0.25 - C::tight()) / 2 : 0.125 - C::tight(), part = c.below(5) / 4.0;
        if (m < 0) m = 0;
        const double ea = (c.flip() ? 1 : -1) * m * part, eb = (c.flip() ? 1 : -1) * m * (1 - part);
        c.note("%s %s(%d%+.4f, %d%+.4f)", C::name().c_str(), GATES[g], va, ea, vb, eb);
        c.label(fmt("%s %s", C::name().c_str(), GATES[g]));
        c.nontrivial();
        Bulk b(c.seed());
        const Bound o = C::out();
        double last = 0;
        int w = confirmed_wrong([&] {
            auto wire = [&](bool v, double e) { return make_tlwe<L>(b, (T)((v ? L::μ : (T)(0 - L::μ)) + (T)(int64_t)std::llround(std::ldexp(e, W<T>))), lkey<L>()); };
            TLWE<L> x = wire(va, ea), y = wire(vb, eb), r;
            C::gate(g, r, x, y);
            const double e = err<L>(r, want);
            if (std::fabs(e) <= o.limit()) return true;
            last = e;
            return false;
        });
        if (w) c.fail("%d of 7 evaluations are wrong although every phase is 4.5 standard deviations inside the gate's margin (last one off by %.4f)", w + 1, last);
    }
};
PROPERTY(thresholds, 600, 15000) { dispatch<Threshold>(c); }

// random circuits over a pool of wires
template <class C>
struct Circuit {
    using L = typename C::L;
    static void run(Case &c)
    {
        struct Wire {
            TLWE<L> x;
            bool v;
        };
        std::vector<Wire> w;
        std::string d;
        bool big = L::n * L::k > 1024 || std::is_same_v<typename C::BR::targetP, lvl2param>;
        int inputs = 1 + c.below(6), gates = 1 + c.below(big ? 16 : 48);
        if (c.thorough) gates *= 4;
        for (int i = 0; i < inputs; i++) {
            bool v = c.flip();
            w.push_back({});
            d += " " + gen_wire<L>(c, w.back().x, v, 0);
            w.back().v = v;
        }
        c.label(fmt("circuit %s", C::name().c_str()));
        if (gates > 1) c.nontrivial();
        Bound o = C::out();
        Err e;
        for (int i = 0; i < gates; i++) {
            size_t a = c.chance(1, 2) ? w.size() - 1 : c.below(w.size()), b = c.below(w.size());
            bool inplace = c.chance(1, 4);
            int g = c.below(14);
            Wire n{};
            Wire *r = inplace ? &w[c.flip() ? a : b] : &n;
            bool va = w[a].v, vb = w[b].v, want;
            auto pa = ref_phase<L>(w[a].x, lkey<L>());
            auto xa = w[a].x, xb = w[b].x;
            bool keep_a = r != &w[a], keep_b = r != &w[b];
            if (g < 10) {
                d += fmt("; %s(%zu,%zu)", GATES[g], a, b);
                C::gate(g, r->x, w[a].x, w[b].x);
                want = eval(g, va, vb);
                e.add(err<L>(r->x, want));
                c.metric("circuit " + C::name() + ":err/limit", std::fabs(e.e.back()) / o.limit());
                if (!(std::fabs(e.e.back()) <= o.limit())) {
                    c.note("%s:%s", C::name().c_str(), d.c_str());
                    c.fail("gate %d: output phase is off by %.5f from the encoding of %d, limit %.5f", i, e.e.back(), want, o.limit());
                }
            }
            else {
                typename L::T expect;
                if (g == 10) d += fmt("; NOT(%zu)", a), HomNOT<L>(r->x, w[a].x), want = !va, expect = 0 - pa;
                else if (g == 11) d += fmt("; COPY(%zu)", a), HomCOPY<L>(r->x, w[a].x), want = va, expect = pa;
                else if (g == 12) d += "; ONE", HomCONSTANTONE<L>(r->x), want = true, expect = L::μ;
                else d += "; ZERO", HomCONSTANTZERO<L>(r->x), want = false, expect = 0 - L::μ;
                c.note("%s:%s", C::name().c_str(), d.c_str());
                if (ref_phase<L>(r->x, lkey<L>()) != expect) c.fail("gate %d: phase %#" PRIx64 ", expected %#" PRIx64, i, (uint64_t)ref_phase<L>(r->x, lkey<L>()), (uint64_t)expect);
            }
            if ((keep_a && w[a].x != xa) || (keep_b && w[b].x != xb)) {
                c.note("%s:%s", C::name().c_str(), d.c_str());
                c.fail("gate %d modified an operand", i);
            }
            r->v = want;
            if (!inplace) w.push_back(n);
        }
        c.note("%s:%s", C::name().c_str(), d.c_str());
        std::vector<TLWE<L>> all;
        for (auto &x : w) all.push_back(x.x);
        auto dec = bootsSymDecrypt<L>(all, lkey<L>());
        for (size_t i = 0; i < w.size(); i++)
            if (dec[i] != w[i].v) c.fail("wire %zu decrypts to %d", i, dec[i]);
        if (e.e.size() >= 24) {
            double lim = o.sigma() * std::sqrt(1 + 9.5 * std::sqrt(2.0 / e.e.size())) + o.max;
            c.metric("circuit " + C::name() + ":rms/limit", e.sd() / lim);
            if (!(e.sd() <= lim)) c.fail("noise of %zu gate outputs is 2^%.2f rms, limit 2^%.2f", e.e.size(), std::log2(e.sd()), std::log2(lim));
        }
    }
};
PROPERTY(circuits, 120, 3000) { dispatch<Circuit>(c); }
