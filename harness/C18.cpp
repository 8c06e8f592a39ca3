// C18: homomorphic multiplexers. Oracle: c1 or c0 by the selector, the output
// phase within the noise of two bootstraps (and a key switch) of +-mu.
#include "boot.hpp"
using namespace tf;

static SecretKey *SK;
static EvalKey *EK;
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    EK = new EvalKey(*SK);
    build_parallel(seed, {[] { EK->emplacebkfft<lvl02param>(*SK); }, [] { EK->emplaceiksk<lvl20param>(*SK); }, [] { EK->emplacebkfft<lvlh1param>(*SK); },
                          [] { EK->emplacebkfft<lvl01param>(*SK); }, [] { EK->emplaceiksk<lvl1hparam>(*SK); }, [] { EK->emplaceiksk<lvl10param>(*SK); }});
}
template <class L>
const Key<L> &lkey()
{
    static const Key<L> k = SK->key.get<L>();
    return k;
}
template <class L>
typename L::T word_of(double e) { return (typename L::T)(int64_t)std::llround(std::ldexp(e, W<typename L::T>)); }
template <class T>
double centred(T got, T want) { return real<T>((T)(got - want)); }

// an input wire at level L with message +-mu and an error of at most `margin`
template <class L>
std::string gen_wire(Case &c, TLWE<L> &x, bool v, double margin)
{
    using T = typename L::T;
    T mu = v ? (T)L::μ : (T)(0 - L::μ);
    Bulk b(c.seed());
    switch (c.below(4)) {
    case 0: x = {}; x[L::k * L::n] = mu; return fmt("trivial %d", v);
    case 1: x = make_tlwe<L>(b, mu, lkey<L>()); return fmt("noiseless %d", v);
    case 2: {
        double e = margin * (c.flip() ? 1 : -1) * (c.flip() ? 1 : c.below(1000) / 1000.0);
        x = make_tlwe<L>(b, (T)(mu + word_of<L>(e)), lkey<L>());
        return fmt("%d%+.4f", v, e);
    }
    default: x = tlweSymEncrypt<L>(mu, lkey<L>()); return fmt("fresh %d", v);
    }
}
static const char *alias_name[] = {"", " in place of cs", " in place of c1", " in place of c0"};
// margin left to each of the operands added before the bootstrap
template <class brP>
double margin(double switched_sigma)
{
    double g = 0.125 - 9.5 * switched_sigma - drift<brP>(lkey<typename brP::domainP>()) / (2 * brP::targetP::n) - ulp<typename brP::domainP>();
    return g > 0 ? g / 2 : 0;
}

// ---- plain MUX / NMUX --------------------------------------------------------
template <class L>
Bound mux_noise()
{
    Bound b = boot_noise<lvl01param>(FFT, lkey<lvl0param>(), lkey<lvl1param>()), o = b;
    b += o;
    if (std::is_same_v<L, lvl0param>) b += ks_noise<lvl10param>(lkey<lvl1param>());
    return b;
}
template <class L>
double mux_margin()
{
    if constexpr (std::is_same_v<L, lvl1param>) return margin<lvl01param>(ks_noise<lvl10param>(lkey<lvl1param>()).sigma());
    else return margin<lvl01param>(0);
}
template <class L>
void plain(Case &c)
{
    using T = typename L::T;
    bool s = c.flip(), v1 = c.flip(), v0 = c.flip(), neg = c.flip(), want = (s ? v1 : v0) != neg;
    TLWE<L> in[3], r;
    double m = mux_margin<L>();
    std::string d[3];
    bool val[3] = {s, v1, v0};
    for (int i = 0; i < 3; i++) d[i] = gen_wire<L>(c, in[i], val[i], m);
    if (c.chance(1, 6)) {  // one operand twice
        int a = c.below(3), b = c.below(3);
        in[a] = in[b], val[a] = val[b], d[a] = d[b];
        want = (val[0] ? val[1] : val[2]) != neg;
    }
    int alias = c.chance(1, 2) ? 1 + c.below(3) : 0;
    c.note("%s %s(%s, %s, %s)%s", pname<L>(), neg ? "NMUX" : "MUX", d[0].c_str(), d[1].c_str(), d[2].c_str(), alias_name[alias]);
    c.label(fmt("%s %s%s", pname<L>(), neg ? "NMUX" : "MUX", alias ? " in place" : ""));
    c.nontrivial();
    r.fill((T)0x5a5a);
    TLWE<L> org[3] = {in[0], in[1], in[2]};
    TLWE<L> &out = alias ? in[alias - 1] : r;
    if (neg) HomNMUX<L>(out, in[0], in[1], in[2], *EK);
    else HomMUX<L>(out, in[0], in[1], in[2], *EK);
    for (int i = 0; i < 3; i++)
        if (alias != i + 1 && in[i] != org[i]) c.fail("operand %d modified", i);
    T mu = want ? L::μ : (T)(0 - L::μ);
    double e = centred<T>(ref_phase<L>(out, lkey<L>()), mu), lim = mux_noise<L>().limit();
    c.metric(fmt("%s MUX:err/limit", pname<L>()), std::fabs(e) / lim);
    if (!(std::fabs(e) <= lim)) c.fail("output phase is off by %.5f from the encoding of %d, limit %.5f", e, want, lim);
    if (tlweSymDecrypt<L>(out, lkey<L>()) != want) c.fail("decrypts to %d", !want);
}
PROPERTY(mux, 400, 10000)
{
    if (c.flip()) plain<lvl1param>(c);
    else plain<lvl0param>(c);
}

// Where exactly the multiplexers decide: as in C17
template <class D, class brP, class F>
void at_threshold(Case &c, const char *name, double switched_sigma, F right)
{
    using T = typename D::T;
    double m = 0.125 - tight_guard<brP>(lkey<typename brP::domainP>(), switched_sigma), e[3];
    if (m < 0) m = 0;
    const bool val[3] = {c.flip(), c.flip(), c.flip()};
    const double part = c.below(5) / 4.0;
    for (int i = 0; i < 3; i++) e[i] = (c.flip() ? 1 : -1) * m * (i ? 1 - part : part);
    c.note("%s %s at the threshold (%d%+.4f, %d%+.4f, %d%+.4f)", name, pname<D>(), val[0], e[0], val[1], e[1], val[2], e[2]);
    c.label(fmt("%s %s", name, pname<D>()));
    c.nontrivial();
    Bulk b(c.seed());
    int w = confirmed_wrong([&] {
        TLWE<D> in[3];
        for (int i = 0; i < 3; i++) in[i] = make_tlwe<D>(b, (T)((val[i] ? (T)D::μ : (T)(0 - D::μ)) + word_of<D>(e[i])), lkey<D>());
        return right(in, val[0] ? val[1] : val[2]);
    });
    if (w) c.fail("%d of 7 evaluations are wrong although every phase is 4.5 standard deviations inside the margin", w + 1);
}
template <class L>
void plain_threshold(Case &c, bool neg)
{
    using T = typename L::T;
    const double s = std::is_same_v<L, lvl1param> ? ks_noise<lvl10param>(lkey<lvl1param>()).sigma() : 0;
    at_threshold<L, lvl01param>(c, neg ? "NMUX" : "MUX", s, [&](TLWE<L> *in, bool want) {
        TLWE<L> r;
        if (neg) HomNMUX<L>(r, in[0], in[1], in[2], *EK);
        else HomMUX<L>(r, in[0], in[1], in[2], *EK);
        T mu = want != neg ? L::μ : (T)(0 - L::μ);
        return std::fabs(centred<T>(ref_phase<L>(r, lkey<L>()), mu)) <= mux_noise<L>().limit();
    });
}
template <class iksP, class brP>
void trlwe_threshold(Case &c)
{
    using G = typename brP::targetP;
    using T = typename G::T;
    auto good = [](const TRLWE<G> &r, bool want) {
        Bound b = boot_noise<brP>(FFT, lkey<typename brP::domainP>(), lkey<G>()), o = b;
        b += o;
        TLWE<G> x;
        SampleExtractIndex<G>(x, r, 0);
        return std::fabs(centred<T>(ref_phase<G>(x, lkey<G>()), want ? (T)G::μ : (T)(0 - G::μ))) <= b.limit();
    };
    auto r = big<TRLWE<G>>();
    if constexpr (std::is_same_v<iksP, void>)
        at_threshold<typename brP::domainP, brP>(c, "MUXwoIKSandSE", 0, [&](auto *in, bool want) {
            HomMUXwoIKSandSE<brP>(*r, in[0], in[1], in[2], *EK);
            return good(*r, want);
        });
    else
        at_threshold<typename iksP::domainP, brP>(c, "MUXwoSE", ks_noise<iksP>(lkey<typename iksP::domainP>()).sigma(), [&](auto *in, bool want) {
            HomMUXwoSE<iksP, brP>(*r, in[0], in[1], in[2], *EK);
            return good(*r, want);
        });
}
PROPERTY(thresholds, 200, 5000)
{
    switch (c.below(5)) {
    case 0: return plain_threshold<lvl1param>(c, c.flip());
    case 1: return plain_threshold<lvl0param>(c, c.flip());
    case 2: return trlwe_threshold<void, lvl01param>(c);
    case 3: return trlwe_threshold<lvl10param, lvl01param>(c);
    default: return trlwe_threshold<lvl10param, lvl02param>(c);
    }
}

// ---- variants returning a TRLWE sample ---------------------------------------
template <class P>
std::string cfg()
{
    return fmt("%s->%s", pname<typename P::domainP>(), pname<typename P::targetP>());
}
// the output carries +-mu in coefficient 0; mu0 is the message value
template <class brP>
void check_trlwe(Case &c, const TRLWE<typename brP::targetP> &r, typename brP::targetP::T mu0, bool want, const char *name)
{
    using G = typename brP::targetP;
    using T = typename G::T;
    TLWE<G> x;
    SampleExtractIndex<G>(x, r, 0);
    T mu = want ? mu0 : (T)(0 - mu0);
    Bound b = boot_noise<brP>(FFT, lkey<typename brP::domainP>(), lkey<G>()), o = b;
    b += o;
    double e = centred<T>(ref_phase<G>(x, lkey<G>()), mu), lim = b.limit();
    c.metric(fmt("%s %s:err/limit", name, cfg<brP>().c_str()), std::fabs(e) / lim);
    if (!(std::fabs(e) <= lim)) c.fail("extracted phase is off by %.3g from the encoding of %d, limit %.3g", e, want, lim);
    double e2 = centred<T>(ref_phase<G>(r, lkey<G>())[0], mu);
    if (!(std::fabs(e2) <= lim)) c.fail("coefficient 0 is off by %.3g from the encoding of %d, limit %.3g", e2, want, lim);
}
template <class brP, class F>
void without(Case &c, const char *name, typename brP::targetP::T mu0, F f)
{
    using D = typename brP::domainP;
    using G = typename brP::targetP;
    bool val[3] = {c.flip(), c.flip(), c.flip()};
    TLWE<D> in[3];
    double m = margin<brP>(0);
    std::string d[3];
    for (int i = 0; i < 3; i++) d[i] = gen_wire<D>(c, in[i], val[i], m);
    c.note("%s %s (%s, %s, %s)", name, cfg<brP>().c_str(), d[0].c_str(), d[1].c_str(), d[2].c_str());
    c.label(fmt("%s %s", name, cfg<brP>().c_str()));
    c.nontrivial();
    TLWE<D> org[3] = {in[0], in[1], in[2]};
    auto r = big<TRLWE<G>>();
    for (auto &p : *r) p.fill((typename G::T)0x5a5a5a);
    f(*r, in[0], in[1], in[2]);
    for (int i = 0; i < 3; i++)
        if (in[i] != org[i]) c.fail("operand %d modified", i);
    check_trlwe<brP>(c, *r, mu0, val[0] ? val[1] : val[2], name);
}
template <class iksP, class brP>
void switched(Case &c)
{
    using D = typename iksP::domainP;
    using G = typename brP::targetP;
    bool val[3] = {c.flip(), c.flip(), c.flip()};
    TLWE<D> in[3];
    double m = margin<brP>(ks_noise<iksP>(lkey<D>()).sigma());
    std::string d[3];
    for (int i = 0; i < 3; i++) d[i] = gen_wire<D>(c, in[i], val[i], m);
    c.note("MUXwoSE %s, %s (%s, %s, %s)", pname<D>(), cfg<brP>().c_str(), d[0].c_str(), d[1].c_str(), d[2].c_str());
    c.label(fmt("MUXwoSE %s, %s", pname<D>(), cfg<brP>().c_str()));
    c.nontrivial();
    TLWE<D> org[3] = {in[0], in[1], in[2]};
    auto r = big<TRLWE<G>>();
    typename G::T mu = G::μ;
    if constexpr (std::is_same_v<G, lvl2param>) {
        if (c.chance(1, 2)) {  // another message, as circuit bootstrapping needs
            constexpr typename G::T other = (typename G::T)1 << (W<typename G::T> - 5);
            HomMUXwoSE<iksP, brP, other>(*r, in[0], in[1], in[2], *EK);
            mu = other;
        }
        else HomMUXwoSE<iksP, brP>(*r, in[0], in[1], in[2], *EK);
    }
    else HomMUXwoSE<iksP, brP>(*r, in[0], in[1], in[2], *EK);
    for (int i = 0; i < 3; i++)
        if (in[i] != org[i]) c.fail("operand %d modified", i);
    check_trlwe<brP>(c, *r, mu, val[0] ? val[1] : val[2], "MUXwoSE with key switch");
}
static void on_trlwe(Case &c)
{
    using L = lvl1param;
    using T = L::T;
    bool val[3] = {c.flip(), c.flip(), c.flip()};
    double m = margin<lvl01param>(std::sqrt(2.0) * ks_noise<lvl10param>(lkey<L>()).sigma());
    TRLWE<L> in[3], r;
    std::string d[3];
    for (int i = 0; i < 3; i++) {
        T mu = val[i] ? L::μ : (T)(0 - L::μ);
        Bulk b(c.seed());
        Polynomial<L> p{};
        // the other coefficients do not matter
        if (c.flip()) uniform_fill(b, p.data(), L::n);
        p[0] = mu;
        switch (c.below(4)) {
        case 0: in[i] = {}; in[i][L::k] = p; d[i] = fmt("trivial %d", val[i]); break;
        case 1: in[i] = make_trlwe<L>(b, p, lkey<L>()); d[i] = fmt("noiseless %d", val[i]); break;
        case 2: {
            double e = m * (c.flip() ? 1 : -1) * (c.flip() ? 1 : c.below(1000) / 1000.0);
            p[0] += word_of<L>(e);
            in[i] = make_trlwe<L>(b, p, lkey<L>());
            d[i] = fmt("%d%+.4f", val[i], e);
            break;
        }
        default: in[i] = trlweSymEncrypt<L>(p, lkey<L>()); d[i] = fmt("fresh %d", val[i]);
        }
    }
    int alias = c.chance(1, 2) ? 1 + c.below(3) : 0;
    c.note("ExtractSwitchAndHomMUX(%s, %s, %s)%s", d[0].c_str(), d[1].c_str(), d[2].c_str(), alias_name[alias]);
    c.label(alias ? "on TRLWE in place" : "on TRLWE");
    c.nontrivial();
    TRLWE<L> org[3] = {in[0], in[1], in[2]};
    TRLWE<L> &out = alias ? in[alias - 1] : r;
    ExtractSwitchAndHomMUX(out, in[0], in[1], in[2], *EK);
    for (int i = 0; i < 3; i++)
        if (alias != i + 1 && in[i] != org[i]) c.fail("operand %d modified", i);
    check_trlwe<lvl01param>(c, out, L::μ, val[0] ? val[1] : val[2], "on TRLWE");
}
PROPERTY(trlwe_mux, 400, 10000)
{
    switch (c.below(10)) {
    case 0: return without<lvl02param>(c, "MUXwoIKSandSE", lvl2param::μ, [](auto &r, auto &s, auto &a, auto &b) { HomMUXwoIKSandSE<lvl02param>(r, s, a, b, *EK); });
    case 1: return without<lvl02param>(c, "MUXwoSE", lvl2param::μ, [](auto &r, auto &s, auto &a, auto &b) { HomMUXwoSE<lvl02param>(r, s, a, b, *EK); });
    case 2: return switched<lvl20param, lvl02param>(c);
    case 3: return switched<lvl10param, lvl02param>(c);
    case 4: return switched<lvl20param, lvl01param>(c);
    case 5: return without<lvlh1param>(c, "MUXwoSE", lvl1param::μ, [](auto &r, auto &s, auto &a, auto &b) { HomMUXwoSE<lvlh1param>(r, s, a, b, *EK); });
    case 6: return without<lvl01param>(c, "MUXwoIKSandSE", lvl1param::μ, [](auto &r, auto &s, auto &a, auto &b) { HomMUXwoIKSandSE<lvl01param>(r, s, a, b, *EK); });
    case 7: return without<lvl01param>(c, "MUXwoSE", lvl1param::μ, [](auto &r, auto &s, auto &a, auto &b) { HomMUXwoSE<lvl01param>(r, s, a, b, *EK); });
    case 8: return switched<lvl10param, lvl01param>(c);
    default: return on_trlwe(c);
    }
}

// ---- calls that share operands -----------------------------------------------
// a few calls in a row, each keeping some of the operands of the one before it:
// the same samples, samples with the same mask, swapped or negated ones
template <class L>
void related(Case &c)
{
    using T = typename L::T;
    constexpr bool upper = std::is_same_v<L, lvl1param>;
    TLWE<L> in[3];
    bool val[3];
    std::string d;
    double m = mux_margin<L>() / 2;
    for (int i = 0; i < 3; i++) {
        val[i] = c.flip();
        d += (i ? ", " : "(") + gen_wire<L>(c, in[i], val[i], m);
    }
    d += ")";
    c.nontrivial();
    const int calls = c.range(2, 5);
    c.label(fmt("%d related calls %s", calls, pname<L>()));
    for (int k = 0; k < calls; k++) {
        for (int i = 0; k && i < 3; i++) {
            switch (c.below(6)) {
            case 0: val[i] = !val[i], in[i][L::k * L::n] += (T)(2 * (val[i] ? L::μ : (T)(0 - L::μ))), d += fmt("; %d: body", i); break;
            case 1: val[i] = !val[i], d += fmt("; %d: negated", i); for (auto &x : in[i]) x = (T)(0 - x); break;
            case 2: {
                int j = (i + 1) % 3;
                std::swap(in[i], in[j]), std::swap(val[i], val[j]), d += fmt("; %d<->%d", i, j);
                break;
            }
            case 3: val[i] = c.flip(), d += fmt("; %d: ", i) + gen_wire<L>(c, in[i], val[i], m); break;
            default:;
            }
        }
        const int op = c.below(3);
        const bool want = val[0] ? val[1] : val[2];
        auto t = big<TRLWE<lvl1param>>();
        const char *name;
        if (op < 2) {
            TLWE<L> r;
            if (op) HomNMUX<L>(r, in[0], in[1], in[2], *EK);
            else HomMUX<L>(r, in[0], in[1], in[2], *EK);
            name = op ? "NMUX" : "MUX";
            T mu = want != !!op ? L::μ : (T)(0 - L::μ);
            double e = centred<T>(ref_phase<L>(r, lkey<L>()), mu), lim = mux_noise<L>().limit();
            d += fmt(" -> %s", name);
            if (!(std::fabs(e) <= lim)) {
                c.note("%s", d.c_str());
                c.fail("call %d: output phase is off by %.5f, limit %.5f", k, e, lim);
            }
        }
        else {
            if constexpr (upper) HomMUXwoSE<lvl10param, lvl01param>(*t, in[0], in[1], in[2], *EK), name = "MUXwoSE";
            else HomMUXwoIKSandSE<lvl01param>(*t, in[0], in[1], in[2], *EK), name = "MUXwoIKSandSE";
            d += fmt(" -> %s", name);
            c.note("%s", d.c_str());
            check_trlwe<lvl01param>(c, *t, lvl1param::μ, want, name);
        }
    }
    c.note("%s", d.c_str());
}
PROPERTY(related_calls, 150, 4000)
{
    if (c.flip()) related<lvl1param>(c);
    else related<lvl0param>(c);
}

// ---- histories ---------------------------------------------------------------
// multiplexers fed by multiplexers, through extraction and key switching
PROPERTY(mux_chains, 60, 1500)
{
    using L = lvl1param;
    using T = L::T;
    struct Wire {
        TLWE<L> x;
        bool v;
    };
    std::vector<Wire> w;
    int inputs = 1 + c.below(5), ops = 2 + c.below(c.thorough ? 60 : 20);
    std::string d;
    for (int i = 0; i < inputs; i++) {
        w.push_back({});
        w.back().v = c.flip();
        d += " " + gen_wire<L>(c, w.back().x, w.back().v, 0);
    }
    c.nontrivial();
    Bound one = boot_noise<lvl01param>(FFT, lkey<lvl0param>(), lkey<L>()), b = one;
    b += one;
    Err e;
    for (int i = 0; i < ops; i++) {
        size_t s = c.chance(1, 2) ? w.size() - 1 : c.below(w.size()), x = c.below(w.size()), y = c.below(w.size());
        bool want = w[s].v ? w[x].v : w[y].v;
        int op = c.below(5);
        d += fmt("; %s(%zu,%zu,%zu)", (const char *[]){"MUX", "NMUX", "MUXwoSE", "MUXwoIKSandSE", "NAND"}[op], s, x, y);
        Wire n{};
        TRLWE<L> t;
        if (op == 0) HomMUX<L>(n.x, w[s].x, w[x].x, w[y].x, *EK);
        else if (op == 1) HomNMUX<L>(n.x, w[s].x, w[x].x, w[y].x, *EK), want = !want;
        else if (op == 2) {
            HomMUXwoSE<lvl10param, lvl01param>(t, w[s].x, w[x].x, w[y].x, *EK);
            SampleExtractIndex<L>(n.x, t, 0);
        }
        else if (op == 3) {
            TLWE<lvl0param> k[3];
            IdentityKeySwitch<lvl10param>(k[0], w[s].x, EK->getiksk<lvl10param>());
            IdentityKeySwitch<lvl10param>(k[1], w[x].x, EK->getiksk<lvl10param>());
            IdentityKeySwitch<lvl10param>(k[2], w[y].x, EK->getiksk<lvl10param>());
            HomMUXwoIKSandSE<lvl01param>(t, k[0], k[1], k[2], *EK);
            SampleExtractIndex<L>(n.x, t, 0);
        }
        else {
            HomNAND(n.x, w[s].x, w[x].x, *EK);
            want = !(w[s].v && w[x].v);
        }
        n.v = want;
        T mu = want ? L::μ : (T)(0 - L::μ);
        e.add(centred<T>(ref_phase<L>(n.x, lkey<L>()), mu));
        c.metric("chain:err/limit", std::fabs(e.e.back()) / b.limit());
        if (!(std::fabs(e.e.back()) <= b.limit())) {
            c.note("%s", d.c_str());
            c.fail("operation %d: phase is off by %.5f from the encoding of %d, limit %.5f", i, e.e.back(), want, b.limit());
        }
        w.push_back(n);
    }
    c.note("%s", d.c_str());
    if (e.e.size() >= 8) {
        double lim = b.sigma() * std::sqrt(1 + 9.5 * std::sqrt(2.0 / e.e.size())) + b.max;
        c.metric("chain:rms/limit", e.sd() / lim);
        if (!(e.sd() <= lim)) c.fail("noise of %zu outputs is 2^%.2f rms, limit 2^%.2f", e.e.size(), std::log2(e.sd()), std::log2(lim));
    }
    c.label(fmt("chain of %d", ops / 10 * 10));
}
