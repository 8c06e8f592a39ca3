// C19: circuit bootstrapping. Oracle: the exact phase of every row of the
// resulting TRGSW (0 or the gadget term), and its use as a multiplier/selector.
#include "boot.hpp"
using namespace tf;

static SecretKey *SK;
static EvalKey *EK;
static bool HAVE22;
template <class L>
const Key<L> &lkey()
{
    static const Key<L> k = SK->key.get<L>();
    return k;
}
FIXTURE(seed)
{
    HAVE22 = getenv("C19_LVL22") != nullptr;
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    EK = new EvalKey(*SK);
    std::vector<std::function<void()>> jobs{[] { EK->emplaceprivksk4cb<lvl21param>(*SK); }, [] { EK->emplacesubprivksk4cb<lvl21param>(*SK); },
                                            [] { EK->emplacesubiksk<lvl21param>(*SK); }, [] { EK->emplacebkfft<lvl02param>(*SK); },
                                            [] { EK->emplaceiksk<lvl20param>(*SK); }, [] { EK->emplaceiksk<lvl10param>(*SK); }};
    if (HAVE22) jobs.insert(jobs.begin(), [] { EK->emplaceprivksk4cb<lvl22param>(*SK); });
    build_parallel(seed, jobs);
    lkey<lvl0param>(), lkey<lvl1param>(), lkey<lvl2param>();
}
enum Form { PLAIN, TOFFT, INV, WITHINV, SUB, SUBFFT };
static const char *FORM[] = {"", "FFT", "FFTInv", "FFTwithInv", "Sub", "SubFFT"};

template <class L>
std::string gen_wire(Case &c, TLWE<L> &x, bool v, double margin)
{
    using T = typename L::T;
    T mu = v ? (T)L::μ : (T)(0 - L::μ);
    Bulk b(c.seed());
    switch (c.below(4)) {
    case 0: x = {}; x[L::k * L::n] = mu; return fmt("trivial %d", v);
    case 1: x = make_tlwe<L>(b, mu, lkey<L>()); return fmt("noiseless %d", v);
    case 2: {
        double e = margin * (c.flip() ? 1 : -1) * (c.flip() ? 1 : c.below(1000) / 1000.0);
        x = make_tlwe<L>(b, (T)(mu + (T)(int64_t)std::llround(std::ldexp(e, W<T>))), lkey<L>());
        return fmt("%d%+.4f", v, e);
    }
    default: x = tlweSymEncrypt<L>(mu, lkey<L>()); return fmt("fresh %d", v);
    }
}
// noise of a private switch of a uniform sample: rows, and per |f_j| = 1 of the
// input's rounding
template <class P, class D>
void priv_noise(Bound &row, Bound &common)
{
    using G = typename P::targetP;
    double a = alpha<G>(), enc = sizeof(typename G::T) == 8 ? std::sqrt((double)hw<G>(lkey<G>())) * ulp<G>() : G::k * ulp<G>();
    row.var = (double)(D::k * D::n + 1) * P::t * (a * a + enc * enc) * (1 - std::ldexp(1.0, -(int)P::basebit));
    double delta = P::t * P::basebit < (uint32_t)W<typename D::T> ? std::ldexp(1.0, -(int)(P::t * P::basebit) - 1) : 0;
    double h = 1 + (std::is_same_v<D, G> && !std::is_same_v<typename P::domainP, D> ? (double)(G::k * G::n) : hw<D>(lkey<D>()));
    common.var += h * delta * delta / 3;
}
// row: independent per coefficient; common: one error, times the row's secret polynomial
template <class brP, class P>
void noise_of(bool sub, Bound &row, Bound &common)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    common = boot_noise<brP>(FFT, lkey<typename brP::domainP>(), lkey<D>());
    row = {};
    if (sub) {
        // the head of the sample is kept, the tail switched
        double a = alpha<G>(), tail = (double)D::k * D::n - (double)G::k * G::n, u = ulp<G>();
        double delta = std::ldexp(1.0, -(int)(P::t * P::basebit) - 1);
        common.var += tail * P::t * (a * a + u * u / 3) + hw<D>(lkey<D>()) * (delta * delta / 3 + u * u / 3);
        common.max += u;
        priv_noise<P, G>(row, common);
    }
    else priv_noise<P, D>(row, common);
}
template <class G>
void rows_of(TRGSW<G> &w, const TRGSWFFT<G> &f)
{
    for (uint32_t i = 0; i < (G::k + 1) * G::l; i++)
        for (uint32_t j = 0; j < G::k + 1; j++) TwistFFT<G>(w[i][j], f[i][j]);
}
// every row of w is bit times its gadget term; fft: words went through the
// frequency domain
template <class brP, class P>
void check_rows(Case &c, const std::string &what, const TRGSW<typename P::targetP> &w, bool bit, bool sub, bool fft)
{
    using G = typename P::targetP;
    using T = typename G::T;
    Bound row, common;
    noise_of<brP, P>(sub, row, common);
    double extra = ulp<G>() + (fft && sizeof(T) == 8 ? std::ldexp(1.0, -49) * std::sqrt((double)(1 + hw<G>(lkey<G>()))) : 0);
    double lim0 = 9.5 * row.sigma() + extra, lim1 = 9.5 * std::sqrt(row.var + common.var) + common.max + extra;
    Err flat;
    for (uint32_t kk = 0; kk <= G::k; kk++)
        for (uint32_t i = 0; i < G::l; i++) {
            auto ph = ref_phase<G>(w[i + kk * G::l], lkey<G>());
            T h = (T)1 << (W<T> - (i + 1) * G::Bgbit);
            double sum = 0, cnt = 0;
            for (uint32_t j = 0; j < G::n; j++) {
                // the row's secret polynomial: minus a key part, or one
                T f = kk < G::k ? (T)(0 - lkey<G>()[kk * G::n + j]) : (T)(j == 0);
                double e = real<T>((T)(ph[j] - (bit ? (T)(f * h) : (T)0)));
                double lim = f ? lim1 : lim0;
                c.metric(what + (f ? ":common/limit" : ":row/limit"), std::fabs(e) / lim);
                if (!(std::fabs(e) <= lim)) c.fail("%s: row %u of block %u: coefficient %u is off by 2^%.2f from the gadget term of bit %d, limit 2^%.2f", what.c_str(), i, kk, j, std::log2(std::fabs(e)), bit, std::log2(lim));
                if (f) sum += e * (double)(S<T>)f, cnt++;
                else flat.add(e);
            }
            double m = std::fabs(sum / cnt), ml = 9.5 * std::sqrt(common.var + row.var / cnt) + common.max + extra;
            c.metric(what + ":common mean/limit", m / ml);
            if (!(m <= ml)) c.fail("%s: row %u of block %u: common error 2^%.2f, limit 2^%.2f", what.c_str(), i, kk, std::log2(m), std::log2(ml));
        }
    double n = flat.e.size(), rl = row.sigma() * std::sqrt(1 + 9.5 * std::sqrt(2 / n)) + extra;
    c.metric(what + ":row rms/limit", flat.sd() / rl);
    if (!(flat.sd() <= rl)) c.fail("%s: noise of %d row coefficients is 2^%.2f rms, limit 2^%.2f", what.c_str(), (int)n, std::log2(flat.sd()), std::log2(rl));
}
// uses it: external product, and selection between two samples
template <class brP, class P>
void check_use(Case &c, const std::string &what, const TRGSWFFT<typename P::targetP> &f, bool bit, bool sub)
{
    using G = typename P::targetP;
    using T = typename G::T;
    Bound row, common;
    noise_of<brP, P>(sub, row, common);
    const Key<G> &key = lkey<G>();
    Bulk b(c.seed());
    Polynomial<G> p1, p0;
    std::string d1 = gen_poly(c, p1), d0 = gen_poly(c, p0);
    auto x1 = std::make_unique<TRLWE<G>>(make_trlwe<G>(b, p1, key)), x0 = std::make_unique<TRLWE<G>>(make_trlwe<G>(b, p0, key)), r = std::make_unique<TRLWE<G>>();
    double rv = std::sqrt(row.var + common.var), bin = G::key_value_min >= 0 ? 2 : 1;
    Bound e = extprod<G>(FFT, rv, hw<G>(key), 1, 1, true, false);
    double cm = common.max * (G::k + 1) * G::l * G::n * G::Bg / 2;
    double lim = e.limit() * bin + (cm < 1e-4 ? cm : 0);
    c.metric(what + ":log2 use limit", std::log2(lim));
    auto chk = [&](const char *op, const Polynomial<G> &want) {
        auto ph = ref_phase<G>(*r, key);
        for (uint32_t j = 0; j < G::n; j++) {
            double d = std::fabs(dist<T>(ph[j], want[j]));
            c.metric(what + ":" + op + "/limit", d / lim);
            if (!(d <= lim)) c.fail("%s: %s by bit %d of %s and %s: coefficient %u is off by 2^%.2f, limit 2^%.2f", what.c_str(), op, bit, d1.c_str(), d0.c_str(), j, std::log2(d), std::log2(lim));
        }
    };
    trgswfftExternalProduct<G>(*r, *x1, f);
    chk("product", bit ? p1 : Polynomial<G>{});
    CMUXFFT<G>(*r, f, *x1, *x0);
    chk("selection", bit ? p1 : p0);
}
template <class brP, class iksP>
double margin_of(uint32_t step)
{
    double g = 0.125 - drift<brP>(lkey<typename brP::domainP>()) * step / (2 * brP::targetP::n);
    if constexpr (!std::is_void_v<iksP>) g -= 9.5 * ks_noise<iksP>(lkey<typename iksP::domainP>()).sigma();
    else g -= ulp<typename brP::domainP>();
    return g > 0 ? g : 0;
}
template <class Out, class A>
void run(Case &c, Form form, const char *cfg, double margin)
{
    using brP = typename A::brP;
    using P = typename A::privP;
    using L = typename A::L;
    using G = typename P::targetP;
    bool v = c.flip(), sub = form == SUB || form == SUBFFT;
    auto x = std::make_unique<TLWE<L>>();
    std::string d = gen_wire<L>(c, *x, v, margin), what = fmt("CircuitBootstrapping%s %s", FORM[form], cfg);
    c.note("%s of %s", what.c_str(), d.c_str());
    c.label(what);
    c.nontrivial();
    auto x0 = *x;
    auto w = big<TRGSW<G>>();
    auto f = big<TRGSWFFT<G>>(), g = big<TRGSWFFT<G>>();
    switch (form) {
    case PLAIN: A::plain(*w, *x); break;
    case TOFFT: A::fft(*f, *x); break;
    case INV: A::inv(*f, *x); break;
    case WITHINV: A::withinv(*f, *g, *x); break;
    case SUB: A::sub(*w, *x); break;
    default: A::subfft(*f, *x);
    }
    if (*x != x0) c.fail("input modified");
    if (form == PLAIN || form == SUB) {
        check_rows<brP, P>(c, what, *w, v, sub, false);
        *f = ApplyFFT2trgsw<G>(*w);
    }
    else {
        rows_of<G>(*w, *f);
        check_rows<brP, P>(c, what, *w, form == INV ? !v : v, sub, true);
    }
    check_use<brP, P>(c, what, *f, form == INV ? !v : v, sub);
    if (form == WITHINV) {
        rows_of<G>(*w, *g);
        check_rows<brP, P>(c, what + " inverse", *w, !v, sub, true);
        check_use<brP, P>(c, what + " inverse", *g, !v, sub);
    }
}
template <class br, class P>
struct Direct {
    using brP = br;
    using privP = P;
    using L = typename brP::domainP;
    using G = typename P::targetP;
    static void plain(TRGSW<G> &w, const TLWE<L> &x) { CircuitBootstrapping<brP, P>(w, x, *EK); }
    static void fft(TRGSWFFT<G> &w, const TLWE<L> &x) { CircuitBootstrappingFFT<brP, P>(w, x, *EK); }
    static void inv(TRGSWFFT<G> &w, const TLWE<L> &x) { CircuitBootstrappingFFTInv<brP, P>(w, x, *EK); }
    static void withinv(TRGSWFFT<G> &w, TRGSWFFT<G> &v, const TLWE<L> &x) { CircuitBootstrappingFFTwithInv<brP, P>(w, v, x, *EK); }
    static void sub(TRGSW<G> &, const TLWE<L> &) {}
    static void subfft(TRGSWFFT<G> &, const TLWE<L> &) {}
    static double margin() { return margin_of<brP, void>(std::bit_ceil((uint32_t)G::l)); }
};
template <class iks, class br, class P>
struct Switched {
    using iksP = iks;
    using brP = br;
    using privP = P;
    using L = typename iksP::domainP;
    using G = typename P::targetP;
    static void plain(TRGSW<G> &w, const TLWE<L> &x) { CircuitBootstrapping<iksP, brP, P>(w, x, *EK); }
    static void fft(TRGSWFFT<G> &w, const TLWE<L> &x) { CircuitBootstrappingFFT<iksP, brP, P>(w, x, *EK); }
    static void inv(TRGSWFFT<G> &w, const TLWE<L> &x) { CircuitBootstrappingFFTInv<iksP, brP, P>(w, x, *EK); }
    static void withinv(TRGSWFFT<G> &w, TRGSWFFT<G> &v, const TLWE<L> &x) { CircuitBootstrappingFFTwithInv<iksP, brP, P>(w, v, x, *EK); }
    static void sub(TRGSW<G> &w, const TLWE<L> &x)
    {
        if constexpr (std::is_same_v<P, lvl21param>) CircuitBootstrappingSub<iksP, brP, P>(w, x, *EK);
    }
    static void subfft(TRGSWFFT<G> &w, const TLWE<L> &x)
    {
        if constexpr (std::is_same_v<P, lvl21param>) CircuitBootstrappingSubFFT<iksP, brP, P>(w, x, *EK);
    }
    static double margin() { return margin_of<brP, iksP>(std::bit_ceil((uint32_t)G::l)); }
};
template <class A>
void go(Case &c, const char *cfg)
{
    constexpr bool subs = std::is_same_v<typename A::privP, lvl21param> && !std::is_same_v<typename A::L, typename A::brP::domainP>;
    Form f = (Form)c.below(subs ? 6 : 4);
    run<void, A>(c, f, cfg, A::margin());
}
PROPERTY(circuit_bootstrapping, 160, 3000)
{
    using D1 = Direct<lvl02param, lvl21param>;
    using S1 = Switched<lvl10param, lvl02param, lvl21param>;
    using S2 = Switched<lvl20param, lvl02param, lvl21param>;
    using D22 = Direct<lvl02param, lvl22param>;
    using S22 = Switched<lvl10param, lvl02param, lvl22param>;
    int w = c.below(8);
    if (w == 0 && HAVE22) return go<D22>(c, "lvl0->lvl2->lvl2");
    if (w == 1 && HAVE22) return go<S22>(c, "lvl1->lvl0->lvl2->lvl2");
    if (w < 3) return go<D1>(c, "lvl0->lvl2->lvl1");
    if (w < 4) return go<S2>(c, "lvl2->lvl0->lvl2->lvl1");
    go<S1>(c, "lvl1->lvl0->lvl2->lvl1");
}
