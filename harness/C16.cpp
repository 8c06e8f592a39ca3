// C16: blind rotation and programmable bootstrapping. Oracle: the test vector
// entry selected by the input's phase (known to the harness, which holds the
// secret key), up to the drift of modulus switching, with the analytic noise
// bound of the accumulated external products.
#include "boot.hpp"
using namespace tf;

static SecretKey *SK;
template <class P>
struct BK {
    static inline Big<BootstrappingKeyFFT<P>> fft;
    static inline Big<BootstrappingKeyNTT<P>> ntt;
    static inline Big<BootstrappingKeyRAINTT<P>> raintt;
    static inline Key<typename P::domainP> dk;
    static inline Key<typename P::targetP> tk;
};
template <class P>
void key_init()
{
    BK<P>::dk = SK->key.get<typename P::domainP>();
    BK<P>::tk = SK->key.get<typename P::targetP>();
}
template <class P>
void job_fft()
{
    BK<P>::fft = big<BootstrappingKeyFFT<P>>();
    bkfftgen<P>(*BK<P>::fft, *SK);
}
template <class P>
void job_ntt()
{
    BK<P>::ntt = big<BootstrappingKeyNTT<P>>();
    bknttgen<P>(*BK<P>::ntt, *SK);
}
template <class P>
void job_raintt()
{
    if constexpr (sizeof(typename P::targetP::T) == 4) {
        BK<P>::raintt = big<BootstrappingKeyRAINTT<P>>();
        bkrainttgen<P>(*BK<P>::raintt, *SK);
    }
}
static EvalKey *EK;
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    key_init<lvl01param>(), key_init<lvlh1param>(), key_init<lvl02param>(), key_init<lvlh2param>();
    EK = new EvalKey(*SK);
    build_parallel(seed, {job_ntt<lvlh2param>, job_fft<lvlh2param>, job_ntt<lvl02param>, job_fft<lvl02param>,
                          job_raintt<lvl01param>, job_raintt<lvlh1param>, job_ntt<lvl01param>, job_fft<lvl01param>, job_ntt<lvlh1param>, job_fft<lvlh1param>,
                          [] { EK->emplaceiksk<lvl20param>(*SK); }, [] { EK->emplacebkfft<lvl02param>(*SK); }, [] { EK->emplaceiksk<lvl10param>(*SK); }, [] { EK->emplacebkntt<lvl01param>(*SK); }, [] { EK->emplacebkfft<lvl01param>(*SK); }});
}

template <class P>
std::string bkname() { return fmt("%s->%s", pname<typename P::domainP>(), pname<typename P::targetP>()); }
template <class P>
Bound noise(Backend be) { return boot_noise<P>(be, BK<P>::dk, BK<P>::tk); }
template <class P>
double drift_bias() { return drift_bias<P>(BK<P>::dk); }
template <class P>
double drift() { return drift<P>(BK<P>::dk); }
template <class D>
std::string gen_tlwe(Case &c, TLWE<D> &x, const Key<D> &key)
{
    using T = typename D::T;
    auto phase = [&]() -> T {
        switch (c.below(4)) {
        case 0: return (T)(((T)c.below(8) << (W<T> - 3)) + (T)c.range(-2, 2));  // multiples of 1/8
        case 1: return c.word<T>();
        default: return (T)c.u64();
        }
    };
    switch (c.below(8)) {
    case 0: {
        x = {};
        x[D::k * D::n] = phase();
        return fmt("trivial %#" PRIx64, (uint64_t)x[D::k * D::n]);
    }
    case 1: {  // coarse masks: many equal words
        T a = c.word<T>(), b = c.word<T>(), m = phase();
        for (uint32_t i = 0; i < D::k * D::n; i++) x[i] = i & 1 ? a : b;
        x[D::k * D::n] = 0;
        x[D::k * D::n] = m - ref_phase<D>(x, key);
        return fmt("mask alternating %#" PRIx64 ",%#" PRIx64 " phase %#" PRIx64, (uint64_t)a, (uint64_t)b, (uint64_t)m);
    }
    case 2: {
        T m = phase();
        Bulk b(c.seed());
        x = make_tlwe<D>(b, m, key);
        return fmt("noiseless %#" PRIx64, (uint64_t)m);
    }
    case 3: {
        bool v = c.flip();
        std::vector<uint8_t> p{v};
        x = tlweSymEncrypt<D>(v ? D::μ : (T)(0 - D::μ), key);
        return fmt("encryption of bit %d", v);
    }
    default: {
        T m = phase();
        x = tlweSymEncrypt<D>(m, key);
        return fmt("encryption of %#" PRIx64, (uint64_t)m);
    }
    }
}
template <class G>
typename G::T entry(const Polynomial<G> &tv, int64_t i)
{
    i &= 2 * G::n - 1;
    return i < (int64_t)G::n ? tv[i] : 0 - tv[i - G::n];
}
// a mask of words that all round to the same direction would not drift like a
// uniform one
template <class D>
bool uniform_mask(const std::string &d) { return d.rfind("mask", 0) != 0; }
// ph: output phases that should be tv[idx], tv[idx+1], ... for an idx near the
// input's phase; idx a multiple of step. Returns idx.
template <class P>
int64_t judge(Case &c, const std::string &what, const typename P::targetP::T *ph, uint32_t count, const Polynomial<typename P::targetP> &tv, const TLWE<typename P::domainP> &x, const Bound &b, uint32_t step, bool typical, Backend be = FFT)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    double lim = b.limit(), n2 = 2.0 * G::n;
    // the phase as the key sees it, over the integers: the drift is the sum of
    // the rounding errors of the mask words selected by the key
    double phase = real<typename D::T>(ref_phase<D>(x, BK<P>::dk)) * n2;
    double range = typical ? drift<P>() * step : 0.5 * step * hw<D>(BK<P>::dk) + 1.5 * step;
    int64_t lo = (int64_t)std::floor((phase - range) / step), hi = (int64_t)std::ceil((phase + range) / step);
    if (hi - lo > (int64_t)(n2 / step)) hi = lo + (int64_t)(n2 / step);
    double best = 1e9;
    int64_t bi = 0;
    uint32_t bj = 0;
    for (int64_t q = lo; q <= hi; q++) {
        double w = 0;
        uint32_t wj = 0;
        for (uint32_t j = 0; j < count && w <= best; j++) {
            double e = std::fabs(dist<typename G::T>(ph[j], entry<G>(tv, q * step + j)));
            if (e > w) w = e, wj = j;
        }
        if (w < best) best = w, bi = q, bj = wj;
    }
    // known finding: the NTT keys encrypt the key words themselves, which only
    // selects for binary ones
    if (D::key_value_diff != 1 && be != FFT && !(best <= lim)) c.known("ntt-ternary-key", "%s: key words of -1 are not rotated by", what.c_str());
    c.metric(what + ":max/limit", best / lim);
    if (!(best <= lim))
        c.fail("%s: no rotation within %.0f steps of the input phase (%.1f of %d) explains the output; the nearest, %" PRId64 ", leaves output %u off by 2^%.2f, limit 2^%.2f", what.c_str(), range, phase, (int)n2, bi * step, bj, std::log2(best), std::log2(lim));
    return bi * step;
}
template <class P>
double measured_sd(const Polynomial<typename P::targetP> &ph, const Polynomial<typename P::targetP> &tv, int64_t idx)
{
    Err e;
    for (uint32_t j = 0; j < P::targetP::n; j++) e.add(dist<typename P::targetP::T>(ph[j], entry<typename P::targetP>(tv, idx + j)));
    return e.sd();
}
template <class P>
constexpr int nback() { return sizeof(typename P::targetP::T) == 4 && std::is_same_v<typename P::targetP, lvl1param> ? 3 : 2; }

template <class P, uint32_t num_out>
void rotate(TRLWE<typename P::targetP> &r, const TLWE<typename P::domainP> &x, Backend be, const Polynomial<typename P::targetP> &tv)
{
    if (be == FFT) BlindRotate<P, num_out>(r, x, *BK<P>::fft, tv);
    else if (be == NTT) BlindRotate<P, num_out>(r, x, *BK<P>::ntt, tv);
    else if constexpr (nback<P>() == 3) BlindRotate<P, num_out>(r, x, *BK<P>::raintt, tv);
}
template <class P>
void rotate_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto r = std::make_unique<TRLWE<G>>();
    auto x = std::make_unique<TLWE<D>>();
    Backend be = (Backend)c.below(nback<P>());
    uint32_t step = 1;
    int nout = c.below(4);
    Polynomial<G> tv;
    bool u;
    std::string d = gen_poly(c, tv, &u), dx = gen_tlwe<D>(c, *x, BK<P>::dk);
    c.note("blind rotation %s %s outputs %d of %s by %s", bkname<P>().c_str(), bname(be), 1 << nout, d.c_str(), dx.c_str());
    c.label(fmt("rotate %s %s", bkname<P>().c_str(), bname(be)));
    if (d != "zero") c.nontrivial();
    for (auto &p : *r) p.fill(0x1234567);
    auto x0 = *x;
    auto tv0 = tv;
    switch (nout) {
    case 0: rotate<P, 1>(*r, *x, be, tv); break;
    case 1: rotate<P, 2>(*r, *x, be, tv); break;
    case 2: rotate<P, 4>(*r, *x, be, tv); break;
    default: rotate<P, 8>(*r, *x, be, tv);
    }
    step = 1u << nout;
    if (*x != x0 || tv != tv0) c.fail("input modified");
    auto ph = ref_phase<G>(*r, BK<P>::tk);
    Bound b = noise<P>(be);
    std::string what = fmt("blind rotation %s %s", bkname<P>().c_str(), bname(be));
    int64_t idx = judge<P>(c, what, ph.data(), G::n, tv, *x, b, step, uniform_mask<D>(dx), be);
    // the noise as a whole, where errors of different coefficients are independent
    if (G::key_value_min < 0 && !(be == NTT && sizeof(typename G::T) == 4) && b.limit() < 0.2) {
        double sd = measured_sd<P>(ph, tv, idx), lim = b.sigma() * std::sqrt(1 + 9.5 * std::sqrt(2.0 / G::n)) + b.max;
        c.metric(what + ":rms/limit", sd / lim);
        if (!(sd <= lim)) c.fail("%s: rms error 2^%.2f, limit 2^%.2f", what.c_str(), std::log2(sd), std::log2(lim));
    }
}
PROPERTY(blind_rotate, 300, 8000)
{
    switch (c.below(8)) {
    case 0: return rotate_case<lvlh2param>(c);
    case 1: case 2: return rotate_case<lvl02param>(c);
    case 3: case 4: return rotate_case<lvlh1param>(c);
    default: return rotate_case<lvl01param>(c);
    }
}
// a TRLWE sample as the test vector
template <class P>
void trlwe_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto r = std::make_unique<TRLWE<G>>(), tv = std::make_unique<TRLWE<G>>();
    auto x = std::make_unique<TLWE<D>>();
    Polynomial<G> p;
    bool u;
    std::string d = gen_poly(c, p, &u), dx = gen_tlwe<D>(c, *x, BK<P>::dk);
    int kind = c.below(3);
    Bulk b(c.seed());
    if (kind == 0) *tv = {}, (*tv)[G::k] = p;
    else if (kind == 1) *tv = make_trlwe<G>(b, p, BK<P>::tk);
    else *tv = trlweSymEncrypt<G>(p, BK<P>::tk);
    int nout = c.below(3);
    c.note("blind rotation %s outputs %d of %s %s by %s", bkname<P>().c_str(), 1 << nout, kind == 0 ? "trivial sample of" : kind == 1 ? "noiseless sample of" : "encryption of", d.c_str(), dx.c_str());
    c.label(fmt("rotate TRLWE %s", bkname<P>().c_str()));
    c.nontrivial();
    auto tv0 = *tv;
    if (nout == 0) BlindRotate<P>(*r, *x, *BK<P>::fft, *tv);
    else if (nout == 1) BlindRotate<P, 2>(*r, *x, *BK<P>::fft, *tv);
    else BlindRotate<P, 4>(*r, *x, *BK<P>::fft, *tv);
    if (*tv != tv0) c.fail("input modified");
    auto ph = ref_phase<G>(*r, BK<P>::tk), want = ref_phase<G>(*tv, BK<P>::tk);
    judge<P>(c, fmt("blind rotation of a sample %s", bkname<P>().c_str()), ph.data(), G::n, want, *x, noise<P>(FFT), 1u << nout, uniform_mask<D>(dx));
}
PROPERTY(blind_rotate_trlwe, 60, 1500)
{
    if (c.below(3)) trlwe_case<lvl01param>(c);
    else trlwe_case<lvl02param>(c);
}
// sample-extracted forms
template <class P>
void boot_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TLWE<G>>();
    Backend be = (Backend)c.below(nback<P>());
    Polynomial<G> tv;
    bool u;
    std::string d;
    if (c.chance(1, 3)) {  // a lookup table of 2^k plateaus
        int k = 1 + c.below(6);
        uint64_t s = c.seed();
        Bulk b(s);
        for (uint32_t i = 0; i < G::n; i++) {
            if (i % (G::n >> k) == 0) tv[0] = (typename G::T)b.next();
            if (i) tv[i] = i % (G::n >> k) ? tv[i - 1] : (typename G::T)b.next();
        }
        d = fmt("table of %d seed %" PRIu64, 1 << k, s);
    }
    else if (c.chance(1, 3)) {
        tv = μpolygen<G, G::μ>();
        d = "constant mu";
    }
    else d = gen_poly(c, tv, &u);
    std::string dx = gen_tlwe<D>(c, *x, BK<P>::dk);
    c.note("bootstrapping %s %s of %s by %s", bkname<P>().c_str(), bname(be), d.c_str(), dx.c_str());
    c.label(fmt("bootstrap %s %s", bkname<P>().c_str(), bname(be)));
    c.nontrivial();
    auto x0 = *x;
    if (be == FFT) GateBootstrappingTLWE2TLWEFFT<P>(*r, *x, *BK<P>::fft, tv);
    else if (be == NTT) GateBootstrappingTLWE2TLWENTT<P>(*r, *x, *BK<P>::ntt, tv);
    else if constexpr (nback<P>() == 3) GateBootstrappingTLWE2TLWERAINTT<P>(*r, *x, *BK<P>::raintt, tv);
    if (*x != x0) c.fail("input modified");
    auto ph = ref_phase<G>(*r, BK<P>::tk);
    judge<P>(c, fmt("bootstrapping %s %s", bkname<P>().c_str(), bname(be)), &ph, 1, tv, *x, noise<P>(be), 1, uniform_mask<D>(dx), be);
}
PROPERTY(bootstrap, 250, 8000)
{
    switch (c.below(8)) {
    case 0: return boot_case<lvlh2param>(c);
    case 1: case 2: return boot_case<lvl02param>(c);
    case 3: case 4: return boot_case<lvlh1param>(c);
    default: return boot_case<lvl01param>(c);
    }
}
// multiple outputs
template <class P, uint32_t N>
void many(Case &c, const std::string &d, const Polynomial<typename P::targetP> &tv, const TLWE<typename P::domainP> &x, bool uniform)
{
    using G = typename P::targetP;
    auto r = std::make_unique<std::array<TLWE<G>, N>>();
    GateBootstrappingManyLUT<P, N>(*r, x, *BK<P>::fft, tv);
    std::array<typename G::T, N> ph;
    for (uint32_t i = 0; i < N; i++) ph[i] = ref_phase<G>((*r)[i], BK<P>::tk);
    judge<P>(c, fmt("multi-output bootstrapping %s", bkname<P>().c_str()), ph.data(), N, tv, x, noise<P>(FFT), std::bit_ceil(N), uniform);
}
template <class P>
void many_case(Case &c)
{
    using D = typename P::domainP;
    auto x = std::make_unique<TLWE<D>>();
    Polynomial<typename P::targetP> tv;
    static const int counts[] = {1, 2, 3, 4, 5, 7, 8, 16};
    int n = c.pick(std::to_array(counts));
    bool u;
    std::string d = gen_poly(c, tv, &u), dx = gen_tlwe<D>(c, *x, BK<P>::dk);
    c.note("multi-output bootstrapping %s, %d outputs, of %s by %s", bkname<P>().c_str(), n, d.c_str(), dx.c_str());
    c.label(fmt("%d outputs", n));
    c.nontrivial();
    bool um = uniform_mask<D>(dx);
    switch (n) {
    case 1: return many<P, 1>(c, d, tv, *x, um);
    case 2: return many<P, 2>(c, d, tv, *x, um);
    case 3: return many<P, 3>(c, d, tv, *x, um);
    case 4: return many<P, 4>(c, d, tv, *x, um);
    case 5: return many<P, 5>(c, d, tv, *x, um);
    case 7: return many<P, 7>(c, d, tv, *x, um);
    case 8: return many<P, 8>(c, d, tv, *x, um);
    default: return many<P, 16>(c, d, tv, *x, um);
    }
}
PROPERTY(multi_output, 120, 3000)
{
    if (c.below(3)) many_case<lvl01param>(c);
    else many_case<lvl02param>(c);
}
// modulus switching drifts like a sum of uniform rounding errors, no more
template <class P>
void drift_case(Case &c)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TRLWE<G>>();
    Polynomial<G> tv;
    Bulk b(c.seed());
    uniform_fill(b, tv.data(), G::n);
    Err e;
    const int n = 24;
    c.note("drift of %d rotations %s", n, bkname<P>().c_str());
    c.label("drift");
    c.nontrivial();
    double h = hw<D>(BK<P>::dk);
    for (int i = 0; i < n; i++) {
        *x = tlweSymEncrypt<D>((typename D::T)b.next(), BK<P>::dk);
        BlindRotate<P>(*r, *x, *BK<P>::fft, tv);
        auto ph = ref_phase<G>(*r, BK<P>::tk);
        int64_t idx = judge<P>(c, fmt("drift %s", bkname<P>().c_str()), ph.data(), G::n, tv, *x, noise<P>(FFT), 1, true);
        e.add(idx - real<typename D::T>(ref_phase<D>(*x, BK<P>::dk)) * 2 * G::n);
    }
    double s = std::sqrt(h / 12 + 1.0 / 12), bias = drift_bias<P>();
    double lim = std::sqrt(bias * bias + s * s * (1 + 8 * std::sqrt(2.0 / n))) + 2 * 8 * s * bias / std::sqrt((double)n) / std::sqrt(bias * bias + s * s);
    c.metric(fmt("drift %s:rms/limit", bkname<P>().c_str()), e.sd() / lim);
    if (!(e.sd() <= lim)) c.fail("rotations are off by %.2f steps rms, bound %.2f", e.sd(), lim);
    c.metric(fmt("drift %s:(|mean|-bias)*sqrt(n)/sigma", bkname<P>().c_str()), (std::fabs(e.mean()) - bias) * std::sqrt(n) / s);
    if (!(std::fabs(e.mean()) <= bias + 8 * s / std::sqrt((double)n))) c.fail("rotations are biased by %.2f steps", e.mean());
}
PROPERTY(drift_law, 24, 400)
{
    if (c.below(3)) drift_case<lvl01param>(c);
    else drift_case<lvl02param>(c);
}
// both orders of bootstrapping and key switching with the NTT keys of an EvalKey
PROPERTY(ntt_orders, 60, 1500)
{
    bool first = c.flip(), v = c.flip();
    c.label(first ? "bootstrap, switch" : "switch, bootstrap");
    c.nontrivial();
    c.note("NTT gate bootstrapping, %s, of an encryption of %d", first ? "bootstrap then switch" : "switch then bootstrap", v);
    auto phase_ok = [&](double e, double mu, double lim) {
        double d = e - (v ? mu : -mu);
        if (lvl0param::key_value_diff != 1 && !(std::fabs(d) <= lim)) c.known("ntt-ternary-key", "NTT gate bootstrapping: key words of -1 are not rotated by");
        if (!(std::fabs(d) <= lim)) c.fail("output phase %.4f, expected %.4f, limit %.4f", e, v ? mu : -mu, lim);
        c.metric("ntt order:err/limit", std::fabs(d) / lim);
    };
    double mu = real<lvl1param::T>(lvl1param::μ);
    Bound b = noise<lvl01param>(NTT);
    if (first) {
        TLWE<lvl0param> x = tlweSymEncrypt<lvl0param>(v ? lvl0param::μ : 0 - lvl0param::μ, SK->key.get<lvl0param>()), r;
        GateBootstrappingNTT<lvl01param, lvl1param::μ, lvl10param>(r, x, *EK);
        double ks = std::sqrt((double)lvl1param::k * lvl1param::n * lvl10param::t) * alpha<lvl0param>() + std::sqrt((double)lvl1param::k * lvl1param::n / 3.0) * std::ldexp(1.0, -(int)(lvl10param::t * lvl10param::basebit) - 1) + 64 * ulp<lvl0param>();
        phase_ok(real<lvl0param::T>(ref_phase<lvl0param>(r, SK->key.get<lvl0param>())), mu, b.limit() + 9.5 * ks);
    }
    else {
        TLWE<lvl1param> x = tlweSymEncrypt<lvl1param>(v ? lvl1param::μ : 0 - lvl1param::μ, SK->key.get<lvl1param>()), r;
        GateBootstrappingNTT<lvl10param, lvl01param, lvl1param::μ>(r, x, *EK);
        phase_ok(real<lvl1param::T>(ref_phase<lvl1param>(r, SK->key.get<lvl1param>())), mu, b.limit());
    }
}

// both orders of bootstrapping and key switching with the FFT keys of an
// EvalKey, for several output messages, and in place
template <class P>
static const Key<P> &level()
{
    static const Key<P> k = SK->key.get<P>();
    return k;
}
template <class L, class brP, class iksP, typename brP::targetP::T mu, bool first>
static void order_case(Case &c)
{
    using D = typename brP::domainP;
    using G = typename brP::targetP;
    using T = typename L::T;
    Bound b = noise<brP>(FFT), sw = ks_noise<iksP>(level<G>());
    const double m = 0.25 - drift<brP>() / (2 * G::n) - (first ? 0 : 9.5 * sw.sigma() + sw.max) - ulp<D>() * 2;
    if (first) b += sw;
    bool v = c.flip(), alias = c.flip();
    double e = (c.flip() ? 1 : -1) * (c.flip() ? 1 : c.below(1000) / 1000.0) * std::max(m, 0.0);
    const int kind = c.below(3);
    Bulk bulk(c.seed());
    // any phase in the half torus of the message
    T ph = (T)((v ? (T)1 << (W<T> - 2) : (T)(0 - ((T)1 << (W<T> - 2)))) + (T)(int64_t)std::llround(std::ldexp(e, W<T>)));
    TLWE<L> x{}, r;
    if (kind == 0) x[L::k * L::n] = ph;
    else x = make_tlwe<L>(bulk, ph, level<L>());
    c.note("GateBootstrapping %s %s, message 2^%.0f, phase %+.4f%s%s", bkname<brP>().c_str(), first ? "then switch" : "after switch", std::log2(real<typename G::T>(mu)), real<T>(ph), kind ? "" : " trivial", alias ? ", in place" : "");
    c.label(fmt("%s %s", bkname<brP>().c_str(), first ? "then switch" : "after switch"));
    c.nontrivial();
    TLWE<L> org = x, &out = alias ? x : r;
    if constexpr (first) GateBootstrapping<brP, mu, iksP>(out, x, *EK);
    else GateBootstrapping<iksP, brP, mu>(out, x, *EK);
    if (!alias && x != org) c.fail("the input was modified");
    double d = real<T>(ref_phase<L>(out, level<L>())) - (v ? 1 : -1) * real<typename G::T>(mu), lim = b.limit();
    c.metric(fmt("%s %d:err/limit", bkname<brP>().c_str(), first), std::fabs(d) / lim);
    if (!(std::fabs(d) <= lim)) c.fail("output phase is off by %.5f, limit %.5f", d, lim);
}
PROPERTY(fft_orders, 160, 4000)
{
    using T1 = lvl1param::T;
    using T2 = lvl2param::T;
    switch (c.below(8)) {
    case 0: return order_case<lvl0param, lvl01param, lvl10param, lvl1param::μ, true>(c);
    case 1: return order_case<lvl0param, lvl01param, lvl10param, (T1)1 << (W<T1> - 5), true>(c);
    case 2: return order_case<lvl0param, lvl02param, lvl20param, lvl2param::μ, true>(c);
    case 3: return order_case<lvl0param, lvl02param, lvl20param, (T2)1 << (W<T2> - 4), true>(c);
    case 4: return order_case<lvl1param, lvl01param, lvl10param, lvl1param::μ, false>(c);
    case 5: return order_case<lvl1param, lvl01param, lvl10param, (T1)1 << (W<T1> - 6), false>(c);
    case 6: return order_case<lvl2param, lvl02param, lvl20param, lvl2param::μ, false>(c);
    default: return order_case<lvl2param, lvl02param, lvl20param, (T2)1 << (W<T2> - 7), false>(c);
    }
}
