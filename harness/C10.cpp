// C10: keys, masks and where their randomness comes from.
#include <set>
#include <thread>
#include <unordered_set>

#include "noise.hpp"
using namespace tf;
static const double Z = 8.5;

template <class P>
struct Lv {
    using type = P;
};
template <class F>
void each_level(F f)
{
    f(Lv<lvl0param>{});
    f(Lv<lvlhalfparam>{});
    f(Lv<lvl1param>{});
    f(Lv<lvl2param>{});
    f(Lv<lvl3param>{});
}
template <class P>
double kmean() { return ((double)P::key_value_min + (double)P::key_value_max) / 2; }
template <class P>
double kvar()
{
    double m = (double)P::key_value_max - (double)P::key_value_min + 1;
    return (m * m - 1) / 12;
}
template <class P>
std::vector<double> normalised(const Key<P> &k)
{
    std::vector<double> r;
    for (auto v : k) r.push_back(((double)(S<typename P::T>)v - kmean<P>()) / std::sqrt(kvar<P>()));
    return r;
}
static double corr(const std::vector<double> &a, const std::vector<double> &b, size_t lag)
{
    double s = 0;
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i + lag < n; i++) s += a[i] * b[i + lag];
    return s / std::sqrt((double)(n - lag));
}

PROPERTY(keys, 600, 20000)
{
    const int N = 8 + c.below(40);
    const bool threads = c.flip();
    c.note("%d keys%s", N, threads ? ", each from its own thread" : "");
    c.label(threads ? "threads" : "one thread");
    c.nontrivial();
    std::vector<std::unique_ptr<SecretKey>> sk(N);
    uint64_t es = c.seed();
    for (int i = 0; i < N; i++) {
        if (threads) pbt::fresh_thread(pbt::hash2(es, i), [&] { sk[i] = std::make_unique<SecretKey>(); });
        else sk[i] = std::make_unique<SecretKey>();
    }
    each_level([&](auto tag) {
        using P = typename decltype(tag)::type;
        std::map<int64_t, uint64_t> cnt;
        std::vector<std::vector<double>> ks;
        std::vector<std::set<int64_t>> at(P::k * P::n);
        for (auto &s : sk) {
            const Key<P> key = s->key.get<P>();
            for (size_t i = 0; i < key.size(); i++) {
                int64_t v = (S<typename P::T>)key[i];
                if (v < (int64_t)P::key_value_min || v > (int64_t)P::key_value_max)
                    c.fail("%s key coefficient %zu is %" PRId64 ", declared range [%d, %d]", pname<P>(), i, v, (int)P::key_value_min, (int)P::key_value_max);
                cnt[v]++;
                at[i].insert(v);
            }
            ks.push_back(normalised<P>(key));
        }
        double total = (double)N * P::k * P::n, m = (double)P::key_value_max - (double)P::key_value_min + 1;
        for (int64_t v = P::key_value_min; v <= (int64_t)P::key_value_max; v++) {
            double d = (cnt[v] - total / m) / std::sqrt(total / m * (1 - 1 / m));
            c.metric(fmt("%s value frequency z", pname<P>()), std::fabs(d));
            if (std::fabs(d) > Z) c.fail("%s: value %" PRId64 " occurs %" PRIu64 " times in %.0f coefficients (z=%.1f)", pname<P>(), v, cnt[v], total, d);
        }
        if (N >= 48 - 1)
            for (size_t i = 0; i < at.size(); i++)
                if (at[i].size() < 2) c.fail("%s: coefficient %zu is the same in all %d keys", pname<P>(), i, N);
        // different keys, and neighbouring coefficients of one key, are unrelated
        double w = 0;
        for (int i = 0; i < N; i++) {
            for (size_t lag = 1; lag <= 4; lag++) {
                double z = corr(ks[i], ks[i], lag);
                w = std::max(w, std::fabs(z));
                if (std::fabs(z) > Z) c.fail("%s: key %d is correlated with itself shifted by %zu (z=%.1f)", pname<P>(), i, lag, z);
            }
            for (int j = 0; j < i; j++) {
                double z = corr(ks[i], ks[j], 0);
                w = std::max(w, std::fabs(z));
                if (std::fabs(z) > Z) c.fail("%s: keys %d and %d are correlated (z=%.1f)", pname<P>(), j, i, z);
            }
        }
        c.metric(fmt("%s correlation z", pname<P>()), w);
    });
    // levels of one key are unrelated
    for (int i = 0; i < std::min(N, 8); i++) {
        std::vector<std::vector<double>> l;
        each_level([&](auto tag) {
            using P = typename decltype(tag)::type;
            l.push_back(normalised<P>(sk[i]->key.get<P>()));
        });
        for (size_t a = 0; a < l.size(); a++)
            for (size_t b = 0; b < a; b++)
                for (int lag = 0; lag < 2; lag++) {
                    double z = corr(l[a], l[b], lag);
                    if (std::fabs(z) > Z) c.fail("the keys of two levels (%zu and %zu) of one secret key are correlated (z=%.1f)", b, a, z);
                }
    }
}

// Mask words of many ciphertexts: uniform in every bit, no repetition.
template <class T>
struct Masks {
    std::vector<T> w;
    std::set<std::array<T, 8>> seen;
    uint64_t n = 0;
    std::array<uint64_t, W<T>> ones{};
    std::array<uint64_t, 256> top{}, low{};
    void add(Case &c, const char *what, const T *p, size_t len)
    {
        std::array<T, 8> h;
        std::copy(p, p + 8, h.begin());
        if (!seen.insert(h).second) c.fail("%s: the mask of an encryption repeats an earlier one", what);
        for (size_t i = 0; i < len; i++) {
            for (int b = 0; b < W<T>; b++) ones[b] += (p[i] >> b) & 1;
            top[(p[i] >> (W<T> - 8)) & 255]++, low[p[i] & 255]++;
        }
        n += len;
    }
    void check(Case &c, const char *what)
    {
        if (n < 4096) return;
        for (int b = 0; b < W<T>; b++) {
            double z = ((double)ones[b] - n / 2.0) / std::sqrt(n / 4.0);
            c.metric("mask bit z", std::fabs(z));
            if (std::fabs(z) > Z) c.fail("%s: bit %d of the mask words is set %" PRIu64 " times in %" PRIu64 " (z=%.1f)", what, b, ones[b], n, z);
        }
        for (auto *t : {&top, &low}) {
            double chi = 0, e = n / 256.0;
            for (auto x : *t) chi += (x - e) * (x - e) / e;
            double z = (chi - 255) / std::sqrt(510.0);
            c.metric("mask byte chi2 z", z);
            if (z > 12) c.fail("%s: %s bytes of the mask words are not uniform (chi2 %.0f)", what, t == &top ? "top" : "low", chi);
        }
    }
};
template <class P>
void mask_case(Case &c)
{
    using T = typename P::T;
    auto sk = std::make_unique<SecretKey>(), sk2 = std::make_unique<SecretKey>();
    auto k1 = std::make_unique<Key<P>>(sk->key.get<P>()), k2 = std::make_unique<Key<P>>(sk2->key.get<P>());
    constexpr bool ring = std::is_same_v<P, lvl1param> || std::is_same_v<P, lvl2param>;
    int api = c.below(ring ? 7 : 3);
    int threads = 1 + c.below(4), per = c.chance(1, 4) ? 40 : 12;
    T msg = c.word<T>();
    uint64_t es = c.seed();
    if (api >= 4) per = 3;
    const char *an[] = {"TLWE", "TLWE int", "bit vector", "TRLWE", "TRGSW", "TRGSW FFT/half", "TRLWE zero"};
    c.note("%s %s message %#" PRIx64 ": %d threads x %d, two keys", pname<P>(), an[api], (uint64_t)msg, threads, per);
    c.label(fmt("%s/%s", pname<P>(), an[api]));
    c.nontrivial();
    Masks<T> m;
    auto tl = [&](const TLWE<P> &x) { m.add(c, an[api], x.data(), P::k * P::n); };
    auto work = [&] {
        for (int q = 0; q < per; q++)
            for (auto *k : {k1.get(), k2.get()}) {
                if (api == 0) tl(q & 1 ? tlweSymEncrypt<P>(msg, *k) : tlweSymEncrypt<P>(msg, alpha<P>(), *k));
                if (api == 1) tl(tlweSymIntEncrypt<P>(msg % P::plain_modulus, *k));
                if (api == 2)
                    for (auto &x : bootsSymEncrypt<P>(std::vector<uint8_t>(1 + q % 4, 1), *k)) tl(x);
                if constexpr (ring) {
                    auto tr = [&](const TRLWE<P> &x) {
                        for (uint32_t j = 0; j < P::k; j++) m.add(c, an[api], x[j].data(), P::n);
                    };
                    auto p = std::make_unique<Polynomial<P>>();
                    (*p)[0] = msg;
                    if (api == 3) tr(q & 1 ? trlweSymEncrypt<P>(*p, *k) : trlweSymEncrypt<P>(*p, alpha<P>(), *k));
                    if (api == 6) tr(trlweSymEncryptZero<P>(*k));
                    if (api == 4) {
                        auto g = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(*p, *k));
                        // component P::k rows carry no message in the mask
                        for (auto &row : *g) {
                            auto r = row;
                            tr(r);
                        }
                    }
                    if (api == 5) {
                        auto g = std::make_unique<HalfTRGSW<P>>(halftrgswSymEncrypt<P>(*p, *k));
                        for (auto &row : *g) tr(row);
                    }
                }
            }
    };
    for (int t = 0; t < threads; t++) {
        if (t == 0) work();
        else pbt::fresh_thread(pbt::hash2(es, t), work);
    }
    m.check(c, an[api]);
}
PROPERTY(masks, 4000, 120000)
{
    switch (c.below(9)) {
    case 0: case 1: return mask_case<lvl0param>(c);
    case 2: case 3: return mask_case<lvlhalfparam>(c);
    case 4: case 5: return mask_case<lvl1param>(c);
    case 6: case 7: return mask_case<lvl2param>(c);
    default: return mask_case<lvl3param>(c);
    }
}
// Evaluation keys are ciphertexts, too: every row of them has a mask of its
// own, uniform, and noise of the configured width.
template <class Row, class X, class F>
static void rows(X &x, F &&f)
{
    if constexpr (std::is_same_v<std::remove_cvref_t<X>, Row>) f(x);
    else
        for (auto &y : x) rows<Row>(y, f);
}
struct S10 : lvl10param {
    static constexpr std::uint32_t t = 3, basebit = 2;
};
struct S21 : lvl21param {
    static constexpr std::uint32_t t = 2, basebit = 2;
};
struct S11 : lvl11param {
    static constexpr std::uint32_t t = 2, basebit = 2;
};
struct P21 : lvl21param {
    static constexpr std::uint32_t t = 2, basebit = 1;
};
static std::unique_ptr<SecretKey> material_key(Case &c)
{
    auto sk = std::make_unique<SecretKey>();
    if (c.chance(1, 3)) sk = std::make_unique<SecretKey>();
    return sk;
}
template <class G>
struct RowCheck {
    using T = typename G::T;
    Masks<T> m;
    std::map<uint64_t, int> fd;
    Err noise;
    uint64_t n = 0;
    const char *what;
    Case &c;
    RowCheck(Case &c, const char *what) : what(what), c(c) {}
    void mask(const T *p, size_t len)
    {
        m.add(c, what, p, n++ % 16 ? 8 : len);
    }
    void body(T ph, T want) { noise.add(dist<T>(ph, want)); }
    // any representation: equal leading words mean an equal mask
    void opaque(const void *p)
    {
        uint64_t w[8], h = 0;
        memcpy(w, p, sizeof w);
        for (auto x : w) h = pbt::hash2(h, x);
        n++;
        if (fd[h]++) c.fail("%s: the mask of a row repeats an earlier one", what);
    }
    void done(double sigma = -1)
    {
        m.check(c, what);
        if (noise.e.size()) noise_law<G>(c, what, noise, sigma < 0 ? alpha<G>() : sigma);
        c.metric("rows", (double)n);
    }
};
template <class P>
static void material_iks(Case &c, const char *what, bool sub)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    using T = typename G::T;
    auto sk = material_key(c);
    auto dk = std::make_unique<Key<D>>(sk->key.get<D>());
    auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
    RowCheck<G> r(c, what);
    Bulk b(c.seed());
    auto row = [&](const TLWE<G> &x, T want) {
        r.mask(x.data(), G::k * G::n);
        if (b.below(8) == 0) r.body(ref_phase<G>(x, *tk), want);
    };
    auto weight = [&](uint32_t i, int j, uint32_t k) { return (T)((T)(S<typename D::T>)(*dk)[i] * (T)(k + 1) << (W<T> - (j + 1) * P::basebit)); };
    if (!sub) {
        auto ksk = big<KeySwitchingKey<P>>();
        ikskgen<P>(*ksk, *sk);
        for (uint32_t i = 0; i < ksk->size(); i++)
            for (uint32_t j = 0; j < (*ksk)[i].size(); j++)
                for (uint32_t k = 0; k < (*ksk)[i][j].size(); k++) row((*ksk)[i][j][k], weight(i, j, k));
    }
    else if constexpr (std::is_same_v<P, S21>) {
        auto ksk = big<SubsetKeySwitchingKey<P>>();
        subikskgen<P>(*ksk, *sk);
        for (uint32_t i = 0; i < G::k * G::n; i++) (*tk)[i] = (T)(S<typename D::T>)(*dk)[i];
        for (uint32_t i = 0; i < ksk->size(); i++)
            for (uint32_t j = 0; j < (*ksk)[i].size(); j++)
                for (uint32_t k = 0; k < (*ksk)[i][j].size(); k++) row((*ksk)[i][j][k], weight(G::k * G::n + i, j, k));
    }
    r.done(alpha_tlwe<G>());
}
// rows that are TRLWE samples of a polynomial whose coefficients above the
// constant one are zero
template <class P, class K>
static void ring_rows(Case &c, RowCheck<P> &r, const K &k, const Key<P> &key, bool gadget)
{
    Bulk b(c.seed());
    uint32_t i = 0;
    rows<TRLWE<P>>(k, [&](const TRLWE<P> &x) {
        // a gadget's mask rows carry the message in the mask
        bool pure = !gadget || i++ % ((P::k + 1) * P::l) >= P::k * P::l;
        for (uint32_t q = 0; q < P::k; q++) r.mask(x[q].data(), P::n);
        if (pure && b.below(std::max<uint32_t>(1, 24)) == 0) {
            auto ph = ref_phase<P>(x, key);
            for (uint32_t q = 1; q < P::n; q++) r.body(ph[q], 0);
        }
    });
    r.done();
}
template <class P>
static void material_bk(Case &c, const char *what)
{
    using G = typename P::targetP;
    auto sk = material_key(c);
    auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
    RowCheck<G> r(c, what);
    int form = c.below(4);
    c.label(fmt("%s form %d", what, form));
    if (form == 0) {
        auto bk = big<BootstrappingKey<P>>();
        bkgen<P>(*bk, *sk);
        ring_rows<G>(c, r, *bk, *tk, true);
    }
    else if (form == 1) {
        auto bk = big<BootstrappingKeyFFT<P>>();
        bkfftgen<P>(*bk, *sk);
        auto p = std::make_unique<Polynomial<G>>();
        Bulk b(c.seed());
        rows<TRLWEInFD<G>>(*bk, [&](TRLWEInFD<G> &x) {
            r.opaque(x[0].data());
            // the lowest bits are lost to the transform's rounding
            if (sizeof(typename G::T) == 4 && b.below(8) == 0) {
                TwistFFT<G>(*p, x[0]);
                r.m.add(c, what, p->data(), G::n);
            }
        });
        r.done();
    }
    else if (form == 2) {
        auto bk = big<BootstrappingKeyNTT<P>>();
        bknttgen<P>(*bk, *sk);
        rows<TRLWENTT<G>>(*bk, [&](TRLWENTT<G> &x) { r.opaque(x[0].data()); });
        r.done();
    }
    else if constexpr (std::is_same_v<typename G::T, uint32_t>) {
        auto bk = big<BootstrappingKeyRAINTT<P>>();
        bkrainttgen<P>(*bk, *sk);
        rows<TRLWERAINTT<G>>(*bk, [&](TRLWERAINTT<G> &x) { r.opaque(x[0].data()); });
        r.done();
    }
}
PROPERTY(key_material, 120, 3000)
{
    const int kind = c.below(14);
    const char *names[] = {"iksk 10", "iksk 1h", "iksk 21 (short)", "iksk 11 (short)", "iksk 10 (short)", "subset iksk 21 (short)", "bk 01", "bk h1", "private ksk 11 (short)", "private ksk 21 (short)", "subset private ksk 21 (short)", "TLWE to TRLWE ksk 11 (short)", "relinearisation key", "annihilation key"};
    const char *what = names[kind];
    const bool team = c.chance(1, 3);
    omp_set_num_threads(team ? 3 : 1);
    c.note("%s%s", what, team ? ", three OpenMP threads" : "");
    c.label(what);
    c.nontrivial();
    // a polynomial with a constant coefficient only, so that the others are noise
    switch (kind) {
    case 0: return material_iks<lvl10param>(c, what, false);
    case 1: return material_iks<lvl1hparam>(c, what, false);
    case 2: return material_iks<S21>(c, what, false);
    case 3: return material_iks<S11>(c, what, false);
    case 4: return material_iks<S10>(c, what, false);
    case 5: return material_iks<S21>(c, what, true);
    case 6: return material_bk<lvl01param>(c, what);
    case 7: return material_bk<lvlh1param>(c, what);
    case 8: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
        auto k = big<PrivateKeySwitchingKey<S11>>();
        auto f = std::make_unique<Polynomial<G>>();
        (*f)[0] = c.word<typename G::T>();
        privkskgen<S11>(*k, *f, *sk);
        RowCheck<G> r(c, what);
        return ring_rows<G>(c, r, *k, *tk, false);
    }
    case 9: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
        auto k = big<PrivateKeySwitchingKey<P21>>();
        auto f = std::make_unique<Polynomial<G>>();
        (*f)[0] = c.word<typename G::T>();
        privkskgen<P21>(*k, *f, *sk);
        RowCheck<G> r(c, what);
        return ring_rows<G>(c, r, *k, *tk, false);
    }
    case 10: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
        auto k = big<SubsetPrivateKeySwitchingKey<P21>>();
        auto f = std::make_unique<Polynomial<G>>();
        (*f)[0] = c.word<typename G::T>();
        subprivkskgen<P21>(*k, *f, *sk);
        RowCheck<G> r(c, what);
        return ring_rows<G>(c, r, *k, *tk, false);
    }
    case 11: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
        auto k = big<TLWE2TRLWEIKSKey<S11>>();
        tlwe2trlweikskgen<S11>(*k, *sk);
        RowCheck<G> r(c, what);
        return ring_rows<G>(c, r, *k, *tk, false);
    }
    case 12: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto tk = std::make_unique<Key<G>>(sk->key.get<G>());
        RowCheck<G> r(c, what);
        for (int q = 0; q < 4; q++) {
            auto k = std::make_unique<relinKey<G>>(relinKeygen<G>(*tk));
            rows<TRLWE<G>>(*k, [&](const TRLWE<G> &x) { r.mask(x[0].data(), G::n); });
        }
        return r.done();
    }
    default: {
        using G = lvl1param;
        auto sk = material_key(c);
        auto k = big<AnnihilateKey<G>>();
        annihilatekeygen<G>(*k, *sk);
        RowCheck<G> r(c, what);
        rows<TRLWEInFD<G>>(*k, [&](TRLWEInFD<G> &x) { r.opaque(x[0].data()); });
        return r.done();
    }
    }
}
// A long history of one thread: no stretch of its random words ever returns.
// Places are sampled by content, so a repetition is found at any distance and
// alignment.
struct Stretches {
    std::unordered_set<uint64_t> seen;
    uint64_t words = 0;
    template <class T>
    bool repeats(const T *p, size_t n)
    {
        constexpr size_t L = 192 / W<T>;  // 192 bits identify a place
        words += n;
        for (size_t i = 0; i + L <= n; i++) {
            if (pbt::mix64(p[i]) & 63) continue;
            uint64_t h = sizeof(T);
            for (size_t j = 0; j < L; j++) h = pbt::hash2(h, p[i + j]);
            if (!seen.insert(h).second) return true;
            i += L;
        }
        return false;
    }
};
PROPERTY(long_history, 12, 24)
{
    auto sk = std::make_unique<SecretKey>();
    auto k1 = std::make_unique<Key<lvl1param>>(sk->key.get<lvl1param>());
    auto k2 = std::make_unique<Key<lvl2param>>(sk->key.get<lvl2param>());
    auto kh = std::make_unique<Key<lvlhalfparam>>(sk->key.get<lvlhalfparam>());
    const uint64_t target = (c.thorough ? 1ull << 26 : 1ull << 22) << c.below(c.thorough ? 3 : 4);
    const int mix = c.below(4);
    Stretches s;
    c.note("%" PRIu64 " million mask words by one thread, %s", target >> 20, (const char *[]){"TLWE", "TRLWE", "64-bit TRLWE", "all kinds"}[mix]);
    c.label(fmt("2^%d words", (int)std::log2(target)));
    c.nontrivial();
    Bulk b(c.seed());
    while (s.words < target) {
        bool rep = false;
        switch (mix < 3 ? mix : (int)b.below(5)) {
        case 0: rep = s.repeats(tlweSymEncrypt<lvl1param>(0, *k1).data(), lvl1param::k * lvl1param::n); break;
        case 1: {
            auto x = trlweSymEncryptZero<lvl1param>(*k1);
            rep = s.repeats(x[0].data(), lvl1param::n);
            break;
        }
        case 2: {
            auto x = trlweSymEncryptZero<lvl2param>(*k2);
            rep = s.repeats(x[0].data(), lvl2param::n);
            break;
        }
        case 3: {
            auto g = std::make_unique<TRGSW<lvl1param>>(trgswSymEncrypt<lvl1param>(Polynomial<lvl1param>{}, *k1));
            for (auto &x : *g) rep |= s.repeats(x[0].data(), lvl1param::n);
            break;
        }
        default: rep = s.repeats(tlweSymEncrypt<lvlhalfparam>(0, *kh).data(), lvlhalfparam::k * lvlhalfparam::n);
        }
        if (rep) c.fail("after %" PRIu64 " words the masks return to an earlier stretch", s.words);
    }
}

// Noise of one encryption is unrelated to the noise of the next, to the mask
// and to other threads.
PROPERTY(noise_independent, 600, 20000)
{
    using P = lvl1param;
    auto sk = std::make_unique<SecretKey>();
    auto key = std::make_unique<Key<P>>(sk->key.get<P>());
    uint64_t es = c.seed();
    bool th = c.flip();
    c.note("noise of consecutive TRLWE encryptions, threads=%d", th);
    c.nontrivial();
    std::vector<std::vector<double>> e(6);
    for (size_t t = 0; t < e.size(); t++) {
        auto f = [&] {
            TRLWE<P> x = trlweSymEncryptZero<P>(*key);
            auto ph = ref_phase<P>(x, *key);
            double s2 = 0;
            for (auto v : ph) e[t].push_back(real(v)), s2 += real(v) * real(v);
            double s = std::sqrt(s2 / P::n);
            for (auto &v : e[t]) v /= s > 0 ? s : 1;
        };
        if (th) pbt::fresh_thread(pbt::hash2(es, t), f);
        else f();
    }
    for (size_t i = 0; i < e.size(); i++) {
        for (size_t j = 0; j < i; j++)
            if (std::fabs(corr(e[i], e[j], 0)) > Z) c.fail("noise polynomials %zu and %zu are correlated (z=%.1f)", j, i, corr(e[i], e[j], 0));
        for (int l = 1; l < 4; l++)
            if (std::fabs(corr(e[i], e[i], l)) > Z) c.fail("noise coefficients at distance %d are correlated (z=%.1f)", l, corr(e[i], e[i], l));
    }
}

// Where the randomness comes from: it must be a function of the words of the
// system entropy source, and depend on at least 8 of them (256 bits).
struct Src {
    uint64_t key;
    int64_t flip;
    uint32_t bit;
    uint64_t used = 0;
};
static uint32_t src_word(void *u, uint64_t i)
{
    Src *s = (Src *)u;
    s->used = std::max(s->used, i + 1);
    uint32_t w = (uint32_t)pbt::hash2(s->key, i);
#ifdef USE_RANDEN
    return (int64_t)i == s->flip ? w ^ (1u << s->bit) : w;
#else
    // the source's words are used directly, some bits of some not at all
    return (int64_t)i == s->flip ? ~w : w;
#endif
}
template <class F>
static uint64_t with_entropy(Src &s, F f)
{
    uint64_t h = 0;
    pbt::fresh_thread(1, [&] {
        pbt::entropy_override(src_word, &s);
        h = f();
        pbt::entropy_override(nullptr, nullptr);
    });
    return h;
}
template <class V>
static uint64_t digest(const V &v, uint64_t h = 0)
{
    for (auto x : v) h = pbt::hash2(h, (uint64_t)x);
    return h;
}
template <class R>
static uint64_t digest_all(const R &r)
{
    uint64_t h = 0;
    for (auto &p : r) h = digest(p, h);
    return h;
}
PROPERTY(entropy, 1500, 40000)
{
    auto key1 = std::make_unique<Key<lvl1param>>();
    auto key0 = std::make_unique<Key<lvl0param>>();
    auto key2 = std::make_unique<Key<lvl2param>>();
    Bulk b(c.seed());
    for (auto &v : *key0) v = b.below(2);
    for (auto &v : *key1) v = b.below(2);
    for (auto &v : *key2) v = b.below(2);
    int what = c.below(8);
    const char *names[] = {"secret key", "TLWE lvl0", "TLWE lvl1", "TRLWE lvl1", "TRLWE lvl2", "TRGSW lvl1", "TLWE lvl1 explicit noise", "bit vector lvl0"};
    auto gen = [&]() -> uint64_t {
        switch (what) {
        case 0: {
            auto sk = std::make_unique<SecretKey>();
            uint64_t h = 0;
            each_level([&](auto tag) {
                using P = typename decltype(tag)::type;
                h = digest(sk->key.get<P>(), h);
            });
            return h;
        }
        case 1: return digest(tlweSymEncrypt<lvl0param>(5, *key0));
        case 2: return digest(tlweSymEncrypt<lvl1param>(5, *key1));
        case 3: return digest_all(trlweSymEncryptZero<lvl1param>(*key1));
        case 4: return digest_all(trlweSymEncryptZero<lvl2param>(*key2));
        case 5: return digest_all((*std::make_unique<TRGSW<lvl1param>>(trgswSymEncrypt<lvl1param>({1}, *key1)))[0]);
        case 6: return digest(tlweSymEncrypt<lvl1param>(5, 1e-6, *key1));
        default: return digest(bootsSymEncrypt<lvl0param>({1}, *key0)[0]);
        }
    };
    Src s{c.u64(), -1, 0};
    c.note("%s", names[what]);
    c.label(names[what]);
    c.nontrivial();
    uint64_t h0 = with_entropy(s, gen), used = s.used;
    Src again{s.key, -1, 0};
    if (with_entropy(again, gen) != h0) c.fail("%s: the same entropy gives different results: other sources of randomness are used", names[what]);
    if (used < 8) c.fail("%s draws only %d words from the entropy source", names[what], (int)used);
#ifndef USE_RANDEN
    // words come straight from the source: most of them are noise words whose single bits need not show
    Src other{~s.key, -1, 0};
    if (with_entropy(other, gen) == h0) c.fail("%s: different entropy gives equal results", names[what]);
    return;
#endif
    uint32_t bit = c.below(32);
    int sensitive = 0;
    std::set<uint64_t> results{h0};
    uint64_t probes = std::min<uint64_t>(used, 40);
    for (uint64_t i = 0; i < probes; i++) {
        Src f{s.key, (int64_t)(i * used / probes), bit};
        uint64_t h = with_entropy(f, gen);
        if (h != h0) sensitive++;
        results.insert(h);
    }
    c.metric(fmt("%s: -sensitive words", names[what]), -sensitive);
    if (sensitive < 8) c.fail("%s depends on only %d words of the entropy source", names[what], sensitive);
    if (results.size() != (size_t)sensitive + 1) c.fail("%s: different entropy gives equal results", names[what]);
}
