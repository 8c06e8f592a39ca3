// C23: the evaluation key as a registry. Oracle: a model that maps every slot
// (kind, level, name) of every copy to the material generated last, its words
// and the secret key it belongs to; material is judged by using it.
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

#include "boot.hpp"
using namespace tf;

// ---- words -------------------------------------------------------------------
static uint64_t digest(const void *p, size_t n, size_t stride)
{
    const char *b = (const char *)p;
    uint64_t h[4] = {1, 2, 3, 4}, w;
    size_t i = 0, k = 0;
    for (; i + 8 <= n; i += stride, k++) {
        memcpy(&w, b + i, 8);
        h[k & 3] = (h[k & 3] ^ w) * 0x9e3779b97f4a7c15ull;
        h[k & 3] ^= h[k & 3] >> 29;
    }
    if (n >= 8) memcpy(&w, b + n - 8, 8), h[0] = pbt::hash2(h[0], w);
    return pbt::hash2(pbt::hash2(h[0], h[1]), pbt::hash2(h[2], h[3]));
}
static const size_t COARSE = 4096 * 8 + 8;

struct Material {
    int sk = 0;
    std::vector<uint64_t> func;  // private keys: the secret polynomial
    const void *p = nullptr;
    size_t n = 0;
    uint64_t coarse = 0, fine = 0;
    void seen(const void *q, size_t m) { p = q, n = m, coarse = digest(q, m, COARSE), fine = digest(q, m, 8); }
};
struct World {
    std::vector<std::unique_ptr<SecretKey>> sk;
};

// ---- does a key belong to the secret key? --------------------------------------
// coarse limits: a wrong key gives phases all over the torus
template <class P>
static void judge_bit(Case &c, const char *what, uint32_t i, const TRLWE<P> &r, const Key<P> &key, typename P::T bit, typename P::T amp)
{
    auto ph = ref_phase<P>(r, key);
    for (uint32_t j = 0; j < P::n; j++) {
        double e = dist<typename P::T>(ph[j], j ? 0 : (typename P::T)(bit * amp));
        if (std::fabs(e) > 1.0 / 32) c.fail("%s is not valid for its secret key: element %u, phase coefficient %u is off by 2^%.1f", what, i, j, std::log2(std::fabs(e)));
    }
}
template <class P>
static std::vector<uint32_t> gen_elements(Case &c)
{
    std::vector<uint32_t> v{0, P::domainP::k * P::domainP::n - 1};
    for (int i = 0; i < 4; i++) v.push_back(c.below(P::domainP::k * P::domainP::n));
    return v;
}
// what entry j of element i of a bootstrapping key encrypts: an indicator of
// each nonzero value of a key word, or of a pair's (1,1), (1,0), (0,1)
template <class P>
constexpr uint32_t n_entries() { return P::Addends == 2 ? 3 : P::domainP::key_value_diff; }
template <class P>
static typename P::targetP::T entry_bit(const Key<typename P::domainP> &dk, uint32_t i, uint32_t j)
{
    using D = typename P::domainP;
    if constexpr (P::Addends == 2) {
        bool a = dk[2 * i], b = dk[2 * i + 1];
        return j == 0 ? a && b : j == 1 ? a && !b : !a && b;
    }
    else {
        int v = D::key_value_min;
        for (uint32_t k = 0;; v++)
            if (v != 0 && k++ == j) break;
        return (std::make_signed_t<typename D::T>)dk[i] == v;
    }
}
template <class P>
static void valid_bkfft(Case &c, const BootstrappingKeyFFT<P> &bk, const SecretKey &sk, const char *what)
{
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<typename P::domainP>>(sk.key.get<typename P::domainP>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    TRLWE<G> x{}, r;
    const typename G::T amp = (typename G::T)1 << (W<typename G::T> - 2);
    x[G::k][0] = amp;
    for (uint32_t i : gen_elements<P>(c)) {
        i /= P::Addends;
        for (uint32_t j = 0; j < n_entries<P>(); j++) {
            trgswfftExternalProduct<G>(r, x, bk[i][j]);
            judge_bit<G>(c, what, i, r, *tk, entry_bit<P>(*dk, i, j), amp);
        }
    }
    if (c.flip()) return;
    // and as a whole: a bootstrapping
    using D = typename P::domainP;
    bool m = c.flip();
    TLWE<D> in = tlweSymEncrypt<D>(m ? (typename D::T)1 << (W<typename D::T> - 2) : 0 - ((typename D::T)1 << (W<typename D::T> - 2)), *dk);
    TLWE<G> out;
    Polynomial<G> tv;
    tv.fill(amp / 2);
    GateBootstrappingTLWE2TLWEFFT<P>(out, in, bk, tv);
    double e = dist<typename G::T>(ref_phase<G>(out, *tk), m ? amp / 2 : 0 - amp / 2);
    if (std::fabs(e) > 1.0 / 32) c.fail("bootstrapping with %s is off by 2^%.1f", what, std::log2(std::fabs(e)));
}
template <class P>
static void valid_bk(Case &c, const BootstrappingKey<P> &bk, const SecretKey &sk, const char *what)
{
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<typename P::domainP>>(sk.key.get<typename P::domainP>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    TRLWE<G> x{}, r;
    const typename G::T amp = (typename G::T)1 << (W<typename G::T> - 2);
    x[G::k][0] = amp;
    for (uint32_t i : gen_elements<P>(c)) {
        i /= P::Addends;
        for (uint32_t j = 0; j < n_entries<P>(); j++) {
            alignas(64) TRGSWFFT<G> f = ApplyFFT2trgsw<G>(bk[i][j]);
            trgswfftExternalProduct<G>(r, x, f);
            judge_bit<G>(c, what, i, r, *tk, entry_bit<P>(*dk, i, j), amp);
        }
    }
}
template <class P>
static void valid_bkntt(Case &c, const BootstrappingKeyNTT<P> &bk, const SecretKey &sk, const char *what)
{
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<typename P::domainP>>(sk.key.get<typename P::domainP>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    TRLWE<G> x{}, r;
    const typename G::T amp = (typename G::T)1 << (W<typename G::T> - 2);
    x[G::k][0] = amp;
    for (uint32_t i : gen_elements<P>(c)) {
        trgswnttExternalProduct<G>(r, x, bk[i]);
        judge_bit<G>(c, what, i, r, *tk, (*dk)[i], amp);
    }
}
template <class P>
static void valid_iksk(Case &c, const KeySwitchingKey<P> &k, const SecretKey &sk, const char *what)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<D>>(sk.key.get<D>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    Bound b = ks_noise<P>(*dk);
    if (b.limit() > 0.25) c.discard();
    Bulk bulk(c.seed());
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TLWE<G>>();
    for (int i = 0; i < 8; i++) {
        *x = make_tlwe<D>(bulk, (typename D::T)bulk.next(), *dk);
        IdentityKeySwitch<P>(*r, *x, k);
        double e = real<typename G::T>(ref_phase<G>(*r, *tk)) - real<typename D::T>(ref_phase<D>(*x, *dk));
        e -= std::round(e);
        if (!(std::fabs(e) <= b.limit())) c.fail("%s is not valid for its secret key: phase off by 2^%.1f, limit 2^%.1f", what, std::log2(std::fabs(e)), std::log2(b.limit()));
    }
}
static void valid_subiksk(Case &c, const SubsetKeySwitchingKey<lvl21param> &k, const SecretKey &sk, const char *what)
{
    using G = lvl1param;
    auto dk = std::make_unique<Key<lvl2param>>(sk.key.get<lvl2param>());
    Key<G> tk;
    for (uint32_t i = 0; i < G::k * G::n; i++) tk[i] = (G::T)(*dk)[i];
    Bulk bulk(c.seed());
    auto x = std::make_unique<TLWE<lvl2param>>();
    TLWE<G> r;
    for (int i = 0; i < 8; i++) {
        *x = make_tlwe<lvl2param>(bulk, bulk.next(), *dk);
        SubsetIdentityKeySwitch<lvl21param>(r, *x, k);
        double e = real<G::T>(ref_phase<G>(r, tk)) - real<lvl2param::T>(ref_phase<lvl2param>(*x, *dk));
        e -= std::round(e);
        if (std::fabs(e) > 1.0 / 64) c.fail("%s is not valid for its secret key: phase off by 2^%.1f", what, std::log2(std::fabs(e)));
    }
}
template <class D, class G>
static void judge_private(Case &c, const char *what, const TRLWE<G> &r, const TLWE<D> &x, const Key<D> &dk, const Key<G> &tk, const std::vector<uint64_t> &func)
{
    // inputs are multiples of 1/4, so products with a small polynomial are exact
    auto ph = ref_phase<G>(r, tk);
    typename D::T m = ref_phase<D>(x, dk);
    for (uint32_t j = 0; j < G::n; j++) {
        typename G::T q = (typename G::T)(m >> (W<typename D::T> - 2)) << (W<typename G::T> - 2);
        double e = dist<typename G::T>(ph[j], (typename G::T)(q * (typename G::T)func[j]));
        if (std::fabs(e) > 1.0 / 16) c.fail("%s is not valid for its secret key and polynomial: phase coefficient %u is off by 2^%.1f", what, j, std::log2(std::fabs(e)));
    }
}
template <class P>
static void valid_privksk(Case &c, const PrivateKeySwitchingKey<P> &k, const SecretKey &sk, const std::vector<uint64_t> &func, const char *what)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto dk = std::make_unique<Key<D>>(sk.key.get<D>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    Bulk bulk(c.seed());
    auto x = std::make_unique<TLWE<D>>();
    auto r = std::make_unique<TRLWE<G>>();
    for (int i = 1; i < 3; i++) {
        *x = make_tlwe<D>(bulk, (typename D::T)i << (W<typename D::T> - 2), *dk);
        PrivKeySwitch<P>(*r, *x, k);
        judge_private<D, G>(c, what, *r, *x, *dk, *tk, func);
    }
}
static void valid_subprivksk(Case &c, const SubsetPrivateKeySwitchingKey<lvl21param> &k, const SecretKey &sk, const std::vector<uint64_t> &func, const char *what)
{
    using G = lvl1param;
    auto k2 = std::make_unique<Key<lvl2param>>(sk.key.get<lvl2param>());
    auto tk = std::make_unique<Key<G>>(sk.key.get<G>());
    Key<G> head;
    for (uint32_t i = 0; i < G::k * G::n; i++) head[i] = (G::T)(*k2)[i];
    Bulk bulk(c.seed());
    TLWE<G> x;
    TRLWE<G> r;
    for (int i = 1; i < 3; i++) {
        x = make_tlwe<G>(bulk, (G::T)i << (W<G::T> - 2), head);
        SubsetPrivKeySwitch<lvl21param>(r, x, k);
        judge_private<G, G>(c, what, r, x, head, *tk, func);
    }
}

// ---- kinds of material ----------------------------------------------------------
struct Slot {
    int kind;
    std::string name;
    bool operator<(const Slot &o) const { return std::tie(kind, name) < std::tie(o.kind, o.name); }
};
struct Kind {
    std::string name;
    size_t size;
    double cost;  // seconds
    bool named;
    int converts_from;  // kind, or -1
    std::function<void(EvalKey &, const SecretKey &, const std::string &, const std::vector<uint64_t> &)> emplace;
    std::function<const void *(const EvalKey &, const std::string &)> get;
    std::function<void(Case &, const EvalKey &, const std::string &, const SecretKey &, const std::vector<uint64_t> &)> valid;
    std::function<void(EvalKey &)> convert;
    std::function<std::vector<uint64_t>(Case &, const SecretKey &)> func;
    std::function<void(EvalKey &, const SecretKey &)> cb;  // both halves for circuit bootstrapping
    std::function<std::vector<uint64_t>(const SecretKey &, int)> cbfunc;
    const char *cbname = nullptr;
    int cbparts = 0;
};
static std::vector<Kind> &kinds();

template <class G>
static std::vector<uint64_t> gen_func(Case &c, const SecretKey &sk)
{
    Polynomial<G> f;
    if (c.chance(1, 4)) {
        auto key = std::make_unique<Key<G>>(sk.key.get<G>());
        f = keypart<G>(*key, c.below(G::k));
    }
    else
        gen_small(c, f, 1, -1);
    std::vector<uint64_t> v;
    for (auto w : f) v.push_back((uint64_t)(int64_t)(S<typename G::T>)w);
    return v;
}
template <class G>
static Polynomial<G> to_poly(const std::vector<uint64_t> &v)
{
    Polynomial<G> f;
    for (uint32_t i = 0; i < G::n; i++) f[i] = (typename G::T)v[i];
    return f;
}
template <class G>
static std::vector<uint64_t> cb_func(const SecretKey &sk, int part)
{
    std::vector<uint64_t> v(G::n, 0);
    auto key = std::make_unique<Key<G>>(sk.key.get<G>());
    if (part == (int)G::k)
        v[0] = 1;
    else
        for (uint32_t i = 0; i < G::n; i++) v[i] = 0 - (uint64_t)(int64_t)(S<typename G::T>)(*key)[part * G::n + i];
    return v;
}
using Fn = const std::vector<uint64_t> &;
using Nm = const std::string &;
template <class P>
static void add_bk(std::vector<Kind> &v, const char *p, double cost)
{
    int at = v.size();
    v.push_back({fmt("bk %s", p), sizeof(BootstrappingKey<P>), cost, false, -1, [](EvalKey &e, const SecretKey &s, Nm, Fn) { e.emplacebk<P>(s); },
                 [](const EvalKey &e, Nm) -> const void * { return &e.getbk<P>(); },
                 [](Case &c, const EvalKey &e, Nm, const SecretKey &s, Fn) { valid_bk<P>(c, e.getbk<P>(), s, "bk"); }, {}, {}, {}, {}});
    v.push_back({fmt("bkfft %s", p), sizeof(BootstrappingKeyFFT<P>), cost, false, at, [](EvalKey &e, const SecretKey &s, Nm, Fn) { e.emplacebkfft<P>(s); },
                 [](const EvalKey &e, Nm) -> const void * { return &e.getbkfft<P>(); },
                 [](Case &c, const EvalKey &e, Nm, const SecretKey &s, Fn) { valid_bkfft<P>(c, e.getbkfft<P>(), s, "bkfft"); },
                 [](EvalKey &e) { e.emplacebk2bkfft<P>(); }, {}, {}, {}});
    // keys with several entries per element are not converted (see known_findings)
    v.push_back({fmt("bkntt %s", p), sizeof(BootstrappingKeyNTT<P>), cost * 1.5, false, n_entries<P>() == 1 ? at : -1, [](EvalKey &e, const SecretKey &s, Nm, Fn) { e.emplacebkntt<P>(s); },
                 [](const EvalKey &e, Nm) -> const void * { return &e.getbkntt<P>(); },
                 [](Case &c, const EvalKey &e, Nm, const SecretKey &s, Fn) { valid_bkntt<P>(c, e.getbkntt<P>(), s, "bkntt"); },
                 [](EvalKey &e) { e.emplacebk2bkntt<P>(); }, {}, {}, {}});
}
template <class P>
static void add_iksk(std::vector<Kind> &v, const char *p, double cost)
{
    v.push_back({fmt("iksk %s", p), sizeof(KeySwitchingKey<P>), cost, false, -1, [](EvalKey &e, const SecretKey &s, Nm, Fn) { e.emplaceiksk<P>(s); },
                 [](const EvalKey &e, Nm) -> const void * { return &e.getiksk<P>(); },
                 [](Case &c, const EvalKey &e, Nm, const SecretKey &s, Fn) { valid_iksk<P>(c, e.getiksk<P>(), s, "iksk"); }, {}, {}, {}, {}});
}
template <class P>
static void add_privksk(std::vector<Kind> &v, const char *p, double cost)
{
    using G = typename P::targetP;
    v.push_back({fmt("privksk %s", p), sizeof(PrivateKeySwitchingKey<P>), cost, true, -1,
                 [](EvalKey &e, const SecretKey &s, Nm n, Fn f) { e.emplaceprivksk<P>(n, to_poly<G>(f), s); },
                 [](const EvalKey &e, Nm n) -> const void * { return &e.getprivksk<P>(n); },
                 [](Case &c, const EvalKey &e, Nm n, const SecretKey &s, Fn f) { valid_privksk<P>(c, e.getprivksk<P>(n), s, f, "privksk"); }, {}, gen_func<G>,
                 [](EvalKey &e, const SecretKey &s) { e.emplaceprivksk4cb<P>(s); }, cb_func<G>, "privksk4cb_", (int)G::k + 1});
}
static std::vector<Kind> &kinds()
{
    static std::vector<Kind> v = [] {
        std::vector<Kind> v;
        add_bk<lvl01param>(v, "lvl01", 0.4);
        add_bk<lvlh1param>(v, "lvlh1", 0.4);
        add_bk<lvl02param>(v, "lvl02", 2.4);
        add_bk<lvlh2param>(v, "lvlh2", 2.5);
        add_iksk<lvl10param>(v, "lvl10", 0.1);
        add_iksk<lvl1hparam>(v, "lvl1h", 0.4);
        add_iksk<lvl20param>(v, "lvl20", 0.2);
        add_iksk<lvl2hparam>(v, "lvl2h", 0.3);
        add_iksk<lvl21param>(v, "lvl21", 0.9);
        add_iksk<lvl22param>(v, "lvl22", 4);
        add_iksk<lvl31param>(v, "lvl31", 1.5);
        v.push_back({"subiksk lvl21", sizeof(SubsetKeySwitchingKey<lvl21param>), 0.8, false, -1, [](EvalKey &e, const SecretKey &s, Nm, Fn) { e.emplacesubiksk<lvl21param>(s); },
                     [](const EvalKey &e, Nm) -> const void * { return &e.getsubiksk<lvl21param>(); },
                     [](Case &c, const EvalKey &e, Nm, const SecretKey &s, Fn) { valid_subiksk(c, e.getsubiksk<lvl21param>(), s, "subiksk"); }, {}, {}, {}, {}});
        v.push_back({"subprivksk lvl21", sizeof(SubsetPrivateKeySwitchingKey<lvl21param>), 5, true, -1,
                     [](EvalKey &e, const SecretKey &s, Nm n, Fn f) { e.emplacesubprivksk<lvl21param>(n, to_poly<lvl1param>(f), s); },
                     [](const EvalKey &e, Nm n) -> const void * { return &e.getsubprivksk<lvl21param>(n); },
                     [](Case &c, const EvalKey &e, Nm n, const SecretKey &s, Fn f) { valid_subprivksk(c, e.getsubprivksk<lvl21param>(n), s, f, "subprivksk"); }, {},
                     gen_func<lvl1param>, [](EvalKey &e, const SecretKey &s) { e.emplacesubprivksk4cb<lvl21param>(s); }, cb_func<lvl1param>, "subprivksk4cb_",
                     (int)lvl1param::k + 1});
        add_privksk<lvl11param>(v, "lvl11", 4.5);
        add_privksk<lvl21param>(v, "lvl21", 6);
        add_privksk<lvl22param>(v, "lvl22", 40);
        return v;
    }();
    return v;
}

// ---- the model -------------------------------------------------------------------
struct Reg {
    EvalKey ek;
    std::map<Slot, Material> model;
};
static std::string gen_name(Case &c)
{
    static const char *n[] = {"privksk4cb_0", "privksk4cb_1", "subprivksk4cb_0", "subprivksk4cb_1", "identity", "a", "b", ""};
    return n[c.below(8)];
}
static void check_slot(Case &c, const Reg &r, const Slot &s, const Material &m, bool fine, const char *when)
{
    const Kind &k = kinds()[s.kind];
    const void *p = k.get(r.ek, s.name);
    if (digest(p, m.n, COARSE) != m.coarse || (fine && digest(p, m.n, 8) != m.fine))
        c.fail("%s \"%s\" is not what was generated last (after %s)", k.name.c_str(), s.name.c_str(), when);
}
static void check_missing(Case &c, const Reg &r)
{
    for (size_t i = 0; i < kinds().size(); i++) {
        if (!kinds()[i].named) continue;
        for (const std::string &n : {gen_name(c), std::string("never"), std::string("privksk4cb_9")}) {
            if (r.model.count({(int)i, n})) continue;
            bool threw = false;
            try {
                kinds()[i].get(r.ek, n);
            }
            catch (std::exception &) {
                threw = true;
            }
            if (!threw) c.fail("%s \"%s\" was never generated, but looking it up is not an error", kinds()[i].name.c_str(), n.c_str());
        }
    }
}
static void check_all(Case &c, const std::vector<std::unique_ptr<Reg>> &regs, bool fine, const char *when)
{
    for (auto &r : regs) {
        if (!r) continue;
        for (auto &[s, m] : r->model) check_slot(c, *r, s, m, fine, when);
        check_missing(c, *r);
    }
}
static void validate(Case &c, const World &w, const Reg &r, const Slot &s)
{
    const Material &m = r.model.at(s);
    kinds()[s.kind].valid(c, r.ek, s.name, *w.sk[m.sk], m.func);
}
static World gen_world(Case &c)
{
    World w;
    int n = c.range(1, 3);
    for (int i = 0; i < n; i++) w.sk.push_back(std::make_unique<SecretKey>());
    return w;
}
static void put(Case &c, const World &w, Reg &r, int kind, int sk, const std::string &name)
{
    const Kind &k = kinds()[kind];
    Slot s{kind, k.named ? name : ""};
    Material m;
    m.sk = sk;
    if (k.func) m.func = k.func(c, *w.sk[sk]);
    k.emplace(r.ek, *w.sk[sk], s.name, m.func);
    m.seen(k.get(r.ek, s.name), k.size);
    r.model[s] = m;
    c.label(k.name);
}
static void put_cb(Case &c, const World &w, Reg &r, int kind, int sk)
{
    const Kind &k = kinds()[kind];
    k.cb(r.ek, *w.sk[sk]);
    for (int i = 0; i < k.cbparts; i++) {
        Slot s{kind, k.cbname + std::to_string(i)};
        Material m;
        m.sk = sk;
        m.func = k.cbfunc(*w.sk[sk], i);
        m.seen(k.get(r.ek, s.name), k.size);
        r.model[s] = m;
        validate(c, w, r, s);
    }
    c.label(k.name + " for circuit bootstrapping");
}
static void put_converted(Case &c, Reg &r, int kind)
{
    const Kind &k = kinds()[kind];
    Slot s{kind, ""};
    Material m;
    m.sk = r.model.at({k.converts_from, ""}).sk;
    k.convert(r.ek);
    m.seen(k.get(r.ek, ""), k.size);
    r.model[s] = m;
    c.label(k.name + " converted");
}

// big material one at a time
struct Turn {
    int fd;
    Turn()
    {
        const char *dir = getenv("TMPDIR");
        std::string p = std::string(dir ? dir : "/tmp") + "/C23.lock." + std::to_string(getuid());
        fd = open(p.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
        if (fd >= 0) flock(fd, LOCK_EX);
    }
    ~Turn()
    {
        if (fd >= 0) close(fd);
    }
};

// every kind: generated, valid, generated again for another secret key
static std::vector<int> by_cost(double lo, double hi)
{
    std::vector<int> v;
    for (size_t i = 0; i < kinds().size(); i++)
        if (kinds()[i].cost >= lo && kinds()[i].cost < hi) v.push_back(i);
    return v;
}
static void kind_case(Case &c, int kind)
{
    const Kind &k = kinds()[kind];
    World w = gen_world(c);
    std::vector<std::unique_ptr<Reg>> regs;
    regs.push_back(std::make_unique<Reg>());
    Reg &r = *regs[0];
    c.note("%s", k.name.c_str());
    c.nontrivial();
    std::string n = gen_name(c);
    const Slot slot{kind, k.named ? n : ""};
    put(c, w, r, kind, 0, n);
    validate(c, w, r, slot);
    check_all(c, regs, false, k.name.c_str());
    if (k.cost >= 10) return;
    // again in the same place, for another secret key (or the same one): the
    // copy made before keeps the first one
    auto q = std::make_unique<Reg>();
    q->ek = r.ek;
    q->model = r.model;
    regs.push_back(std::move(q));
    put(c, w, r, kind, w.sk.size() - 1, n);
    c.note("%s, twice%s", k.name.c_str(), w.sk.size() > 1 ? ", for two keys" : "");
    if (r.model.at(slot).coarse == regs[1]->model.at(slot).coarse) c.fail("%s: generating again left what was there", k.name.c_str());
    validate(c, w, r, slot);
    check_all(c, regs, false, (k.name + " again").c_str());
    validate(c, w, *regs[1], slot);
}
PROPERTY(every_kind, 26, 208)
{
    auto v = by_cost(0, 10);
    kind_case(c, v[c.stratum(v.size())]);
}
// conversions, again after the source (or the result) was generated again
PROPERTY(conversions, 6, 60)
{
    std::vector<int> v;
    for (int k : by_cost(0, 10))
        if (kinds()[k].converts_from >= 0 && kinds()[kinds()[k].converts_from].cost < 10) v.push_back(k);
    if (v.empty()) c.discard();
    const int k = v[c.stratum(v.size())], from = kinds()[k].converts_from;
    Turn t;
    World w = gen_world(c);
    Reg r;
    c.note("%s, twice", kinds()[k].name.c_str());
    c.nontrivial();
    if (c.chance(1, 4)) put(c, w, r, k, c.below(w.sk.size()), "");
    for (int i = 0; i < 2; i++) {
        put(c, w, r, from, i ? w.sk.size() - 1 : 0, "");
        const auto before = i ? r.model.at({k, ""}).coarse : 0;
        put_converted(c, r, k);
        if (i && r.model.at({k, ""}).coarse == before) c.fail("%s: converting again left what was there", kinds()[k].name.c_str());
        validate(c, w, r, {k, ""});
    }
}
PROPERTY(heavy_kind, 1, 4)
{
    auto v = by_cost(10, 1e9);
    if (v.empty()) c.discard();
    Turn t;
    kind_case(c, v[c.stratum(v.size())]);
}
// circuit bootstrapping keys under their names
PROPERTY(circuit_names, 6, 40)
{
    std::vector<int> v;
    for (size_t i = 0; i < kinds().size(); i++)
        if (kinds()[i].cb && kinds()[i].cost < 10) v.push_back(i);
    int kind = v[c.stratum(v.size())];
    Turn t;
    World w = gen_world(c);
    Reg r;
    c.note("%s for circuit bootstrapping", kinds()[kind].name.c_str());
    c.nontrivial();
    if (c.chance(1, 3)) put(c, w, r, kind, 0, kinds()[kind].cbname + std::to_string(c.below(kinds()[kind].cbparts)));
    put_cb(c, w, r, kind, c.below(w.sk.size()));
    if (r.model.size() != (size_t)kinds()[kind].cbparts) c.fail("wrong number of parts");
    check_missing(c, r);
}
// histories of generation, conversion, copying, dropping and looking up
static void history(Case &c, double budget, size_t bytes)
{
    World w = gen_world(c);
    std::vector<std::unique_ptr<Reg>> regs;
    regs.push_back(std::make_unique<Reg>());
    if (c.flip()) regs[0]->ek = EvalKey(*w.sk[0]);
    int n = c.range(3, 14);
    size_t used = 0;
    std::string h;
    for (int i = 0; i < n; i++) {
        size_t a = c.below(regs.size());
        Reg &r = *regs[a];
        std::string op;
        switch (c.below(8)) {
        case 0: {  // copy, move-assign through a copy, or copy over another
            if (regs.size() < 4) {
                auto q = std::make_unique<Reg>();
                if (c.flip()) {
                    EvalKey copy(r.ek);
                    q->ek = std::move(copy);
                }
                else
                    q->ek = r.ek;
                q->model = r.model;
                regs.push_back(std::move(q));
                op = fmt("%zu=copy %zu", regs.size() - 1, a);
            }
            else {
                size_t b = c.below(regs.size());
                regs[b]->ek = r.ek;
                regs[b]->model = r.model;
                op = fmt("%zu=%zu", b, a);
            }
            break;
        }
        case 1: {  // the original goes away
            if (regs.size() < 2) continue;
            regs.erase(regs.begin() + a);
            op = fmt("drop %zu", a);
            break;
        }
        case 2: {  // convert a bootstrapping key
            std::vector<int> can;
            for (size_t k = 0; k < kinds().size(); k++)
                if (kinds()[k].converts_from >= 0 && r.model.count({kinds()[k].converts_from, ""})) can.push_back(k);
            if (can.empty()) {
                if (budget < 0.4) continue;
                // make it possible
                put(c, w, r, c.flip() ? 0 : 3, c.below(w.sk.size()), "");
                op = fmt("%zu.%s", a, "bk");
                budget -= 0.4;
                break;
            }
            int k = can[c.below(can.size())];
            put_converted(c, r, k);
            used += kinds()[k].size;
            op = fmt("%zu.convert %s", a, kinds()[k].name.c_str());
            if (c.flip()) validate(c, w, r, {k, ""});
            break;
        }
        case 3: {  // look up and use
            if (r.model.empty()) continue;
            auto it = r.model.begin();
            std::advance(it, c.below(r.model.size()));
            validate(c, w, r, it->first);
            op = fmt("use %zu.%s", a, kinds()[it->first.kind].name.c_str());
            break;
        }
        default: {
            std::vector<int> can;
            for (size_t k = 0; k < kinds().size(); k++)
                if (kinds()[k].cost <= budget && used + kinds()[k].size <= bytes) can.push_back(k);
            if (can.empty()) continue;
            int k = can[c.below(can.size())];
            // likely again what is there already
            if (!r.model.empty() && c.flip()) {
                auto it = r.model.begin();
                std::advance(it, c.below(r.model.size()));
                if (kinds()[it->first.kind].cost <= budget && used + kinds()[it->first.kind].size <= bytes) k = it->first.kind;
            }
            int s = c.below(w.sk.size());
            std::string nm = gen_name(c);
            op = fmt("%zu.%s%s%s for key %d", a, kinds()[k].name.c_str(), kinds()[k].named ? " " : "", kinds()[k].named ? nm.c_str() : "", s);
            put(c, w, r, k, s, nm);
            budget -= kinds()[k].cost;
            used += kinds()[k].size;
            if (c.flip()) validate(c, w, r, {k, kinds()[k].named ? nm : ""});
        }
        }
        h += (h.empty() ? "" : "; ") + op;
        c.note("%s", h.c_str());
        check_all(c, regs, false, op.c_str());
    }
    size_t total = 0;
    for (auto &r : regs) total += r->model.size();
    if (total >= 2) c.nontrivial();
    check_all(c, regs, true, "all");
    // whatever is left is still usable
    for (auto &r : regs) {
        if (r->model.empty()) continue;
        auto it = r->model.begin();
        std::advance(it, c.below(r->model.size()));
        validate(c, w, *r, it->first);
    }
}
PROPERTY(light_history, 50, 3000) { history(c, 2, 400'000'000); }
PROPERTY(history, 8, 600) { history(c, 12, 1'500'000'000); }
