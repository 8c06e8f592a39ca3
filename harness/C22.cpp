// C22: serialisation. Oracle: byte-wise equality of every part after reload,
// bit-identical behaviour of reloaded keys, an exception for every truncation.
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/memory.hpp>

#include "fix.hpp"
using namespace tf;

// ---- archives in memory ----------------------------------------------------
struct Sink : std::streambuf {
    std::vector<char> v;
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        v.insert(v.end(), s, s + n);
        return n;
    }
    int overflow(int ch) override
    {
        v.push_back((char)ch);
        return ch;
    }
};
struct Source : std::streambuf {
    Source(std::vector<char> &v, size_t n) { setg(v.data(), v.data(), v.data() + n); }
};
static thread_local size_t reserve;
template <class... T>
static std::vector<char> save(bool portable, const T &...o)
{
    Sink s;
    s.v.reserve(reserve);
    std::ostream os(&s);
    if (portable) {
        cereal::PortableBinaryOutputArchive a(os);
        (o.serialize_into(a), ...);
    }
    else {
        cereal::BinaryOutputArchive a(os);
        (o.serialize_into(a), ...);
    }
    return std::move(s.v);
}
// returns the number of bytes left unread
template <class... T>
static size_t load(bool portable, std::vector<char> &v, size_t n, const T &...o)
{
    Source s(v, n);
    std::istream is(&s);
    if (portable) {
        cereal::PortableBinaryInputArchive a(is);
        (o.serialize_from(a), ...);
    }
    else {
        cereal::BinaryInputArchive a(is);
        (o.serialize_from(a), ...);
    }
    return (size_t)s.in_avail() == (size_t)-1 ? 0 : (size_t)s.in_avail();
}
template <class T>
struct Ref {
    T *p;
    template <class A>
    void serialize_into(A &a) const { a(*p); }
    template <class A>
    void serialize_from(A &a) const { a(*p); }
};
template <class T>
static Ref<T> obj(T &t) { return {&t}; }

// the big cases take turns
struct Turn {
    int fd;
    Turn()
    {
        static const char *dir = getenv("TMPDIR");
        std::string p = std::string(dir ? dir : "/tmp") + "/C22.lock." + std::to_string(getuid());
        fd = open(p.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
        if (fd >= 0) flock(fd, LOCK_EX);
    }
    ~Turn()
    {
        if (fd >= 0) close(fd);
    }
};

// ---- filling and comparing -------------------------------------------------
template <class T>
static void fill(T &t, uint64_t seed)
{
    static_assert(std::is_trivially_copyable_v<T>);
    Bulk b(seed);
    if constexpr (std::is_arithmetic_v<T>) {
        uint64_t w = b.next();
        memcpy(&t, &w, sizeof t < 8 ? sizeof t : 8);
    }
    else {
        char *p = (char *)&t;
        for (size_t i = 0; i < sizeof t; i += 8) {
            uint64_t w = b.next();
            memcpy(p + i, &w, std::min<size_t>(8, sizeof t - i));
        }
    }
}
template <class T>
static void fill_ntt(T &t, uint64_t seed)
{
    Bulk b(seed);
    uint64_t *p = (uint64_t *)&t;
    static_assert(sizeof(cuHEpp::INTorus) == 8);
    for (size_t i = 0; i < sizeof t / 8; i++) p[i] = b.next() % cuHEpp::P;
}
// position of the first leaf that differs, or -1 (padding between leaves is not part of the value)
template <class T>
static int64_t differs(const T &a, const T &b)
{
    if constexpr (requires { a.size(); a[0]; }) {
        using E = std::remove_cvref_t<decltype(a[0])>;
        if constexpr (std::is_arithmetic_v<E> || std::is_same_v<E, cuHEpp::INTorus>) {
            if (!memcmp(a.data(), b.data(), a.size() * sizeof(E))) return -1;
            for (size_t i = 0; i < a.size(); i++)
                if (memcmp(&a[i], &b[i], sizeof(E))) return i;
        }
        else {
            for (size_t i = 0; i < a.size(); i++) {
                int64_t d = differs(a[i], b[i]);
                if (d >= 0) return (int64_t)(i * 1000000) + d;
            }
        }
        return -1;
    }
    else
        return memcmp(&a, &b, sizeof a) ? 0 : -1;
}
template <class T>
static void same(Case &c, const T &a, const T &b, const char *what)
{
    int64_t d = differs(a, b);
    if (d >= 0) c.fail("%s differs after reloading, at %" PRId64, what, d);
}
template <class T>
static void same_ptr(Case &c, const std::shared_ptr<T> &a, const std::shared_ptr<T> &b, const char *what)
{
    if (!a != !b) c.fail("%s: %s before, %s after reloading", what, a ? "present" : "absent", b ? "present" : "absent");
    if (a) same(c, *a, *b, what);
}
template <class M>
static void same_map(Case &c, const M &a, const M &b, const char *what)
{
    if (a.size() != b.size()) c.fail("%s has %zu entries, %zu after reloading", what, a.size(), b.size());
    for (auto &[k, v] : a) {
        auto it = b.find(k);
        if (it == b.end()) c.fail("%s: an entry of %zu characters is missing after reloading", what, k.size());
        same_ptr(c, v, it->second, what);
    }
}
static std::string gen_name(Case &c)
{
    switch (c.below(6)) {
    case 0: return "privksk4cb_" + std::to_string(c.below(3));
    case 1: return "";
    case 2: return std::string("in\0put", 6) + std::to_string(c.below(3));
    case 3: return std::string(c.below(300), 'x');
    default: {
        std::string s;
        for (int i = c.range(1, 12); i > 0; i--) s += (char)c.below(256);
        return s;
    }
    }
}

static const char *P_FIELD[] = {"n", "nbit", "l", "Bgbit", "Bg", "t", "basebit", "approx_bit"};
static uint32_t gen_u32(Case &c) { return c.word<uint32_t>(); }
static double gen_dbl(Case &c)
{
    switch (c.below(4)) {
    case 0: return 0;
    case 1: return std::pow(2.0, -(double)c.below(64));
    default: {
        uint64_t m = c.u64();
        return std::ldexp((double)m, -(int)c.range(1, 200)) * (c.flip() ? 1 : -1);
    }
    }
}
static lweParams gen_params(Case &c)
{
    (void)P_FIELD;
    lweParams p;
    if (c.chance(1, 5)) return p;
    p.lvl0.n = gen_u32(c), p.lvl0.α = gen_dbl(c), p.lvl0.approx_bit = gen_u32(c);
    p.lvl1.nbit = gen_u32(c), p.lvl1.n = gen_u32(c), p.lvl1.l = gen_u32(c), p.lvl1.Bgbit = gen_u32(c), p.lvl1.Bg = gen_u32(c), p.lvl1.α = gen_dbl(c), p.lvl1.approx_bit = gen_u32(c);
    p.lvl2.nbit = gen_u32(c), p.lvl2.n = gen_u32(c), p.lvl2.l = gen_u32(c), p.lvl2.Bgbit = gen_u32(c), p.lvl2.Bg = gen_u32(c), p.lvl2.approx_bit = gen_u32(c);
    p.lvl10.t = gen_u32(c), p.lvl10.basebit = gen_u32(c), p.lvl10.α = gen_dbl(c);
    p.lvl20.t = gen_u32(c), p.lvl20.basebit = gen_u32(c), p.lvl20.α = gen_dbl(c);
    p.lvl21.t = gen_u32(c), p.lvl21.basebit = gen_u32(c);
    p.lvl22.t = gen_u32(c), p.lvl22.basebit = gen_u32(c);
    return p;
}
// field by field: padding is not part of the value, and operator== is under test too
#define F(x) if (a.x != b.x) c.fail("%s." #x " differs after reloading", what)
static void same_params(Case &c, const lweParams &a, const lweParams &b, const char *what)
{
    F(lvl0.n); F(lvl0.α); F(lvl0.approx_bit);
    F(lvl1.nbit); F(lvl1.n); F(lvl1.l); F(lvl1.Bgbit); F(lvl1.Bg); F(lvl1.α); F(lvl1.approx_bit);
    F(lvl2.nbit); F(lvl2.n); F(lvl2.l); F(lvl2.Bgbit); F(lvl2.Bg); F(lvl2.approx_bit);
    F(lvl10.t); F(lvl10.basebit); F(lvl10.α); F(lvl20.t); F(lvl20.basebit); F(lvl20.α);
    F(lvl21.t); F(lvl21.basebit); F(lvl22.t); F(lvl22.basebit);
    if (!(a == b)) c.fail("%s: equal fields, but operator== says different", what);
}
#undef F

PROPERTY_PURE(params, 3000, 100000)
{
    lweParams p = gen_params(c), q = gen_params(c);
    bool portable = c.flip();
    c.nontrivial();
    auto v = save(portable, obj(p));
    if (load(portable, v, v.size(), obj(q))) c.fail("bytes left over after reading the parameters");
    same_params(c, p, q, "parameters");
    lweParams r = gen_params(c);
    auto w = save(portable, obj(p.lvl0), obj(p.lvl1), obj(p.lvl2), obj(p.lvl10), obj(p.lvl20), obj(p.lvl21), obj(p.lvl22));
    if (load(portable, w, w.size(), obj(r.lvl0), obj(r.lvl1), obj(r.lvl2), obj(r.lvl10), obj(r.lvl20), obj(r.lvl21), obj(r.lvl22)))
        c.fail("bytes left over after reading the parameters one by one");
    same_params(c, p, r, "parameters written one by one");
    // the default object describes the parameters in use
    lweParams d;
    if (d.lvl0.n != lvl0param::n || d.lvl1.n != lvl1param::n || d.lvl2.n != lvl2param::n || d.lvl1.l != lvl1param::l || d.lvl2.l != lvl2param::l ||
        d.lvl1.Bg != lvl1param::Bg || d.lvl2.Bg != lvl2param::Bg || d.lvl1.Bgbit != lvl1param::Bgbit || d.lvl2.Bgbit != lvl2param::Bgbit ||
        d.lvl10.t != lvl10param::t || d.lvl10.basebit != lvl10param::basebit || d.lvl20.t != lvl20param::t || d.lvl20.basebit != lvl20param::basebit ||
        d.lvl21.t != lvl21param::t || d.lvl21.basebit != lvl21param::basebit || d.lvl22.t != lvl22param::t || d.lvl22.basebit != lvl22param::basebit)
        c.fail("a new parameter object does not hold the parameters in use");
    size_t cut = c.below(v.size());
    c.note("cut %zu of %zu", cut, v.size());
    try {
        load(portable, v, cut, obj(q));
    }
    catch (cereal::Exception &) {
        return;
    }
    c.fail("parameters cut to %zu of %zu bytes were read without an error", cut, v.size());
}

static void same_sk(Case &c, const SecretKey &a, const SecretKey &b)
{
    same(c, a.key.lvl0, b.key.lvl0, "secret key lvl0");
    same(c, a.key.lvlhalf, b.key.lvlhalf, "secret key lvlhalf");
    same(c, a.key.lvl1, b.key.lvl1, "secret key lvl1");
    same(c, a.key.lvl2, b.key.lvl2, "secret key lvl2");
    same(c, a.key.lvl3, b.key.lvl3, "secret key lvl3");
    same_params(c, a.params, b.params, "secret key's parameters");
}
static void fill_sk(Case &c, SecretKey &sk)
{
    if (c.chance(1, 3)) return;  // a real one
    fill(sk.key.lvl0, c.seed()), fill(sk.key.lvlhalf, c.seed()), fill(sk.key.lvl1, c.seed()), fill(sk.key.lvl2, c.seed()), fill(sk.key.lvl3, c.seed());
    sk.params = gen_params(c);
}
PROPERTY(secret_key, 400, 8000)
{
    auto a = std::make_unique<SecretKey>(), b = std::make_unique<SecretKey>();
    fill_sk(c, *a);
    bool portable = c.flip();
    c.nontrivial();
    auto v = save(portable, obj(*a));
    if (load(portable, v, v.size(), obj(*b))) c.fail("bytes left over after reading the key");
    same_sk(c, *a, *b);
    size_t cut = c.chance(1, 4) ? v.size() - 1 - c.below(64) : c.below(v.size());
    c.note("cut %zu of %zu", cut, v.size());
    try {
        load(portable, v, cut, obj(*b));
    }
    catch (cereal::Exception &) {
        return;
    }
    c.fail("a secret key cut to %zu of %zu bytes was read without an error", cut, v.size());
}

// ---- packets ---------------------------------------------------------------
template <class M>
static void gen_ports(Case &c, M &m, int maxlen)
{
    using V = typename M::mapped_type::value_type;
    for (int i = c.below(4); i > 0; i--) {
        auto &vec = m[gen_name(c)];
        vec.resize(c.chance(1, 4) ? 0 : c.range(1, maxlen));
        for (V &x : vec) fill(x, c.seed());
    }
}
static void gen_packet(Case &c, IOpacket &p)
{
    gen_ports(c, p.tlwelvl0ports, 9);
    gen_ports(c, p.tlwelvl1ports, 5);
    gen_ports(c, p.trlwelvl2ports, 3);
    gen_ports(c, p.trgswlvl2ports, 2);
    if (c.flip()) p.numCycles = gen_u32(c);
}
template <class M>
static void same_ports(Case &c, const M &a, const M &b, const char *what)
{
    if (a.size() != b.size()) c.fail("%zu %s, %zu after reloading", a.size(), what, b.size());
    for (auto &[k, v] : a) {
        auto it = b.find(k);
        if (it == b.end()) c.fail("one of the %s is missing after reloading", what);
        if (it->second.size() != v.size()) c.fail("%s: %zu samples, %zu after reloading", what, v.size(), it->second.size());
        for (size_t i = 0; i < v.size(); i++) same(c, v[i], it->second[i], what);
    }
}
static void same_packet(Case &c, const IOpacket &a, const IOpacket &b)
{
    same_ports(c, a.tlwelvl0ports, b.tlwelvl0ports, "tlwelvl0ports");
    same_ports(c, a.tlwelvl1ports, b.tlwelvl1ports, "tlwelvl1ports");
    same_ports(c, a.trlwelvl2ports, b.trlwelvl2ports, "trlwelvl2ports");
    same_ports(c, a.trgswlvl2ports, b.trgswlvl2ports, "trgswlvl2ports");
    if (a.numCycles != b.numCycles) c.fail("numCycles %u, %u after reloading", a.numCycles, b.numCycles);
}
PROPERTY(packet, 1000, 20000)
{
    IOpacket a, b;
    gen_packet(c, a);
    if (c.flip()) gen_packet(c, b);  // whatever was there is replaced
    bool portable = c.flip();
    if (a.tlwelvl0ports.size() + a.tlwelvl1ports.size() + a.trlwelvl2ports.size() + a.trgswlvl2ports.size()) c.nontrivial();
    auto v = save(portable, obj(a));
    if (load(portable, v, v.size(), obj(b))) c.fail("bytes left over after reading the packet");
    same_packet(c, a, b);
    for (int i = c.below(3); i >= 0; i--) {
        size_t cut = c.chance(1, 3) ? v.size() - 1 - c.below(std::min<size_t>(v.size(), 16)) : c.below(v.size());
        c.note("cut %zu of %zu", cut, v.size());
        bool threw = false;
        try {
            IOpacket d;
            load(portable, v, cut, obj(d));
        }
        catch (cereal::Exception &) {
            threw = true;
        }
        if (!threw) c.fail("a packet cut to %zu of %zu bytes was read without an error", cut, v.size());
    }
}

// ---- evaluation keys -------------------------------------------------------
struct Part {
    const char *name;
    size_t size;
    std::function<void(Case &, EvalKey &)> add;
};
template <class T>
static std::shared_ptr<T> fresh(uint64_t seed, bool ntt = false)
{
    std::shared_ptr<T> p(new T);
    if (ntt)
        fill_ntt(*p, seed);
    else
        fill(*p, seed);
    return p;
}
#define PTR(m) {#m, sizeof(*EvalKey().m), [](Case &c, EvalKey &e) { e.m = fresh<std::remove_reference_t<decltype(*e.m)>>(c.seed()); }}
#define NTT(m) {#m, sizeof(*EvalKey().m), [](Case &c, EvalKey &e) { e.m = fresh<std::remove_reference_t<decltype(*e.m)>>(c.seed(), true); }}
#define MAP(m) \
    {#m, sizeof(*EvalKey().m[""]), [](Case &c, EvalKey &e) { \
         using T = std::remove_reference_t<decltype(*e.m[""])>; \
         int n = sizeof(T) > 300e6 ? 1 : c.range(1, 2); \
         for (int i = 0; i < n; i++) e.m[gen_name(c)] = fresh<T>(c.seed()); \
     }}
static std::vector<Part> &parts()
{
    static std::vector<Part> p = {PTR(bklvl01), PTR(bklvlh1), PTR(bklvl02), PTR(bklvlh2), PTR(bkfftlvl01), PTR(bkfftlvlh1), PTR(bkfftlvl02), PTR(bkfftlvlh2),
                                  NTT(bknttlvl01), NTT(bknttlvlh1), NTT(bknttlvl02), NTT(bknttlvlh2), PTR(iksklvl10), PTR(iksklvl1h), PTR(iksklvl20),
                                  PTR(iksklvl2h), PTR(iksklvl21), PTR(iksklvl22), PTR(iksklvl31), PTR(subiksklvl21), MAP(privksklvl11), MAP(privksklvl21),
                                  MAP(privksklvl22), MAP(subprivksklvl21)};
    return p;
}
static void same_ek(Case &c, const EvalKey &a, const EvalKey &b)
{
    same_params(c, a.params, b.params, "evaluation key's parameters");
#define S(m) same_ptr(c, a.m, b.m, #m)
    S(bklvl01); S(bklvlh1); S(bklvl02); S(bklvlh2);
    S(bkfftlvl01); S(bkfftlvlh1); S(bkfftlvl02); S(bkfftlvlh2);
    S(bknttlvl01); S(bknttlvlh1); S(bknttlvl02); S(bknttlvlh2);
    S(iksklvl10); S(iksklvl1h); S(iksklvl20); S(iksklvl2h); S(iksklvl21); S(iksklvl22); S(iksklvl31); S(subiksklvl21);
#undef S
    same_map(c, a.privksklvl11, b.privksklvl11, "privksklvl11");
    same_map(c, a.privksklvl21, b.privksklvl21, "privksklvl21");
    same_map(c, a.privksklvl22, b.privksklvl22, "privksklvl22");
    same_map(c, a.subprivksklvl21, b.subprivksklvl21, "subprivksklvl21");
}
static void check_ek(Case &c, const EvalKey &a, EvalKey &b, size_t expect)
{
    bool portable = c.flip();
    reserve = expect + expect / 16 + 100000;
    std::vector<char> v = save(portable, obj(const_cast<EvalKey &>(a)));
    reserve = 0;
    if (load(portable, v, v.size(), obj(b))) c.fail("bytes left over after reading the evaluation key");
    same_ek(c, a, b);
    // a cut in the middle of something, in the pointers at the end, or anywhere
    int n = expect > 1e8 ? 1 : 3;
    for (int i = 0; i < n; i++) {
        size_t cut = c.below(3) == 0 ? v.size() - 1 - c.below(std::min<size_t>(v.size(), 80)) : c.below(2) ? c.below(v.size()) : c.below(std::min<size_t>(v.size(), 300));
        c.note("cut %zu of %zu", cut, v.size());
        bool threw = false;
        try {
            load(portable, v, cut, obj(b));
        }
        catch (cereal::Exception &) {
            threw = true;
        }
        if (!threw) c.fail("an evaluation key cut to %zu of %zu bytes was read without an error", cut, v.size());
    }
}
// every part on its own (and with one small companion)
static const size_t BIG = 900'000'000;
static void one_part(Case &c, bool big)
{
    std::vector<Part *> which;
    for (Part &p : parts())
        if ((p.size > BIG) == big) which.push_back(&p);
    if (which.empty()) c.discard();
    Part &p = *which[c.stratum(which.size())];
    std::unique_ptr<Turn> t;
    if (p.size > 100e6) t = std::make_unique<Turn>();
    c.nontrivial();
    c.label(p.name);
    EvalKey a, b;
    if (c.flip()) a.params = gen_params(c);
    p.add(c, a);
    if (c.chance(1, 3)) parts()[12].add(c, b);  // reading replaces what was there
    check_ek(c, a, b, p.size);
}
PROPERTY(each_part, 30, 440) { one_part(c, false); }
PROPERTY(huge_part, 2, 8) { one_part(c, true); }
// subsets of the parts of moderate size
PROPERTY(subsets, 16, 400)
{
    Turn t;
    c.nontrivial();
    EvalKey a, b;
    size_t total = 0, limit = c.thorough ? 900'000'000 : 350'000'000;
    int n = c.range(0, 8);
    for (int i = 0; i < n; i++) {
        Part &p = parts()[c.below(parts().size())];
        if (total + 2 * p.size > limit) continue;
        total += 2 * p.size;
        c.label(p.name);
        p.add(c, a);
    }
    if (c.chance(1, 3) && a.iksklvl10) b.iksklvl10 = a.iksklvl10;
    // two names for the same key, and names of every kind
    if (!a.subprivksklvl21.empty() && c.flip()) a.subprivksklvl21[gen_name(c)] = a.subprivksklvl21.begin()->second;
    check_ek(c, a, b, total);
}

// several objects in one archive, a key and a copy of it among them
PROPERTY(one_archive, 60, 1000)
{
    auto s1 = std::make_unique<SecretKey>(), s2 = std::make_unique<SecretKey>();
    fill_sk(c, *s1);
    IOpacket p1, p2;
    gen_packet(c, p1);
    EvalKey e1, e2, e3, e4;
    e1.params = s1->params;
    parts()[12].add(c, e1);
    if (c.flip()) parts()[13].add(c, e1);
    e2 = e1;  // shares
    if (c.flip()) parts()[12].add(c, e2);
    bool portable = c.flip();
    c.nontrivial();
    auto v = save(portable, obj(p1), obj(e1), obj(*s1), obj(e2));
    if (load(portable, v, v.size(), obj(p2), obj(e3), obj(*s2), obj(e4))) c.fail("bytes left over");
    same_packet(c, p1, p2);
    same_sk(c, *s1, *s2);
    same_ek(c, e1, e3);
    same_ek(c, e2, e4);
}

// ---- reloaded keys behave like the originals -------------------------------
static SecretKey *SK;
static EvalKey *EK;
FIXTURE(seed)
{
    pbt::fresh_thread(pbt::hash2(seed, 1000), [] { SK = new SecretKey; });
    EK = new EvalKey(*SK);
    build_parallel(seed, {[] { EK->emplacebkfft<lvl01param>(*SK); }, [] { EK->emplacebkntt<lvl01param>(*SK); }, [] { EK->emplaceiksk<lvl10param>(*SK); },
                          [] { EK->emplacebkfft<lvl02param>(*SK); }, [] { EK->emplaceiksk<lvl20param>(*SK); }});
}
PROPERTY(behaviour, 6, 60)
{
    Turn t;
    c.nontrivial();
    bool portable = c.flip();
    EvalKey e;
    auto s = std::make_unique<SecretKey>();
    {
        auto v = save(portable, obj(*SK), obj(*EK));
        load(portable, v, v.size(), obj(*s), obj(e));
    }
    for (int i = c.range(2, 6); i > 0; i--) {
        bool x = c.flip(), y = c.flip();
        // the reloaded secret key encrypts under the same key ...
        TLWE<lvl1param> a = tlweSymEncrypt<lvl1param>(x ? lvl1param::μ : 0 - lvl1param::μ, lvl1param::α, s->key.get<lvl1param>());
        TLWE<lvl1param> b = tlweSymEncrypt<lvl1param>(y ? lvl1param::μ : 0 - lvl1param::μ, lvl1param::α, SK->key.get<lvl1param>()), r1, r2;
        // ... and the reloaded evaluation key computes the very same words
        HomNAND<lvl10param, lvl01param, lvl1param::μ>(r1, a, b, *EK);
        HomNAND<lvl10param, lvl01param, lvl1param::μ>(r2, a, b, e);
        same(c, r1, r2, "NAND");
        if (tlweSymDecrypt<lvl1param>(r2, s->key.get<lvl1param>()) != !(x && y)) c.fail("NAND with reloaded keys is wrong");
        TLWE<lvl0param> z, z2;
        IdentityKeySwitch<lvl10param>(z, a, EK->getiksk<lvl10param>());
        IdentityKeySwitch<lvl10param>(z2, a, e.getiksk<lvl10param>());
        same(c, z, z2, "key switch");
        GateBootstrappingTLWE2TLWENTT<lvl01param>(r1, z, EK->getbkntt<lvl01param>(), μpolygen<lvl1param, lvl1param::μ>());
        GateBootstrappingTLWE2TLWENTT<lvl01param>(r2, z, e.getbkntt<lvl01param>(), μpolygen<lvl1param, lvl1param::μ>());
        same(c, r1, r2, "NTT bootstrapping");
        TLWE<lvl2param> w1, w2;
        GateBootstrappingTLWE2TLWEFFT<lvl02param>(w1, z, EK->getbkfft<lvl02param>(), μpolygen<lvl2param, lvl2param::μ>());
        GateBootstrappingTLWE2TLWEFFT<lvl02param>(w2, z, e.getbkfft<lvl02param>(), μpolygen<lvl2param, lvl2param::μ>());
        same(c, w1, w2, "bootstrapping to level 2");
    }
}
