// C27: the client / server workflow. Keys, ciphertexts and results only pass
// through files between separate processes (this binary, re-executed in a
// role, on the main thread's ordinary stack). Oracle: plaintext evaluation.
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>

#include "fix.hpp"
using namespace tf;

int tutorial_client_main() __asm__("tutorial_client_main");
int tutorial_cloud_main() __asm__("tutorial_cloud_main");
int tutorial_verify_main() __asm__("tutorial_verify_main");

// ---- what a role reads and writes ------------------------------------------
// session.txt: "<level> <archive> <packet>" and then lines of gates
struct Session {
    int level = 1;       // ciphertexts at level 0 or 1
    bool portable = true;
    bool packet = false;  // ciphertexts in an IOpacket
};
static Session session(const std::string &dir)
{
    Session s;
    std::ifstream f(dir + "/session.txt");
    f >> s.level >> s.portable >> s.packet;
    return s;
}
template <class T>
static void store(const Session &s, const std::string &path, const T &x)
{
    std::ofstream f(path, std::ios::binary);
    if (s.portable) {
        cereal::PortableBinaryOutputArchive a(f);
        a(x);
    }
    else {
        cereal::BinaryOutputArchive a(f);
        a(x);
    }
    if (!f.flush()) throw std::runtime_error("cannot write " + path);
}
template <class T>
static void fetch(const Session &s, const std::string &path, T &x)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) throw std::runtime_error("cannot read " + path);
    if (s.portable) {
        cereal::PortableBinaryInputArchive a(f);
        a(x);
    }
    else {
        cereal::BinaryInputArchive a(f);
        a(x);
    }
}
template <class L>
static void store_cts(const Session &s, const std::string &path, const std::vector<TLWE<L>> &v)
{
    if (!s.packet) return store(s, path, v);
    auto p = std::make_unique<IOpacket>();
    if constexpr (std::is_same_v<L, lvl0param>) p->tlwelvl0ports["w"] = v;
    else p->tlwelvl1ports["w"] = v;
    p->numCycles = v.size();
    store(s, path, *p);
}
template <class L>
static std::vector<TLWE<L>> fetch_cts(const Session &s, const std::string &path)
{
    std::vector<TLWE<L>> v;
    if (!s.packet) {
        fetch(s, path, v);
        return v;
    }
    auto p = std::make_unique<IOpacket>();
    fetch(s, path, *p);
    if (p->numCycles != (std::is_same_v<L, lvl0param> ? p->tlwelvl0ports.at("w").size() : p->tlwelvl1ports.at("w").size())) throw std::runtime_error("numCycles lost");
    if constexpr (std::is_same_v<L, lvl0param>) return p->tlwelvl0ports.at("w");
    else return p->tlwelvl1ports.at("w");
}

// ---- gates -----------------------------------------------------------------
static const char *GATES[] = {"NAND", "NOR", "XNOR", "AND", "OR", "XOR", "ANDNY", "ANDYN", "ORNY", "ORYN", "NOT", "COPY", "ONE", "ZERO", "MUX", "NMUX"};
constexpr int NG = 16;
static bool eval(int g, bool a, bool b, bool c)
{
    switch (g) {
    case 0: return !(a && b);
    case 1: return !(a || b);
    case 2: return a == b;
    case 3: return a && b;
    case 4: return a || b;
    case 5: return a != b;
    case 6: return !a && b;
    case 7: return a && !b;
    case 8: return !a || b;
    case 9: return a || !b;
    case 10: return !a;
    case 11: return a;
    case 12: return true;
    case 13: return false;
    case 14: return a ? b : c;
    default: return !(a ? b : c);
    }
}
template <class L>
static void gate(int g, TLWE<L> &r, const TLWE<L> &a, const TLWE<L> &b, const TLWE<L> &c, const EvalKey &ek)
{
    constexpr bool big = std::is_same_v<L, lvl1param>;
    using P = std::conditional_t<big, lvl10param, lvl01param>;
    using Q = std::conditional_t<big, lvl01param, lvl10param>;
#define G(name) \
    if constexpr (big) name<P, Q, lvl1param::μ>(r, a, b, ek); \
    else name<P, lvl1param::μ, Q>(r, a, b, ek);
    switch (g) {
    case 0: G(HomNAND) break;
    case 1: G(HomNOR) break;
    case 2: G(HomXNOR) break;
    case 3: G(HomAND) break;
    case 4: G(HomOR) break;
    case 5: G(HomXOR) break;
    case 6: G(HomANDNY) break;
    case 7: G(HomANDYN) break;
    case 8: G(HomORNY) break;
    case 9: G(HomORYN) break;
    case 10: HomNOT<L>(r, a); break;
    case 11: HomCOPY<L>(r, a); break;
    case 12: HomCONSTANTONE<L>(r); break;
    case 13: HomCONSTANTZERO<L>(r); break;
    case 14: HomMUX<L>(r, a, b, c, ek); break;
    default: HomNMUX<L>(r, a, b, c, ek);
    }
#undef G
}

// ---- roles -----------------------------------------------------------------
template <class L>
static void encrypt(const std::string &dir, const Session &s, const SecretKey &sk)
{
    std::ifstream f(dir + "/input.txt");
    std::string bits;
    f >> bits;
    std::vector<uint8_t> p;
    for (char ch : bits) p.push_back(ch == '1');
    store_cts<L>(s, dir + "/data", bootsSymEncrypt<L>(p, sk));
}
// keygen: a client makes its keys and encrypts its first inputs
static void role_keygen(const std::string &dir)
{
    Session s = session(dir);
    auto sk = std::make_unique<SecretKey>();
    auto ek = std::make_unique<EvalKey>(*sk);
    ek->emplacebkfft<lvl01param>(*sk);
    ek->emplaceiksk<lvl10param>(*sk);
    store(s, dir + "/secret.key", *sk);
    store(s, dir + "/cloud.key", *ek);
}
// encrypt: a later process of the client, with the stored key
static void role_encrypt(const std::string &dir)
{
    Session s = session(dir);
    auto sk = std::make_unique<SecretKey>();
    fetch(s, dir + "/secret.key", *sk);
    s.level ? encrypt<lvl1param>(dir, s, *sk) : encrypt<lvl0param>(dir, s, *sk);
}
template <class L>
static void serve(const std::string &dir, const Session &s, const EvalKey &ek)
{
    auto w = fetch_cts<L>(s, dir + "/data");
    std::ifstream f(dir + "/gates.txt");
    for (size_t g, r, a, b, c; f >> g >> r >> a >> b >> c;) {
        if (r >= w.size()) w.resize(r + 1);
        gate<L>(g, w.at(r), w.at(a), w.at(b), w.at(c), ek);
    }
    store_cts<L>(s, dir + "/data", w);
}
// cloud: one server process for several clients, each in its own directory
static void role_cloud(const std::vector<std::string> &dirs, bool threads)
{
    std::vector<std::unique_ptr<EvalKey>> eks;
    for (auto &d : dirs) {
        eks.push_back(std::make_unique<EvalKey>());
        fetch(session(d), d + "/cloud.key", *eks.back());
    }
    std::vector<std::thread> pool;
    std::atomic<bool> bad = false;
    for (size_t i = 0; i < dirs.size(); i++) {
        auto job = [&, i] {
            try {
                Session s = session(dirs[i]);
                s.level ? serve<lvl1param>(dirs[i], s, *eks[i]) : serve<lvl0param>(dirs[i], s, *eks[i]);
            }
            catch (const std::exception &e) {
                fprintf(stderr, "cloud: %s\n", e.what());
                bad = true;
            }
        };
        if (threads) pool.emplace_back(job);
        else job();
    }
    for (auto &t : pool) t.join();
    if (bad) throw std::runtime_error("a session failed");
}
static void role_verify(const std::string &dir)
{
    Session s = session(dir);
    auto sk = std::make_unique<SecretKey>();
    fetch(s, dir + "/secret.key", *sk);
    auto p = s.level ? bootsSymDecrypt<lvl1param>(fetch_cts<lvl1param>(s, dir + "/data"), *sk)
                     : bootsSymDecrypt<lvl0param>(fetch_cts<lvl0param>(s, dir + "/data"), *sk);
    for (auto b : p) putchar('0' + b);
    putchar('\n');
}
extern "C" int pbt_role(int argc, char **argv)
{
    const char *r = getenv("C27_ROLE");
    if (!r) return -1;
    alarm(200);
    pbt::entropy_set_global(strtoull(getenv("C27_ENTROPY"), nullptr, 10));
    std::string role = r;
    std::vector<std::string> dirs(argv + 1, argv + argc);
    int rc = 0;
    try {
        if (role == "keygen") role_keygen(dirs[0]);
        else if (role == "encrypt") role_encrypt(dirs[0]);
        else if (role == "cloud") role_cloud(dirs, false);
        else if (role == "cloud-threads") role_cloud(dirs, true);
        else if (role == "verify") role_verify(dirs[0]);
        else {
            if (chdir(dirs[0].c_str())) return 2;
            rc = role == "tutorial-client" ? tutorial_client_main() : role == "tutorial-cloud" ? tutorial_cloud_main() : tutorial_verify_main();
        }
    }
    catch (const std::exception &e) {
        fprintf(stderr, "%s\n", e.what());
        rc = 3;
    }
    std::cout.flush();
    fflush(nullptr);
    return rc;
}

// ---- driving the processes -------------------------------------------------
struct Scratch {
    std::string d;
    Scratch()
    {
        std::string t = (getenv("TMPDIR") ? getenv("TMPDIR") : std::string("/tmp")) + "/c27-XXXXXX";
        if (!mkdtemp(t.data())) throw std::runtime_error("mkdtemp");
        d = t;
    }
    ~Scratch()
    {
        for (auto &n : names()) unlink((d + "/" + n).c_str());
        rmdir(d.c_str());
    }
    static const std::vector<std::string> &names()
    {
        static const std::vector<std::string> v = {"secret.key", "cloud.key", "data", "session.txt", "gates.txt", "input.txt", "out", "err", "cloud.data", "result.data", "core"};
        return v;
    }
    void write(const std::string &name, const std::string &s) const { std::ofstream(d + "/" + name) << s; }
    std::string read(const std::string &name) const
    {
        std::ifstream f(d + "/" + name);
        return {std::istreambuf_iterator<char>(f), {}};
    }
};
struct Job {
    pid_t pid;
    std::string role, dir;
};
static Job start(const std::string &role, uint64_t entropy, const std::vector<std::string> &dirs)
{
    std::vector<std::string> envs = {"C27_ROLE=" + role, "C27_ENTROPY=" + std::to_string(entropy), "OMP_NUM_THREADS=2"};
    for (char **e = environ; *e; e++)
        if (strncmp(*e, "C27_", 4) && strncmp(*e, "OMP_NUM", 7)) envs.push_back(*e);
    std::vector<char *> ev, av;
    for (auto &e : envs) ev.push_back(e.data());
    ev.push_back(nullptr);
    std::vector<std::string> args = {"c27"};
    args.insert(args.end(), dirs.begin(), dirs.end());
    for (auto &a : args) av.push_back(a.data());
    av.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    std::string in = dirs[0] + "/input.txt", out = dirs[0] + "/out", err = dirs[0] + "/err";
    posix_spawn_file_actions_addopen(&fa, 0, access(in.c_str(), R_OK) ? "/dev/null" : in.c_str(), O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    Job j{0, role, dirs[0]};
    int e = posix_spawn(&j.pid, "/proc/self/exe", &fa, nullptr, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    if (e) throw std::runtime_error("posix_spawn");
    return j;
}
static void finish(Case &c, const Job &j)
{
    int st;
    while (waitpid(j.pid, &st, 0) < 0)
        if (errno != EINTR) throw std::runtime_error("waitpid");
    std::ifstream f(j.dir + "/err");
    std::string e{std::istreambuf_iterator<char>(f), {}};
    if (WIFSIGNALED(st)) c.fail("the %s process died of signal %d (%s)", j.role.c_str(), WTERMSIG(st), e.substr(0, 200).c_str());
    if (WEXITSTATUS(st)) c.fail("the %s process failed with status %d (%s)", j.role.c_str(), WEXITSTATUS(st), e.substr(0, 200).c_str());
}

// Circuits of one to three clients, cut into sessions: each session is a new
// server process working on the files the last one left.
struct Line {
    int g;
    size_t r, a, b, c;
};
static void adder(std::vector<Line> &l, size_t &n, const std::vector<size_t> &x, const std::vector<size_t> &y, bool inplace)
{
    // sum of two numbers; the carry is a wire that is overwritten or a new one
    size_t carry = n++;
    l.push_back({13, carry, 0, 0, 0});
    for (size_t i = 0; i < x.size(); i++) {
        size_t p = n++, s = n++, g = n++, q = n++, co = inplace ? carry : n++;
        l.push_back({5, p, x[i], y[i], 0});
        l.push_back({5, s, p, carry, 0});
        l.push_back({3, g, x[i], y[i], 0});
        l.push_back({3, q, p, carry, 0});
        l.push_back({4, co, g, q, 0});
        carry = co;
    }
}
PROPERTY(workflow, 24, 600)
{
    struct Client {
        Scratch s;
        Session ses;
        std::string bits;
        std::vector<Line> lines;
        std::vector<bool> value;
        size_t next = 0;
    };
    int nc = 1 + c.below(3), sessions = 1 + c.below(3);
    std::vector<std::unique_ptr<Client>> cl;
    c.nontrivial();
    for (int i = 0; i < nc; i++) {
        auto k = std::make_unique<Client>();
        k->ses.level = c.below(2) ? 0 : 1;
        k->ses.portable = !c.flip();
        k->ses.packet = c.flip();
        int n = 2 + c.below(11);
        pbt::Bulk b(c.seed());
        for (int j = 0; j < n; j++) k->bits += '0' + b.below(2);
        size_t w = n;
        std::string kind;
        if (c.chance(1, 3)) {
            std::vector<size_t> x, y;
            for (int j = 0; j < n / 2; j++) x.push_back(2 * j), y.push_back(2 * j + 1);
            adder(k->lines, w, x, y, c.flip());
            kind = fmt("adder of %d bits", n / 2);
        }
        else {
            int gates = 1 + c.below(30);
            for (int j = 0; j < gates; j++) {
                Line l;
                l.g = c.below(NG);
                l.a = c.flip() ? w - 1 : c.below(w);
                l.b = c.below(w);
                l.c = c.below(w);
                l.r = c.chance(1, 5) ? c.below(w) : w++;
                k->lines.push_back(l);
            }
            kind = fmt("random circuit of %d gates", gates);
        }
        c.note("client %d: level %d, %s archive%s, inputs %s, %s", i, k->ses.level, k->ses.portable ? "portable" : "native", k->ses.packet ? ", packets" : "", k->bits.c_str(), kind.c_str());
        c.label(fmt("level %d %s", k->ses.level, kind.substr(0, 6).c_str()));
        for (char ch : k->bits) k->value.push_back(ch == '1');
        k->s.write("session.txt", fmt("%d %d %d\n", k->ses.level, k->ses.portable, k->ses.packet));
        k->s.write("input.txt", k->bits + "\n");
        cl.push_back(std::move(k));
    }
    bool threads = nc > 1 && c.flip();
    uint64_t ent = c.seed();
    c.note("%d client%s, %d server process%s%s", nc, nc > 1 ? "s" : "", sessions, sessions > 1 ? "es" : "", threads ? ", a thread per client" : "");
    c.label(fmt("%d clients%s", nc, threads ? " threads" : ""));
    auto each = [&](const char *role) {
        std::vector<Job> js;
        for (size_t i = 0; i < cl.size(); i++) js.push_back(start(role, pbt::hash2(ent++, i), {cl[i]->s.d}));
        std::exception_ptr e;
        for (auto &j : js) try {
                finish(c, j);
            }
            catch (...) {
                e = std::current_exception();
            }
        if (e) std::rethrow_exception(e);
    };
    each("keygen");
    each("encrypt");
    std::vector<std::string> dirs;
    for (auto &k : cl) dirs.push_back(k->s.d);
    for (int s = 0; s < sessions; s++) {
        for (auto &k : cl) {
            size_t end = s == sessions - 1 ? k->lines.size() : k->lines.size() * (s + 1) / sessions;
            std::string t;
            for (; k->next < end; k->next++) {
                auto &l = k->lines[k->next];
                t += fmt("%d %zu %zu %zu %zu\n", l.g, l.r, l.a, l.b, l.c);
                bool v = eval(l.g, k->value[l.a], k->value[l.b], k->value[l.c]);
                if (l.r >= k->value.size()) k->value.resize(l.r + 1);
                k->value[l.r] = v;
            }
            k->s.write("gates.txt", t);
        }
        finish(c, start(threads ? "cloud-threads" : "cloud", ent++, dirs));
        each("verify");
        for (size_t i = 0; i < cl.size(); i++) {
            std::string got = cl[i]->s.read("out"), want;
            for (bool b : cl[i]->value) want += '0' + b;
            if (got != want + "\n") c.fail("client %zu, after session %d: wires decrypt to %s, expected %s", i, s, got.c_str(), want.c_str());
        }
    }
}
// The programs of the tutorial: which of two 16-bit numbers is larger.
PROPERTY(tutorial, 16, 400)
{
    Scratch s;
    auto number = [&](uint16_t near) -> uint16_t {
        switch (c.below(6)) {
        case 0: return near;
        case 1: return near ^ (1 << c.below(16));
        case 2: return near + (c.flip() ? 1 : -1);
        case 3: return c.flip() ? 0xffff : 0;
        default: return c.below(65536);
        }
    };
    uint16_t client = number(0);
    uint64_t ent = c.seed();
    c.note("client %u", client);
    c.nontrivial();
    s.write("input.txt", fmt("%u\n", client));
    finish(c, start("tutorial-client", pbt::hash2(ent, 1), {s.d}));
    for (int i = 0; i < 3; i++) {
        uint16_t cloud = number(client);
        c.note("cloud %u", cloud);
        c.label(client == cloud ? "equal" : client > cloud ? "client larger" : "cloud larger");
        s.write("input.txt", fmt("%u\n", cloud));
        finish(c, start("tutorial-cloud", pbt::hash2(ent, 2 + i), {s.d}));
        finish(c, start("tutorial-verify", pbt::hash2(ent, 99), {s.d}));
        std::string got = s.read("out"), want = client == cloud ? "Equall!" : client > cloud ? "Client is the millionaire!" : "Cloud is the millionaire!";
        if (got != want + "\n") c.fail("client %u and cloud %u: the result is \"%s\"", client, cloud, got.c_str());
    }
}
