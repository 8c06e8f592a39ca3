// Reference models and generators shared by the harnesses. Nothing here uses
// the library's polynomial or phase code: references are schoolbook.
#pragma once
#include <omp.h>

#include <cmath>
#include <limits>
#include <memory>
#include <tfhe++.hpp>

#include "pbt.hpp"

namespace tf {
using namespace TFHEpp;
using pbt::Bulk;
using pbt::Case;
using pbt::fmt;

// zeroed heap objects aligned for the vector code
struct BigDelete {
    template <class T>
    void operator()(T *p) const
    {
        p->~T();
        ::operator delete((void *)p, std::align_val_t(64));
    }
};
template <class T>
using Big = std::unique_ptr<T, BigDelete>;
template <class T>
Big<T> big() { return Big<T>(new (std::align_val_t(64)) T()); }

template <class T>
constexpr int W = std::numeric_limits<T>::digits;
template <class T>
using S = std::make_signed_t<T>;
// torus word as a real number in [-1/2, 1/2)
template <class T>
double real(T x) { return std::ldexp((double)(S<T>)x, -W<T>); }
// distance between torus words, in torus units
template <class T>
double dist(T a, T b) { return real<T>((T)(a - b)); }

// ---- exact negacyclic arithmetic over Z_{2^w} --------------------------------
// res += a * b in Z_{2^w}[X]/(X^n+1); zero coefficients of b are skipped.
template <class T, size_t N>
void negacyclic_acc(std::array<T, N> &res, const std::array<T, N> &a, const std::array<T, N> &b)
{
    std::vector<T> t(2 * N, 0);
    for (size_t i = 0; i < N; i++) {
        const T m = b[i];
        if (m == 0) continue;
        T *o = t.data() + i;
        const T *p = a.data();
        if (m == (T)1) for (size_t j = 0; j < N; j++) o[j] += p[j];
        else if (m == (T)-1) for (size_t j = 0; j < N; j++) o[j] -= p[j];
        else for (size_t j = 0; j < N; j++) o[j] += (T)(m * p[j]);
    }
    for (size_t j = 0; j < N; j++) res[j] += (T)(t[j] - t[j + N]);
}
template <class T, size_t N>
std::array<T, N> negacyclic(const std::array<T, N> &a, const std::array<T, N> &b)
{
    std::array<T, N> r{};
    negacyclic_acc(r, a, b);
    return r;
}
// X^a * p
template <class P>
Polynomial<P> mul_xa(const Polynomial<P> &p, uint64_t a)
{
    Polynomial<P> r{};
    for (uint64_t i = 0; i < P::n; i++) {
        uint64_t e = (i + a) % (2 * P::n);
        if (e < P::n) r[e] += p[i];
        else r[e - P::n] -= p[i];
    }
    return r;
}
template <class P>
Polynomial<P> automorphism(const Polynomial<P> &p, uint64_t d)
{
    Polynomial<P> r{};
    for (uint64_t i = 0; i < P::n; i++) {
        uint64_t e = (i * d) % (2 * P::n);
        if (e < P::n) r[e] += p[i];
        else r[e - P::n] -= p[i];
    }
    return r;
}

template <class P>
Polynomial<P> keypart(const Key<P> &key, int k)
{
    Polynomial<P> r;
    for (uint32_t i = 0; i < P::n; i++) r[i] = key[k * P::n + i];
    return r;
}
template <class P>
Polynomial<P> ref_phase(const TRLWE<P> &c, const Key<P> &key)
{
    Polynomial<P> m{};
    for (uint32_t k = 0; k < P::k; k++) negacyclic_acc(m, c[k], keypart<P>(key, k));
    Polynomial<P> r = c[P::k];
    for (uint32_t i = 0; i < P::n; i++) r[i] -= m[i];
    return r;
}
template <class P>
typename P::T ref_phase(const TLWE<P> &c, const Key<P> &key)
{
    typename P::T r = c[P::k * P::n];
    for (uint32_t i = 0; i < P::k * P::n; i++) r -= (typename P::T)((uint64_t)c[i] * key[i]);
    return r;
}
template <class P>
int hw(const Key<P> &key)
{
    int h = 0;
    for (auto v : key) h += v != 0;
    return h;
}

// ---- statistics ---------------------------------------------------------------
struct Err {
    std::vector<double> e;
    void add(double x) { e.push_back(x); }
    double mean() const
    {
        double s = 0;
        for (double x : e) s += x;
        return e.empty() ? 0 : s / e.size();
    }
    double sd() const
    {
        double s = 0;
        for (double x : e) s += x * x;
        return e.empty() ? 0 : std::sqrt(s / e.size());
    }
    double max() const
    {
        double m = 0;
        for (double x : e) m = std::max(m, std::fabs(x));
        return m;
    }
};
// All errors of one case against a bound on their standard deviation sigma:
// every single error within z*sigma, the sample's rms within its confidence
// interval.  slack widens the rms interval for weakly dependent samples.
inline void check_noise(Case &c, const char *what, const Err &e, double sigma, double z = 9, double slack = 1.0)
{
    double n = e.e.size(), mx = e.max(), sd = e.sd();
    c.metric(pbt::fmt("%s:max/sigma", what), mx / sigma);
    c.metric(pbt::fmt("%s:rms/sigma", what), sd / sigma);
    if (!(mx <= z * sigma)) c.fail("%s: error 2^%.2f exceeds %.1f standard deviations of the noise bound (2^%.2f)", what, std::log2(mx), z, std::log2(sigma));
    double lim = sigma * slack * std::sqrt(1 + z * std::sqrt(2 / n));
    if (n >= 32 && !(sd <= lim)) c.fail("%s: rms error 2^%.2f over %d samples exceeds the noise bound 2^%.2f", what, std::log2(sd), (int)n, std::log2(lim));
}
inline void check_centred(Case &c, const char *what, const Err &e, double sigma, double z = 8)
{
    double n = e.e.size(), m = e.mean();
    c.metric(pbt::fmt("%s:mean*sqrt(n)/sigma", what), std::fabs(m) * std::sqrt(n) / sigma);
    if (std::fabs(m) * std::sqrt(n) > z * sigma) c.fail("%s: mean error %.3g over %d samples is biased (bound %.3g)", what, m, (int)n, z * sigma / std::sqrt(n));
}

// ---- generators ----------------------------------------------------------------
// A torus polynomial; returns a short description. uniform==true only when all
// coefficients are uniform.
template <class T, size_t N>
std::string gen_poly(Case &c, std::array<T, N> &p, bool *uniform = nullptr)
{
    if (uniform) *uniform = false;
    p = {};
    switch (c.below(10)) {
    case 0: return "zero";
    case 1: {
        T v = c.word<T>();
        p.fill(v);
        return pbt::fmt("const %#" PRIx64, (uint64_t)v);
    }
    case 2: {
        size_t i = c.chance(1, 3) ? N - 1 - c.below(2) : c.below(N);
        T v = c.word<T>();
        p[i] = v;
        return pbt::fmt("monomial %#" PRIx64 "*X^%zu", (uint64_t)v, i);
    }
    case 3: {
        int k = 1 + c.below(6);
        for (int i = 0; i < k; i++) p[c.below(N)] = c.word<T>();
        return pbt::fmt("sparse %d", k);
    }
    case 4: {  // boundary values everywhere
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) {
            T base = (T)1 << b.below(W<T>);
            switch (b.below(5)) {
            case 0: v = 0; break;
            case 1: v = (T)-1; break;
            case 2: v = base; break;
            case 3: v = (T)(base - 1); break;
            default: v = (T)-base;
            }
        }
        return pbt::fmt("boundary seed %" PRIu64, s);
    }
    case 5: {  // two alternating words
        T a = c.word<T>(), b = c.word<T>();
        for (size_t i = 0; i < N; i++) p[i] = i & 1 ? a : b;
        return pbt::fmt("alternating %#" PRIx64 ",%#" PRIx64, (uint64_t)a, (uint64_t)b);
    }
    default: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = (T)b.next();
        if (uniform) *uniform = true;
        return pbt::fmt("uniform seed %" PRIu64, s);
    }
    }
}
// A polynomial with coefficients in [-B, B] (as two's complement words).
template <class T, size_t N>
std::string gen_small(Case &c, std::array<T, N> &p, int64_t B, int64_t lo)
{
    p = {};
    auto in = [&](Bulk &b) { return (T)(int64_t)(lo + (int64_t)b.below(B - lo + 1)); };
    switch (c.below(8)) {
    case 0: p[0] = (T)1; return "one";
    case 1: return "zero";
    case 2: {
        size_t i = c.chance(1, 3) ? N - 1 : c.below(N);
        int64_t v = c.range(lo, B);
        p[i] = (T)v;
        return pbt::fmt("monomial %" PRId64 "*X^%zu", v, i);
    }
    case 3: {
        int64_t v = c.flip() ? B : lo;
        p.fill((T)v);
        return pbt::fmt("all %" PRId64, v);
    }
    case 4: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = (T)(b.below(2) ? B : lo);
        return pbt::fmt("extremes seed %" PRIu64, s);
    }
    default: {
        uint64_t s = c.seed();
        Bulk b(s);
        for (auto &v : p) v = in(b);
        return pbt::fmt("random seed %" PRIu64, s);
    }
    }
}
// sum of squares / of absolute values of small coefficients
template <class T, size_t N>
double norm2sq(const std::array<T, N> &p)
{
    double s = 0;
    for (auto v : p) s += (double)(S<T>)v * (double)(S<T>)v;
    return s;
}
template <class T, size_t N>
double norm1(const std::array<T, N> &p)
{
    double s = 0;
    for (auto v : p) s += std::fabs((double)(S<T>)v);
    return s;
}
template <class T>
void uniform_fill(Bulk &b, T *p, size_t n)
{
    for (size_t i = 0; i < n; i++) p[i] = (T)b.next();
}
// A TRLWE ciphertext of a chosen phase under key, made by the harness itself:
// uniform mask, phase exactly `phase`.
template <class P>
TRLWE<P> make_trlwe(Bulk &b, const Polynomial<P> &phase, const Key<P> &key)
{
    TRLWE<P> c{};
    for (uint32_t k = 0; k < P::k; k++) uniform_fill(b, c[k].data(), P::n);
    c[P::k] = phase;
    for (uint32_t k = 0; k < P::k; k++) negacyclic_acc(c[P::k], c[k], keypart<P>(key, k));
    return c;
}
template <class P>
TLWE<P> make_tlwe(Bulk &b, typename P::T phase, const Key<P> &key)
{
    TLWE<P> c{};
    uniform_fill(b, c.data(), P::k * P::n);
    c[P::k * P::n] = phase;
    for (uint32_t i = 0; i < P::k * P::n; i++) c[P::k * P::n] += (typename P::T)(c[i] * key[i]);
    return c;
}
template <class P>
const char *pname()
{
    if (std::is_same_v<P, lvl0param>) return "lvl0";
    if (std::is_same_v<P, lvlhalfparam>) return "lvlhalf";
    if (std::is_same_v<P, lvl1param>) return "lvl1";
    if (std::is_same_v<P, lvl2param>) return "lvl2";
    if (std::is_same_v<P, lvl3param>) return "lvl3";
    return "?";
}
}  // namespace tf
