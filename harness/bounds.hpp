// Analytic error bounds of external products, in torus units.
#pragma once
#include "noise.hpp"
namespace tf {
enum Backend { FFT, NTT, RAINTT };
inline const char *bname(Backend b) { return b == FFT ? "FFT" : b == NTT ? "NTT" : "RAINTT"; }

struct Bound {
    double var = 0;  // variance (typical inputs)
    double max = 0;  // additive deterministic worst case (adversarial inputs)
    Bound &operator+=(const Bound &o)
    {
        var += o.var, max += o.max;
        return *this;
    }
    double sigma() const { return std::sqrt(var); }
    double limit(double z = 9.5) const { return z * sigma() + max; }
};
// Per-coefficient rounding of one frequency-domain accumulation of `rows`
// digit polynomials times uniform torus polynomials.
template <class P>
double fft_round(double rows, double digit_rms)
{
    // 2^-53 relative, on products of l2 norms; 0.5 is over twice what is seen
    double a = digit_rms * std::sqrt(rows * P::n), b = std::sqrt((double)P::n / 12);
    return 0.5 * std::ldexp(1.0, -53) * a * b + ulp<P>();
}
template <class P>
double norm_ms(const Polynomial<P> &m, const Key<P> &key)
{
    double r = norm2sq(m);
    for (uint32_t k = 0; k < P::k; k++) r += norm2sq(negacyclic(m, keypart<P>(key, k)));
    return r;
}
// External product of a sample by TRGSW(m): m2 = |m|_2^2, m1 = |m|_1.
// typical: the sample's words are uniform. aligned: multiples of the last
// gadget weight (no decomposition error). ms2: |m|^2 + sum_k |m s_k|^2 (without
// it, m must have one coefficient).
template <class P>
Bound extprod(Backend be, double sigma, double hw, double m2, double m1, bool typical, bool aligned, bool half = false, double ms2 = -1)
{
    const double rows = half ? P::l : (P::k + 1) * P::l, Bg = P::Bg, u = ulp<P>();
    const double comps = half ? 1 : 1 + hw;
    double row = sigma * sigma;
    if (be == RAINTT) {
        double q = std::ldexp(1.0, W<typename P::T>) / (double)raintt::P * u;
        // digits with a mean (arbitrary ones for adversarial inputs) make a
        // binary key's ones add up
        double h2 = P::key_value_min < 0 ? 0 : typical ? hw * hw * 3 / ((double)P::Bg * P::Bg) : hw * hw;
        row += (1 + hw + h2) * q * q / 12 * 1.5;
    }
    if (be == NTT && sizeof(typename P::T) == 8) row += (1 + hw) * u * u;
    Bound b;
    const double digit2 = typical ? (Bg * Bg + 2) / 12 : Bg * Bg / 4;
    b.var += rows * P::n * digit2 * row;
    const double delta = std::ldexp(1.0, -(int)(P::l * P::Bgbit) - 1);
    if (!aligned) {
        if (typical) b.var += (ms2 < 0 ? m2 * comps : ms2) * delta * delta / 3;
        else b.max += m1 * comps * delta;
    }
    double rnd = 0;
    if (be == FFT) rnd = fft_round<P>(rows, std::sqrt(digit2));
    // 32-bit words enter the field unsigned, a negative digit as 2^32-|d|: the
    // result is exact modulo p = 2^64-2^32+1, i.e. each wrap costs one unit
    if (be == NTT) rnd = sizeof(typename P::T) == 8 ? 2 * u : rows * P::n / 4 * u;
    if (be == RAINTT) rnd = (1 + std::ldexp(1.0, W<typename P::T>) / (double)raintt::P) * u;
    // the rounding of encryption has a mean, large with a binary key
    if (!typical && sizeof(typename P::T) == 4 && P::key_value_min == 0) b.max += rows * P::n * Bg / 2 * u / 2;
    // wraps have a sign: they add up over the ones of a binary key
    if (be == NTT && sizeof(typename P::T) == 4 && P::key_value_min == 0) b.max += hw * rnd;
    b.var += (1 + hw) * rnd * rnd;
    if (!typical) b.max += 4 * std::sqrt(1 + hw) * rnd;
    return b;
}
template <class P>
Bound extprod_typical(Backend be, double sigma, double hw, double m2)
{
    return extprod<P>(be, sigma, hw, m2, m2, true, false);
}
}  // namespace tf
