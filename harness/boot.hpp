// Noise of bootstrapping and of key switching, and shared evaluation keys.
#pragma once
#include "bounds.hpp"
#include "fix.hpp"
namespace tf {
// blind rotation of a test vector (see C16)
template <class P>
Bound boot_noise(Backend be, const Key<typename P::domainP> &dk, const Key<typename P::targetP> &tk)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    double h = hw<G>(tk), n = D::k * D::n, hd = hw<D>(dk);
    constexpr int reps = D::key_value_diff;
    // every step adds its row noise; only nonzero key bits add decomposition error
    Bound z = extprod<G>(be, alpha<G>(), h, 0, 0, true, false);
    Bound o = extprod<G>(be, alpha<G>(), h, 1, 1, true, false);
    Bound b;
    b.var = n * reps * z.var + hd * (o.var - z.var) * reps;
    if constexpr (P::Addends == 2) {
        // key bundles: a product per pair of bits, by 1 + sum of three rows
        // times X^a - 1, whose phase is a monomial
        if (be == FFT) b.var = n / 2 * extprod<G>(be, alpha<G>() * std::sqrt(6.0), h, 1, 1, true, false).var;
    }
    // the first step works on the (non-uniform) test vector itself
    Bound f = extprod<G>(be, alpha<G>(), h, 1, 1, false, false);
    b.var += 3 * f.var;
    b.max += f.max / (1 + h) * 4 + 2 * ulp<G>();
    return b;
}
// Rounding a word to steps of 2n drops a few bits and rounds ties up: with
// d bits dropped every selected word is off by 2^-(d+1) steps on average.
template <class P>
double drift_bias(const Key<typename P::domainP> &dk)
{
    using D = typename P::domainP;
    return 0.5 + hw<D>(dk) * std::ldexp(1.0, -(W<typename D::T> - 1 - (int)P::targetP::nbit) - 1);
}
// largest rotation error, in steps of 2n
template <class P>
double drift(const Key<typename P::domainP> &dk)
{
    double h = hw<typename P::domainP>(dk);
    return 8 * std::sqrt(h / 12) + 1 + drift_bias<P>(dk);
}
// Distance from the sign boundary at which a phase, switched with noise of the
// given standard deviation, is still read correctly all but once in 300000
// times (4.5 standard deviations of everything that is random).
template <class P>
double tight_guard(const Key<typename P::domainP> &dk, double switched_sigma)
{
    const double n2 = 2.0 * P::targetP::n, d = std::sqrt(hw<typename P::domainP>(dk) / 12 + 1 / 12.0) / n2;
    return 4.5 * std::sqrt(switched_sigma * switched_sigma + d * d) + drift_bias<P>(dk) / n2 + ulp<typename P::domainP>();
}
// `right` evaluates with fresh randomness. One wrong result may be chance:
// six more decide (below 1e-9 when each is wrong once in 300000 times).
template <class F>
int confirmed_wrong(F right)
{
    if (right()) return 0;
    int wrong = 0;
    for (int i = 0; i < 6; i++) wrong += !right();
    return wrong >= 2 ? wrong : 0;
}
// identity key switch of a typical sample (see C13)
template <class P>
Bound ks_noise(const Key<typename P::domainP> &dk)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    double a = alpha<G>(), u = ulp<G>(), n = D::k * D::n;
    double delta = P::t * P::basebit < (uint32_t)W<typename D::T> ? std::ldexp(1.0, -(int)(P::t * P::basebit) - 1) : 0;
    Bound b;
    b.var = n * P::t * (a * a + u * u / 3) * (1 - std::ldexp(1.0, -(int)P::basebit)) + hw<D>(dk) * delta * delta / 3;
    b.max = W<typename D::T> > W<typename G::T> ? u : 0;
    return b;
}
}  // namespace tf
