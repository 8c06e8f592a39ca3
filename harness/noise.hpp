// The configured noise law of a level and two-sided tests against it.
#pragma once
#include "tf.hpp"
namespace tf {
// Standard deviation (in torus units) of the noise the level is configured for.
template <class P>
double alpha()
{
    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) return P::α;
    else return std::sqrt(P::η / 2.0) / (double)P::q;
}
// the same for TLWE samples: binomial noise is scaled by 2^-qbit there, by 1/q
// in ring samples
template <class P>
double alpha_tlwe()
{
    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) return P::α;
    else return std::ldexp(std::sqrt(P::η / 2.0), -(int)P::qbit);
}
template <class P>
double ulp() { return std::ldexp(1.0, -W<typename P::T>); }

// Two-sided test of a batch of noise samples against N(0, sigma); the
// conversion to a word may truncate by up to one unit.
template <class P>
void noise_law(Case &c, const char *what, const Err &e, double sigma, double extra = 0)
{
    double n = e.e.size(), u = ulp<P>() + extra, sd = e.sd();
    if (sigma == 0) {
        if (e.max() > extra) c.fail("%s: zero noise requested, error 2^%.2f", what, std::log2(e.max()));
        return;
    }
    if (!(e.max() <= 9.5 * sigma + u)) c.fail("%s: noise of %.2f standard deviations", what, e.max() / sigma);
    if (n < 16) return;
    double ci = 8 / std::sqrt(2 * n);
    if (!(sd <= sigma * (1 + 1.3 * ci) + u && sd >= (sigma - u) * (1 - ci))) c.fail("%s: %d samples have standard deviation %.4g, configured %.4g", what, (int)n, sd, sigma);
    if (!(std::fabs(e.mean()) <= 8 * sigma / std::sqrt(n) + 0.02 * ulp<P>() + extra)) c.fail("%s: %d samples have mean %.4g (standard deviation %.4g)", what, (int)n, e.mean(), sigma);
    c.metric(fmt("%s:%s:sd/sigma", pname<P>(), what), sd / sigma);
    c.metric(fmt("%s:%s:|mean|*sqrt(n)/sigma", pname<P>(), what), std::fabs(e.mean()) * std::sqrt(n) / sigma);
}
}  // namespace tf
