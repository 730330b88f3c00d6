// Predicted noise of the evaluated operations, from the parameters alone.
#pragma once
#include <tfhe++.hpp>
#include "vh.hpp"
namespace vh {
template <class P> double digit2() { return (double(P::Bg) * P::Bg + 2) / 12; }
// decomposition error of one gadget product with a plaintext of norm 1
template <class P> double dropvar()
{
    const double lw = std::ldexp(1.0, -(int)(P::l * P::Bgbit));
    return (1 + P::k * P::n * key_var<P>()) * lw * lw / 12;
}
template <class P> double fftvar()  // double rounding in one gadget product
{
    const double f = std::ldexp(1.0, -53 - 1) * std::sqrt((P::k + 1) * P::l * digit2<P>()) * P::n;
    return f * f;
}
// one external product with a plaintext of squared norm m2 and row noise a2
template <class P> double epvar(double m2, double a2) { return (P::k + 1) * P::l * P::n * digit2<P>() * a2 + m2 * dropvar<P>() + fftvar<P>(); }
// one bootstrapping (brP): does not depend on the input
template <class P> double brvar()
{
    using Q = typename P::targetP;
    using D = typename P::domainP;
    const size_t n = D::k * D::n;
#ifdef USE_KEY_BUNDLE
    return n / 2.0 * ((Q::k + 1) * Q::l * Q::n * digit2<Q>() * Q::α * Q::α * 6 + 2 * dropvar<Q>() + fftvar<Q>());
#else
#ifdef USE_TERNARY_CMUX
    const double rows = 2;
#else
    const double rows = 1;
#endif
    return n * (double)(D::key_value_max - D::key_value_min) * (rows * (Q::k + 1) * Q::l * Q::n * digit2<Q>() * Q::α * Q::α + fftvar<Q>()) + n * (2 * key_var<D>() + 0.5) * dropvar<Q>();
#endif
}
// one key switch between scalar ciphertexts
template <class P> double ksvar()
{
    using D = typename P::domainP;
    using Q = typename P::targetP;
    const double B = 1 << P::basebit, tb = P::t * P::basebit, qw = std::numeric_limits<typename Q::T>::digits;
    return D::k * D::n * (P::t * (1 - 1 / B) * (Q::α * Q::α + std::ldexp(1.0, -2 * qw) / 12) + key_var<D>() * std::ldexp(1.0, -2 * tb) / 12) + std::ldexp(1.0, -2 * qw) / 12;
}
// one ring key switch, per coefficient, with a function of largest coefficient f
template <class P> double privksvar(double f, bool subset = false)
{
    using D = typename P::domainP;
    using Q = typename P::targetP;
    const double B = 1 << P::basebit, tb = P::t * P::basebit, n = subset ? Q::k * Q::n : D::k * D::n;
    return (n + 1) * P::t * (1 - 1 / B) * Q::α * Q::α + f * f * (n * key_var<D>() + 1) * std::ldexp(1.0, -2 * tb) / 12;
}
// modulus switching to 2N before a blind rotation
template <class P> double msvar()
{
    using Q = typename P::targetP;
    using D = typename P::domainP;
    return (D::k * D::n * key_var<D>() + 1) / 12.0 * std::ldexp(1.0, -2 * (int)(Q::nbit + 1)) + std::ldexp(1.0, -2 * (int)(Q::nbit + 2));
}
template <class T> double tor(T x) { return std::ldexp((double)(std::make_signed_t<T>)x, -std::numeric_limits<T>::digits); }
}  // namespace vh
