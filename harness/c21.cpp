// One build configuration: its parameters fit together, and the budgets its
// numbers promise are there.
#include <tfhe++.hpp>
#include "vh.hpp"
#include "model.hpp"
using namespace TFHEpp;
using vh::fail, vh::eval, vh::metric, vh::tally;
#define CHECK(key, c, ...) do { if (!(c)) fail(key, __VA_ARGS__); eval(); } while (0)
template <class P> void lwe(const char *n)
{
    constexpr int w = std::numeric_limits<typename P::T>::digits;
    const double q = std::ldexp(1.0, w);
    CHECK(std::string("alphabet:") + n, P::key_value_min <= 0 && P::key_value_max == 1 && P::key_value_min >= -1, "%s: keys range over [%d, %d]", n, P::key_value_min, P::key_value_max);
    CHECK(std::string("alpha:") + n, P::α > 0 && P::α < 1.0 / 16, "%s: noise of %g", n, (double)P::α);
    CHECK(std::string("mu:") + n, (typename P::T)P::μ == (typename P::T)(typename P::T(1) << (w - 3)), "%s: μ is not an eighth of the torus", n);
    CHECK(std::string("mu-sign:") + n, P::μ > 0 && (P::μ >> (w - 3)) == 1, "%s: μ is not positive", n);
    const double pm = (double)P::plain_modulus, top = (double)P::Δ * pm / q;
    CHECK(std::string("message:") + n, top <= 1.0000001 && top >= 0.4999999, "%s: %g messages %g apart cover %g of the torus", n, pm, (double)P::Δ, top);
    CHECK(std::string("message-noise:") + n, P::Δ / q / 2 > 7 * P::α, "%s: fresh noise of %g does not leave room for messages %g apart", n, (double)P::α, (double)P::Δ / q);
    metric(std::string("lwe ") + n + " dimension", P::k * P::n);
    metric(std::string("lwe ") + n + " log2 noise", std::log2((double)P::α));
    metric(std::string("lwe ") + n + " log2 modulus", w);
    metric(std::string("lwe ") + n + " alphabet", P::key_value_max - P::key_value_min + 1);
}
template <class P> void ring(const char *n)
{
    constexpr int w = std::numeric_limits<typename P::T>::digits;
    CHECK(std::string("dimension:") + n, P::n == (1u << P::nbit) && P::k >= 1, "%s: dimension %u is not 2^%u", n, P::n, P::nbit);
    CHECK(std::string("base:") + n, P::Bg == (1u << P::Bgbit), "%s: base %u is not 2^%u", n, (unsigned)P::Bg, (unsigned)P::Bgbit);
    CHECK(std::string("digits:") + n, P::l >= 1 && P::l * P::Bgbit <= (unsigned)w, "%s: %u digits of %u bits in a word of %d", n, (unsigned)P::l, (unsigned)P::Bgbit, w);
}
template <class P> void ks(const char *n)
{
    constexpr int w = std::numeric_limits<typename P::domainP::T>::digits, tw = std::numeric_limits<typename P::targetP::T>::digits;
    CHECK(std::string("ks-digits:") + n, P::t >= 1 && P::basebit >= 1 && P::t * P::basebit < (unsigned)w && P::t * P::basebit <= (unsigned)tw, "%s: %u digits of %u bits", n, (unsigned)P::t, (unsigned)P::basebit);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    lwe<lvl0param>("lvl0"); lwe<lvlhalfparam>("lvlhalf"); lwe<lvl1param>("lvl1"); lwe<lvl2param>("lvl2"); 
    ring<lvl1param>("lvl1"); ring<lvl2param>("lvl2"); ring<lvl3param>("lvl3");
    ks<lvl10param>("lvl10"); ks<lvl1hparam>("lvl1h"); ks<lvl11param>("lvl11"); ks<lvl20param>("lvl20"); ks<lvl2hparam>("lvl2h"); ks<lvl21param>("lvl21"); ks<lvl22param>("lvl22"); ks<lvl31param>("lvl31");
    // gate: two bootstrapped inputs, margin of a sixteenth
    auto gate = [&](const char *n, double out, double ms) {
        const double z = 1.0 / 8 / std::sqrt(2 * out + ms);
        metric(std::string("gate margin in standard deviations ") + n, z);
        CHECK(std::string("gate-margin:") + n, z > 5.5, "%s: the noise of a gate's input leaves %.2f standard deviations before it decides wrongly", n, z);
    };
    const double k10 = vh::ksvar<lvl10param>(), b01 = vh::brvar<lvl01param>();
    gate("lvl1", b01 + k10 / 2, vh::msvar<lvl01param>());
    gate("lvl0", b01 + k10, vh::msvar<lvl01param>());
    gate("lvl1 by half", vh::brvar<lvlh1param>() + vh::ksvar<lvl1hparam>() / 2, vh::msvar<lvlh1param>());
    gate("lvl2 by lvl0", vh::brvar<lvl02param>() + vh::ksvar<lvl20param>() / 2, vh::msvar<lvl02param>());
    // the stored description of a key set names these parameters
    lweParams p;
    CHECK("description", p.lvl0.n == lvl0param::n && p.lvl0.α == lvl0param::α && p.lvl1.n == lvl1param::n && p.lvl1.l == lvl1param::l && p.lvl1.Bgbit == lvl1param::Bgbit && p.lvl1.α == lvl1param::α &&
          p.lvl2.n == lvl2param::n && p.lvl2.l == lvl2param::l && p.lvl2.Bgbit == lvl2param::Bgbit && p.lvl10.t == lvl10param::t && p.lvl10.basebit == lvl10param::basebit && p.lvl20.t == lvl20param::t &&
          p.lvl20.basebit == lvl20param::basebit && p.lvl21.t == lvl21param::t && p.lvl21.basebit == lvl21param::basebit && p.lvl22.t == lvl22param::t && p.lvl22.basebit == lvl22param::basebit,
          "the recorded parameters are not those compiled in");
    // NTT bootstrapping with ternary keys (with binary ones: C08)
    if constexpr (lvl0param::key_value_min < 0) {
        using P = lvl01param; using Q = lvl1param; using D = lvl0param;
        auto sk = std::make_unique<SecretKey>();
        auto bk = std::make_unique<BootstrappingKeyNTT<P>>();
        bknttgen<P>(*bk, *sk);
        int bad = 0;
        for (int i = 0; i < 40; i++) {
            auto c = tlweSymEncrypt<D>((D::T)(i & 1 ? D::μ : -D::μ), sk->key.lvl0);
            TLWE<Q> o;
            GateBootstrappingTLWE2TLWENTT<P>(o, c, *bk, μpolygen<Q, Q::μ>());
            bad += ((std::make_signed_t<Q::T>)vh::ref_phase<Q>(o, sk->key.lvl1) > 0) != (i & 1);
            eval();
        }
        if (bad) fail("ntt-ternary", "%d of 40 bootstrappings with the NTT form of the key decide wrongly", bad);
        tally("NTT bootstrappings", 40);
    }
    return vh::finish();
}
