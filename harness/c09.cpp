// C09: key switching between scalar ciphertexts.
#include <tfhe++.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> const char *nm()
{
    if (std::is_same_v<P, lvl10param>) return "lvl10";
    if (std::is_same_v<P, lvl1hparam>) return "lvl1h";
    if (std::is_same_v<P, lvl11param>) return "lvl11";
    if (std::is_same_v<P, lvl20param>) return "lvl20";
    if (std::is_same_v<P, lvl2hparam>) return "lvl2h";
    if (std::is_same_v<P, lvl21param>) return "lvl21";
    if (std::is_same_v<P, lvl22param>) return "lvl22";
    return "lvl31";
}
template <class P> constexpr int dw = std::numeric_limits<typename P::domainP::T>::digits;
template <class P> constexpr int tw = std::numeric_limits<typename P::targetP::T>::digits;
template <class P> using DT = typename P::domainP::T;
template <class P> using TT = typename P::targetP::T;

// error of the switched phase, in torus units
template <class P>
double err(const TLWE<typename P::targetP> &o, const TLWE<typename P::domainP> &c, const Key<typename P::domainP> &s, const Key<typename P::targetP> &z)
{
    const double a = std::ldexp((double)vh::ref_phase<typename P::domainP>(c, s), -dw<P>);
    const double b = std::ldexp((double)vh::ref_phase<typename P::targetP>(o, z), -tw<P>);
    double d = b - a;
    return d - std::floor(d + 0.5);
}
template <class P> void randkey(Key<P> &k, Rng &r, int cls)
{
    for (auto &x : k) {
        int v = cls == 1 ? P::key_value_max : cls == 2 ? P::key_value_min : cls == 3 ? 0 : P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1);
        x = (typename P::T)v;
    }
}
static const char *kc[] = {"random", "all maximal", "all minimal", "zero"};
template <class P>
void mkin(TLWE<typename P::domainP> &c, Rng &r, int cls, const Key<typename P::domainP> &s)
{
    using T = DT<P>;
    constexpr size_t n = P::domainP::k * P::domainP::n;
    constexpr int tb = P::t * P::basebit;
    switch (cls) {
    case 0: for (auto &x : c) x = (T)r.next(); break;
    case 1: for (auto &x : c) x = vh::edge<T>(r); break;
    case 2: c = tlweSymEncrypt<typename P::domainP>((T)r.next(), s); break;
    case 3: for (size_t i = 0; i < n; i++) { c[i] = (T)r.next(); if (tb < dw<P>) c[i] = (T)(c[i] << (dw<P> - tb)) + (T)((T(1) << (dw<P> - tb - 1)) - (T)r.below(2)); } c[n] = (T)r.next(); break;  // on the rounding edge
    default: for (auto &x : c) x = (T)-1; c[n] = (T)r.next();
    }
}
// signed: digit alphabet has 2^b values of which one is zero
template <class P, bool subset>
void run(uint64_t salt, int kcls)
{
    using D = typename P::domainP; using Q = typename P::targetP;
    Rng r(salt * 977 + kcls);
    const std::string L = std::string(subset ? "subset " : "") + nm<P>();
    constexpr size_t n = D::k * D::n, m = Q::k * Q::n;
    auto s = std::make_unique<Key<D>>(); auto z = std::make_unique<Key<Q>>();
    randkey<D>(*s, r, kcls);
    if constexpr (subset) { for (size_t i = 0; i < m; i++) (*z)[i] = (TT<P>)(std::make_signed_t<DT<P>>)(*s)[i]; }
    else randkey<Q>(*z, r, kcls == 0 ? 0 : (int)r.below(4));
    using KSK = std::conditional_t<subset, SubsetKeySwitchingKey<P>, KeySwitchingKey<P>>;
    auto ksk = std::make_unique_for_overwrite<KSK>();
    if constexpr (subset) subikskgen<P>(*ksk, *s); else ikskgen<P>(*ksk, *s, *z);
    auto sw = [&](TLWE<Q> &o, const TLWE<D> &c) {
        if constexpr (subset) SubsetIdentityKeySwitch<P>(o, c, *ksk); else IdentityKeySwitch<P>(o, c, *ksk);
    };
    constexpr int tb = P::t * P::basebit;
    double s2 = 0;
    const size_t first = subset ? m : 0;
    for (size_t i = first; i < n; i++) { double v = (double)(std::make_signed_t<DT<P>>)(*s)[i]; s2 += v * v; }
    const double B = 1 << P::basebit, a2 = Q::α * Q::α + std::ldexp(1.0, -2 * tw<P>) / 12, pz = 1 - 1 / B;
    const double round2 = tb < dw<P> ? s2 * std::ldexp(1.0, -2 * tb) / 12 : 0, word2 = (dw<P> > tw<P> ? (subset ? m * vh::key_var<Q>() + 1 : 1) : 0) * std::ldexp(1.0, -2 * tw<P>) / 12;
    const double var = (n - first) * P::t * pz * a2 + round2 + word2, sig = std::sqrt(var);
    auto c = std::make_unique<TLWE<D>>(); auto o = std::make_unique<TLWE<Q>>();
    Stat dense;
    const int reps = (n > 4000 ? 24 : 60) * (vh::thorough ? 6 : 1);
    for (int it = 0; it < reps; it++) {
        const int cls = it % 8 < 4 ? 0 : it % 8 - 3;
        mkin<P>(*c, r, cls, *s);
        o->fill((TT<P>)0x5a5a);     // what the result object held must not matter
        sw(*o, *c);
        const double e = err<P>(*o, *c, *s, *z);
        // inputs on rounding edges have coherent rounding errors
        const double ab = cls == 2 || cls == 0 ? 0 : std::ldexp(std::sqrt(s2) * std::sqrt(s2), -tb - 1) * (tb < dw<P>) ;
        if (std::fabs(e) > 8 * sig + ab) fail("phase:" + L, "%s key, input class %d: switched phase off by 2^%.2f (predicted sigma 2^%.2f)", kc[kcls], cls, std::log2(std::fabs(e)), std::log2(sig));
        if (cls == 0 || cls == 2) dense.add(e / sig);
        eval(); distinct(vh::hash_bytes(*c) + salt); tally("dense " + L);
    }
    // the part of the noise fixed by the key is shared by all inputs: 1/B of the variance
    const double mean = dense.mean(), rest = std::sqrt(std::max(0.0, dense.sq / dense.n - mean * mean));
    const double fixed = std::sqrt(1 / B + 1.0 / dense.n);
    if (std::fabs(mean) > 6 * fixed) fail("mean:" + L, "%s key: mean switching error is %.2f predicted standard deviations", kc[kcls], mean);
    if (rest > 1 + 4.5 / std::sqrt(2.0 * dense.n) + 0.1) fail("size:" + L, "%s key: switching error rms %.2f times the predicted noise", kc[kcls], rest);
    metric(L + " rms/predicted (" + kc[kcls] + " key)", dense.rms());
    // one coefficient at a time: every index, words at the digit edges
    const double one = std::sqrt(P::t * a2 + word2);
    Stat single;
    for (size_t i = 0; i < n; i++)
        for (int v = 0; v < (n > 4000 ? 1 : 2); v++) {
            c->fill(0);
            (*c)[n] = (DT<P>)r.next();
            (*c)[i] = v ? vh::edge<DT<P>>(r) : (DT<P>)r.next();
            sw(*o, *c);
            const double e = err<P>(*o, *c, *s, *z);
            const double lim = 8 * one + (tb < dw<P> ? std::ldexp(1.0, -tb - 1) : 0) * std::fabs((double)(std::make_signed_t<DT<P>>)(*s)[i]) + std::ldexp(2.0, -tw<P>);
            single.add(e / one);
            if (std::fabs(e) > lim) fail("index:" + L, "%s key, only coefficient %zu of the input set (%llx): phase off by 2^%.2f, limit 2^%.2f", kc[kcls], i, (unsigned long long)(*c)[i], std::log2(std::fabs(e)), std::log2(lim));
            eval();
        }
    tally("single-coefficient " + L, single.n);
    metric(L + " single-coefficient max/sigma", single.mx);
    // the body alone is carried exactly (up to the target word)
    for (int v = 0; v < 40; v++) {
        c->fill(0);
        (*c)[n] = v ? vh::edge<DT<P>>(r) : (DT<P>)-1;
        sw(*o, *c);
        const double e = err<P>(*o, *c, *s, *z);
        if (std::fabs(e) > std::ldexp(1.0, -tw<P>)) fail("body:" + L, "noiseless trivial input %llx: phase off by 2^%.2f", (unsigned long long)(*c)[n], std::log2(std::fabs(e)));
        eval();
    }
    if constexpr (!subset) {
        auto cat = [&]<uint K>() {
            auto in = std::make_unique<std::array<TLWE<D>, K>>();
            auto out = std::make_unique<std::array<TLWE<Q>, K>>();
            for (auto &x : *in) mkin<P>(x, r, r.below(5), *s);
            for (auto &x : *out) x.fill((TT<P>)0x1234);
            CatIdentityKeySwitch<P, K>(*out, *in, *ksk);
            for (uint q = 0; q < K; q++) {
                IdentityKeySwitch<P>(*o, (*in)[q], *ksk);
                // as if switched alone; summation order cannot matter for words
                if (*o != (*out)[q]) {
                    const double e = err<P>((*out)[q], (*in)[q], *s, *z);
                    fail("cat:" + L, "ciphertext %u of a batch of %u differs from switching it alone (its phase is off by 2^%.1f)", q, K, std::log2(std::fabs(e)));
                }
                eval(); distinct(vh::hash_bytes((*in)[q]) + 1);
            }
            tally("batched " + L, K);
        };
        cat.template operator()<1>(); cat.template operator()<2>(); cat.template operator()<3>(); cat.template operator()<5>();
        if (vh::thorough) { cat.template operator()<8>(); cat.template operator()<16>(); }
    }
    note("%s: N=%zu -> n=%zu, t=%d, b=%d, %s key: rms %.3f, single-index max %.2f of predicted noise", L.c_str(), n, m, (int)P::t, (int)P::basebit, kc[kcls], dense.rms(), single.mx);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    std::vector<std::function<void(uint64_t)>> w;
    w.push_back([](uint64_t i) { run<lvl31param, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl22param, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl21param, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl21param, true>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl2hparam, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl20param, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl1hparam, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl10param, false>(i, 0); });
    w.push_back([](uint64_t i) { run<lvl11param, false>(i, 0); });
    for (int k = 1; k < 4; k++) {
        w.push_back([k](uint64_t i) { run<lvl10param, false>(i, k); });
        w.push_back([k](uint64_t i) { run<lvl20param, false>(i, k); });
        w.push_back([k](uint64_t i) { run<lvl21param, true>(i, k); });
        w.push_back([k](uint64_t i) { run<lvl2hparam, false>(i, k); });
        w.push_back([k](uint64_t i) { run<lvl1hparam, false>(i, k); });
    }
    if (vh::thorough)
        for (int rep = 0; rep < 3; rep++) {
            w.push_back([](uint64_t i) { run<lvl31param, false>(i, 0); });
            for (int k = 0; k < 4; k++) {
                w.push_back([k](uint64_t i) { run<lvl21param, false>(i, k); });
                w.push_back([k](uint64_t i) { run<lvl22param, false>(i, k); });
                w.push_back([k](uint64_t i) { run<lvl11param, false>(i, k); });
                w.push_back([k](uint64_t i) { run<lvl10param, false>(i, k); });
                w.push_back([k](uint64_t i) { run<lvl21param, true>(i, k); });
            }
        }
    vh::parallel(w.size(), 8, [&](size_t i) { w[i](i + 1); });
    return vh::finish();
}
