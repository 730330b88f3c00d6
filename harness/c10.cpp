// C10: key switching into polynomial ciphertexts, packing, automorphism evaluation, annihilation.
#include <tfhe++.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> const char *ln() { return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2"; }
template <class P> const char *kn()
{
    return std::is_same_v<P, lvl11param> ? "lvl11" : std::is_same_v<P, lvl21param> ? "lvl21" : "lvl22";
}
template <class P> void randkey(Key<P> &k, Rng &r, int cls)
{
    for (auto &x : k) {
        int v = cls == 1 ? P::key_value_max : cls == 2 ? P::key_value_min : P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1);
        x = (typename P::T)v;
    }
}
template <class P> double keynorm2(const Key<P> &k)
{
    double s = 0;
    for (auto x : k) { double v = (double)(std::make_signed_t<typename P::T>)x; s += v * v; }
    return s;
}
// variance of one automorphism evaluation (half gadget product with the automorphed key per component)
template <class P> double eavar(const Key<P> &key)
{
    const double d2 = (double(P::Bg) * P::Bg + 2) / 12, lw = std::ldexp(1.0, -(int)(P::l * P::Bgbit));
    const double fft = std::ldexp(1.0, -53 - 1) * std::sqrt(P::l * d2) * P::n;
    return P::k * (P::l * P::n * d2 * P::α * P::α + fft * fft) + keynorm2<P>(key) * lw * lw / 12;
}
template <class P> void randtrlwe(TRLWE<P> &c, Rng &r, int cls)
{
    for (auto &p : c) for (auto &x : p) x = cls == 1 ? vh::edge<typename P::T>(r) : cls == 2 ? (typename P::T)-1 : (typename P::T)r.next();
    if (cls == 3) for (uint32_t k = 0; k < P::k; k++) c[k] = {};
}
// compares every coefficient of a phase; the statistics go to st
template <class P, class A, class B>
void cmp(const A &got, const B &want, double sig, double maxs, const std::string &key, const std::string &what, Stat &st)
{
    double w = 0; uint32_t at = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        const double d = vh::tdist<typename P::T>(got[i], want[i]) / sig;
        st.add(d);
        if (std::fabs(d) > w) { w = std::fabs(d); at = i; }
    }
    if (w > maxs) fail(key, "%s: coefficient %u is %.1f predicted standard deviations (2^%.1f) off", what.c_str(), at, w, std::log2(sig));
}
static void size(const std::string &key, const std::string &what, const Stat &s, double up)
{
    if (s.n > 3000 && s.rms() > up) fail(key, "%s: error rms is %.3f of the predicted noise", what.c_str(), s.rms());
    if (s.n) metric(what + " rms/predicted", s.rms());
    if (s.n) metric(what + " max/predicted", s.mx);
}

template <class P>
void autos(uint64_t salt, int kcls)
{
    Rng r(salt);
    const std::string L = ln<P>();
    auto key = std::make_unique<Key<P>>();
    randkey<P>(*key, r, kcls);
    const double v = eavar<P>(*key), sig = std::sqrt(v);
    std::vector<uint> ds;
    for (uint j = 1; j <= P::nbit; j++) ds.push_back((1u << j) + 1);
    for (uint d : {1u, 3u, 7u, P::n - 1, 2 * P::n - 1, 2 * P::n + 1}) ds.push_back(d);
    for (int i = 0; i < (vh::thorough ? 120 : 14); i++) ds.push_back(i % 4 == 3 ? (uint)(r.bit() ? -(int)(2 * r.below(P::n) + 1) : (int)(r.next() >> 2 & 0x3fffffff) | 1) : 2 * r.below(P::n) + 1);
    auto c = std::make_unique<TRLWE<P>>(), o = std::make_unique<TRLWE<P>>();
    Stat st;
    for (size_t q = 0; q < ds.size(); q++) {
        const uint d = ds[q];
        auto ak = std::make_unique<EvalAutoKey<P>>();
        evalautokeygen<P>(*ak, d, *key);
        for (int cls = 0; cls < 4; cls++) {
            if (cls && (int)(q % 3) + 1 != cls) continue;
            randtrlwe<P>(*c, r, cls);
            for (auto &p : *o) p.fill((typename P::T)0xa5);
            EvalAuto<P>(*o, *c, d, *ak);
            const auto in = vh::ref_trlwe_phase<P>(*c, *key);
            std::array<typename P::T, P::n> want = {};
            for (uint32_t i = 0; i < P::n; i++) {
                const uint64_t e = (uint64_t)i * d % (2 * P::n);
                if (e < P::n) want[e] += in[i]; else want[e - P::n] -= in[i];
            }
            Stat s;
            cmp<P>(vh::ref_trlwe_phase<P>(*o, *key), want, sig, cls == 1 || cls == 2 ? 16 : 8, "automorphism:" + L, "X -> X^" + std::to_string(d) + " of class " + std::to_string(cls), s);
            if (cls == 0) st.add(s);
            eval(); distinct(vh::mix(d, vh::hash_bytes(*c))); tally("automorphism " + L);
        }
    }
    size("automorphism-size:" + L, "automorphism " + L + " key class " + std::to_string(kcls), st, 1.25);
}
template <class P>
void pack(uint64_t salt, int kcls)
{
    Rng r(salt);
    const std::string L = ln<P>();
    using T = typename P::T;
    auto key = std::make_unique<Key<P>>();
    randkey<P>(*key, r, kcls);
    const double ea = eavar<P>(*key);
    auto ahk = std::make_unique<AnnihilateKey<P>>();
    annihilatekeygen<P>(*ahk, *key);
    auto c = std::make_unique<TRLWE<P>>(), o = std::make_unique<TRLWE<P>>();
    // halving words floors: up to half a unit per word and step
    const double fl = P::nbit * (1 + keynorm2<P>(*key)) / 4 * std::ldexp(1.0, -2 * std::numeric_limits<T>::digits) + std::pow(P::nbit * 0.3 * std::ldexp(std::sqrt(keynorm2<P>(*key)), -std::numeric_limits<T>::digits), 2);
    const double sig = std::sqrt(P::nbit * ea + fl);
    Stat sa, sp, sc;
    for (int it = 0; it < (vh::thorough ? 100 : 14); it++) {
        const int cls = it % 4;
        randtrlwe<P>(*c, r, cls);
        for (auto &p : *o) p.fill((T)0x77);
        AnnihilateKeySwitching<P>(*o, *c, *ahk);
        const auto in = vh::ref_trlwe_phase<P>(*c, *key);
        std::array<T, P::n> want = {};
        want[0] = in[0];
        Stat s;
        cmp<P>(vh::ref_trlwe_phase<P>(*o, *key), want, sig, cls == 1 || cls == 2 ? 14 : 8, "annihilate:" + L, "class " + std::to_string(cls), s);
        if (cls == 0) sa.add(s);
        eval(); distinct(vh::hash_bytes(*c)); tally("annihilation " + L);
    }
    std::vector<size_t> sizes = {1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, (size_t)r.below(300) + 1};
    if (std::is_same_v<P, lvl1param>) { sizes.push_back(P::n - 1); sizes.push_back(P::n); sizes.push_back(P::n / 2 + 1); }
    else if (vh::thorough) { sizes.push_back(P::n); sizes.push_back(P::n - 1); }
    if (vh::thorough) for (int i = 0; i < 20; i++) sizes.push_back(r.below(P::n) + 1);
    for (size_t q = 0; q < sizes.size(); q++) {
        const size_t m = sizes[q];
        std::vector<TLWE<P>> in(m);
        std::vector<T> ph(m);
        for (size_t i = 0; i < m; i++) {
            if (q % 3 == 2) in[i] = tlweSymEncrypt<P>((T)r.next(), *key);
            else for (auto &x : in[i]) x = q % 3 == 1 ? vh::edge<T>(r) : (T)r.next();
            ph[i] = vh::ref_phase<P>(in[i], *key);
        }
        distinct(vh::hash_bytes(in[0]) + m);
        std::array<T, P::n> want = {};
        for (size_t i = 0; i < m; i++) want[i] = ph[i];
        { auto copy = in; TLWE2TRLWEPacking<P>(*o, copy, *ahk); }
        Stat s;
        cmp<P>(vh::ref_trlwe_phase<P>(*o, *key), want, sig, q % 3 == 1 ? 14 : 8, "packing:" + L, std::to_string(m) + " inputs", s);
        if (q % 3 != 1) sp.add(s);
        eval(); tally("packing " + L);
        uint l = 0;
        while ((1u << l) < m) l++;
        want = {};
        for (size_t i = 0; i < m; i++) want[i * (P::n >> l)] = ph[i];
        { auto copy = in; TLWE2TRLWEChengsPacking<P>(*o, copy, *ahk); }
        Stat t;
        cmp<P>(vh::ref_trlwe_phase<P>(*o, *key), want, sig, q % 3 == 1 ? 14 : 8, "spread-packing:" + L, std::to_string(m) + " inputs", t);
        if (q % 3 != 1) sc.add(t);
        eval(); tally("spread packing " + L);
    }
    size("annihilate-size:" + L, "annihilation " + L + " key class " + std::to_string(kcls), sa, 1.2);
    size("packing-size:" + L, "packing " + L + " key class " + std::to_string(kcls), sp, 1.2);
    size("spread-packing-size:" + L, "spread packing " + L + " key class " + std::to_string(kcls), sc, 1.2);
}
template <class P, class C>
void fillin(C &c, Rng &r, int cls, int drop = 0)
{
    using T = typename P::T;
    for (auto &x : c) x = cls == 1 ? vh::edge<T>(r) : (T)r.next();
    if (cls == 2) { const auto i = r.below(c.size()), v = r.next(); for (auto &x : c) x = 0; c[i] = (T)v; }
    if (cls == 3) { const auto v = r.next(); for (auto &x : c) x = 0; c.back() = (T)v; }
    if (cls == 4) { const auto v = r.next(); for (auto &x : c) x = 0; c[0] = (T)v; }
    if (cls == 5) for (auto &x : c) x = (T)-1;
    // the dropped low part just below half a unit, just above, nearly a whole unit
    if (cls >= 6 && drop > 2) {
        const T u = (T)1 << drop, low = cls == 6 ? u / 2 - 1 - (T)r.below(2) : cls == 7 ? u / 2 + 1 + (T)r.below(2) : u - 1 - (T)r.below(2);
        for (auto &x : c) x = (T)((T)r.next() / u * u + low);
    }
}
// kind 0: direct, 1: private function, 2: private function from the shared-prefix key
template <class P, int kind>
void ks(uint64_t salt, int fcls)
{
    Rng r(salt);
    using Q = typename P::targetP;
    using D = typename P::domainP;
    using I = std::conditional_t<kind == 2, Q, D>;     // input key
    using T = typename Q::T;
    static const char *kinds[] = {"direct", "private", "subset private"};
    const std::string L = std::string(kinds[kind]) + "-" + kn<P>();
    auto dk = std::make_unique<Key<D>>(); auto zk = std::make_unique<Key<Q>>();
    randkey<D>(*dk, r, fcls == 2 ? 1 : fcls == 3 ? 2 : 0); randkey<Q>(*zk, r, 0);
    auto ik = std::make_unique<Key<I>>();
    if constexpr (kind == 2) for (size_t i = 0; i < Q::k * Q::n; i++) (*ik)[i] = (T)(*dk)[i];
    else *ik = *dk;
    auto f = std::make_unique<Polynomial<Q>>();
    *f = {};
    switch (kind == 0 ? 0 : fcls) {
    case 0: (*f)[0] = 1; break;
    case 1: for (uint32_t i = 0; i < Q::n; i++) (*f)[i] = (T)-(std::make_signed_t<T>)(*zk)[i]; break;   // as circuit bootstrapping uses it
    case 2: for (auto &x : *f) x = (T)((int64_t)r.below(5) - 2); break;
    case 4: for (int i = 0; i < 4; i++) (*f)[r.below(Q::n)] = (T)1 << (6 + r.below(6)); (*f)[0] = (T)(4096 + r.below(99)); break;   // rounding errors become visible
    default: for (int i = 0; i < 6; i++) (*f)[r.below(Q::n)] = (T)((int64_t)r.below(17) - 8);
    }
    using KT = std::conditional_t<kind == 0, TLWE2TRLWEIKSKey<P>, std::conditional_t<kind == 1, PrivateKeySwitchingKey<P>, SubsetPrivateKeySwitchingKey<P>>>;
    auto k = std::make_unique_for_overwrite<KT>();
    if constexpr (kind == 0) tlwe2trlweikskgen<P>(*k, *dk, *zk);
    else if constexpr (kind == 1) privkskgen<P>(*k, *f, *dk, *zk);
    else subprivkskgen<P>(*k, *f, *dk, *zk);
    constexpr int iw = std::numeric_limits<typename I::T>::digits, ow = std::numeric_limits<T>::digits, tb = P::t * P::basebit;
    const double B = 1 << P::basebit;
    const double a2 = Q::α * Q::α + std::ldexp(1.0, -2 * ow) / 12;
    auto c = std::make_unique<TLWE<I>>(); auto o = std::make_unique<TRLWE<Q>>();
    Stat st;
    double worst1 = 0;
    const int reps = (sizeof(T) == 8 ? 60 : 90) * (vh::thorough ? 5 : 1);
    for (int it = 0; it < reps; it++) {
        const int cls = it % 3 == 0 ? 0 : it / 3 % 2 ? it / 6 % 6 : 6 + it / 6 % 3;
        fillin<I>(*c, r, cls == 0 && it % 9 == 3 ? 2 : cls, iw - tb);
        if (cls == 0 && it % 5 == 0) *c = tlweSymEncrypt<I>((typename I::T)r.next(), *ik);
        if (cls >= 6 && it % 2) { const auto at = it % 4 == 1 ? I::k * I::n : r.below(I::k * I::n); const auto v = (*c)[at]; c->fill(0); (*c)[at] = v; }
        for (auto &p : *o) p.fill((T)0x3c);
        if constexpr (kind == 0) TLWE2TRLWEIKS<P>(*o, *c, *k);
        else if constexpr (kind == 1) PrivKeySwitch<P>(*o, *c, *k);
        else SubsetPrivKeySwitch<P>(*o, *c, *k);
        // every word rounded to the decomposition's precision: what is left is key noise
        auto rc = std::make_unique<TLWE<I>>(*c);
        double ties = 0;
        for (size_t i = 0; i < rc->size(); i++) {
            auto &x = (*rc)[i];
            if (kind == 0 && i == I::k * I::n) continue;      // the body is not decomposed
            const typename I::T low = (typename I::T)(x << tb) >> tb, half = (typename I::T)1 << (iw - tb - 1);
            if (low == half) ties += i < I::k * I::n ? std::fabs((double)(std::make_signed_t<typename I::T>)(*ik)[i]) : 1;
            x = (typename I::T)(x + half) >> (iw - tb) << (iw - tb);
        }
        const auto ph = vh::ref_phase<I>(*rc, *ik);
        const auto got = vh::ref_trlwe_phase<Q>(*o, *zk);
        size_t nz = 0;
        for (auto x : *c) nz += x != 0;
        // words that are zero meet no key element
        const double var = nz * P::t * (1 - 1 / B) * a2;
        const double full = std::min(nz * P::t * 1.0, (double)nz * P::t) * a2;
        const double wordr = (kind == 0 && iw > ow) ? std::ldexp(1.0, -ow) : 0;
        double w = 0, lim8 = 0; uint32_t at = 0;
        for (uint32_t j = 0; j < Q::n; j++) {
            const double fj = (double)(std::make_signed_t<T>)(*f)[j];
            double want = std::ldexp((double)(std::make_signed_t<typename I::T>)ph, -iw) * fj;
            double d = std::ldexp((double)got[j], -ow) - want;
            d -= std::floor(d + 0.5);
            const double sg = std::sqrt(var), sgm = std::sqrt(full);
            if (cls == 0 && nz > 50) st.add(d / sg);
            // random words below a double's 53 bits: rounding of the reference
            const double q = std::max(0.0, std::fabs(d) - wordr - std::ldexp(ties * std::fabs(fj), -tb) - std::ldexp(1 + std::fabs(fj), -50)) / sgm;
            if (q > w) { w = q; at = j; lim8 = sgm; }
        }
        if (nz == 1) worst1 = std::max(worst1, w);
        if (w > 8) fail("keyswitch:" + L, "function class %d, input class %d (%zu non-zero words): coefficient %u is %.1f predicted standard deviations (2^%.1f) off", fcls, cls, nz, at, w, std::log2(lim8));
        eval(); distinct(vh::hash_bytes(*c) + salt); tally(L);
    }
    size("keyswitch-size:" + L, L + " function class " + std::to_string(fcls), st, 1.2);
    metric(L + " single-word max", worst1);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    std::vector<std::function<void(uint64_t)>> w;
    w.push_back([](uint64_t i) { ks<lvl21param, 1>(i, 1); });
    w.push_back([](uint64_t i) { ks<lvl21param, 2>(i, 1); });
    w.push_back([](uint64_t i) { ks<lvl21param, 0>(i, 0); });
    w.push_back([](uint64_t i) { ks<lvl11param, 0>(i, 0); });
    w.push_back([](uint64_t i) { ks<lvl22param, 1>(i, 1); });
    w.push_back([](uint64_t i) { pack<lvl2param>(i, 0); });
    w.push_back([](uint64_t i) { pack<lvl1param>(i, 0); });
    w.push_back([](uint64_t i) { autos<lvl2param>(i, 0); });
    w.push_back([](uint64_t i) { autos<lvl1param>(i, 0); });
    w.push_back([](uint64_t i) { autos<lvl1param>(i, 1); });
    w.push_back([](uint64_t i) { ks<lvl11param, 1>(i, 2); });
    w.push_back([](uint64_t i) { ks<lvl21param, 2>(i, 3); });
    w.push_back([](uint64_t i) { ks<lvl11param, 1>(i, 4); });
    w.push_back([](uint64_t i) { ks<lvl21param, 1>(i, 4); });
    w.push_back([](uint64_t i) { ks<lvl21param, 2>(i, 4); });
    w.push_back([](uint64_t i) { ks<lvl22param, 1>(i, 4); });
    if (vh::thorough)
        for (int f = 0; f < 5; f++) {
            w.push_back([f](uint64_t i) { ks<lvl11param, 1>(i, f); });
            w.push_back([f](uint64_t i) { ks<lvl21param, 1>(i, f); });
            w.push_back([f](uint64_t i) { ks<lvl21param, 2>(i, f); });
            w.push_back([f](uint64_t i) { if (f % 2) ks<lvl22param, 1>(i, f); else ks<lvl22param, 0>(i, f); });
            w.push_back([f](uint64_t i) { pack<lvl1param>(i, f % 3); });
            w.push_back([f](uint64_t i) { pack<lvl2param>(i, f % 3); });
            w.push_back([f](uint64_t i) { autos<lvl2param>(i, f % 3); });
        }
    vh::parallel(w.size(), 8, [&](size_t i) { w[i](i + 1); });
    return vh::finish();
}
