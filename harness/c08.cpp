// C08: programmable bootstrapping: the table entry at the phase, with key-only noise.
#include <tfhe++.hpp>
#include "vh.hpp"
#include <thread>
#include <mutex>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> constexpr const char *pn()
{
    return std::is_same_v<P, lvl01param> ? "lvl01" : std::is_same_v<P, lvl02param> ? "lvl02" : std::is_same_v<P, lvlh1param> ? "lvlh1" : "lvlh2";
}
enum Eng { FFT, NTT, RAINTT };
template <class P>
struct Keys {
    Key<typename P::domainP> s;
    Key<typename P::targetP> z;
    std::unique_ptr<BootstrappingKeyFFT<P>> fft;
    std::unique_ptr<BootstrappingKeyNTT<P>> ntt;
    std::unique_ptr<BootstrappingKeyRAINTT<P>> rai;
};
// predicted variance of one bootstrapped coefficient
template <class P, class K>
double outvar(const K &s, double engine)
{
    using Q = typename P::targetP;
    const double d2 = (double(Q::Bg) * Q::Bg + 2) / 12, lw = std::ldexp(1.0, -(int)(Q::l * Q::Bgbit));
    double nz = 0;
    for (auto x : s) nz += x != 0;
    const size_t n = P::domainP::k * P::domainP::n;
    const double drop = (1 + Q::k * Q::n * vh::key_var<Q>()) * lw * lw / 12;
    double v = 0;
#ifdef USE_KEY_BUNDLE
    // three gadget encryptions, each times a monomial minus one, per two coefficients
    v = n / 2.0 * ((Q::k + 1) * Q::l * Q::n * d2 * Q::α * Q::α * 6 + drop);
    (void)nz;
#else
#ifdef USE_TERNARY_CMUX
    const double rows = 2;   // every element meets a monomial minus one
#else
    const double rows = 1;
#endif
    v = n * (double)(P::domainP::key_value_max - P::domainP::key_value_min) * (Q::k + 1) * Q::l * Q::n * d2 * (Q::α * Q::α + engine) * rows + nz * 2 * drop + (n - nz) * drop * 0.5;
#endif
    return v;
}
// phase index by standard modulus switching of every word; frac of the real phase for the statistics
template <class P>
int64_t index_of(const TLWE<typename P::domainP> &c, const Key<typename P::domainP> &s, int bits, double *err = nullptr)
{
    using D = typename P::domainP;
    using T = typename D::T;
    constexpr int w = std::numeric_limits<T>::digits;
    const int sh = w - 1 - (int)P::targetP::nbit + bits;
    const int64_t M = 2 * P::targetP::n;
    auto rnd = [&](uint64_t x) { return (int64_t)(((x + (1ull << (sh - 1))) >> sh) << bits); };
    int64_t e = (int64_t)(((uint64_t)c[D::k * D::n] >> sh) << bits);
    double re = std::ldexp((double)c[D::k * D::n], -w) * M;
    for (size_t i = 0; i < D::k * D::n; i++) {
        const int64_t sv = (int64_t)(std::make_signed_t<T>)s[i];
        if (!sv) continue;
        e -= sv * rnd(c[i]);
        re -= sv * std::ldexp((double)c[i], -w) * M;
    }
    e %= M; if (e < 0) e += M;
    if (err) { double d = re - e; d -= M * std::floor(d / M + 0.5); *err = d; }
    return e;
}
template <class P>
TLWE<typename P::domainP> mkin(Rng &r, const Keys<P> &k, int cls)
{
    using D = typename P::domainP;
    using T = typename D::T;
    constexpr int w = std::numeric_limits<T>::digits;
    TLWE<D> c;
    const size_t n = D::k * D::n;
    switch (cls % 8) {
    case 0: case 1: for (auto &x : c) x = (T)r.next(); break;
    case 2: for (auto &x : c) x = vh::edge<T>(r); break;
    case 3: for (auto &x : c) x = (T)-1; break;                                    // rounds up past the modulus
    case 4: for (size_t i = 0; i < n; i++) c[i] = (T)((T)r.next() << (w - 1 - P::targetP::nbit)) + (T(1) << (w - 2 - P::targetP::nbit)); c[n] = r.next(); break;  // ties
    case 5: for (auto &x : c) x = (T)r.next(); c = tlweSymEncrypt<D>((T)(r.bit() ? T(1) << (w - 1) : 0), k.s); break;   // on the sign boundary
    case 6: for (auto &x : c) x = 0; c[r.below(n)] = (T)r.next(); c[n] = (T)r.next(); break;
    default: c = tlweSymEncrypt<D>((T)r.next(), k.s); break;
    }
    return c;
}
static std::mutex mu;
// one bootstrapping checked against the table
template <class P, uint32_t NO>
void one(Rng &r, const Keys<P> &k, Eng eng, int cls, int tabcls, bool enc, Stat &st, Stat &rst)
{
    using Q = typename P::targetP;
    using T = typename Q::T;
    const std::string L = std::string(pn<P>()) + (eng == FFT ? "/fft" : eng == NTT ? "/ntt" : "/raintt") + (enc ? "/encrypted-table" : "") + (NO > 1 ? "/many" + std::to_string(NO) : "");
    const auto c = mkin<P>(r, k, cls);
    auto tv = std::make_unique<Polynomial<Q>>();
    for (uint32_t i = 0; i < Q::n; i++) (*tv)[i] = tabcls == 0 ? (T)r.next() : tabcls == 1 ? vh::edge<T>(r) : tabcls == 2 ? (T)Q::μ : (T)((T)i << (std::numeric_limits<T>::digits - Q::nbit - 1));
    constexpr int bits = NO <= 1 ? 0 : (NO <= 2 ? 1 : NO <= 4 ? 2 : NO <= 8 ? 3 : 4);
    double re = 0;
    const int64_t e = index_of<P>(c, k.s, bits, &re);
    alignas(64) TRLWE<Q> acc;
    const double eng2 = eng == RAINTT ? std::pow(0.2887 / raintt::P, 2) * (1 + Q::k * Q::n * vh::key_var<Q>()) : 0;
    double var = outvar<P>(k.s, eng2), extra = 0;
    if (eng == NTT && sizeof(T) == 4) extra = P::domainP::n * Q::n * Q::l * (Q::k + 1) / 2.0 * std::ldexp(1.0, -32);  // negative digits as words (worst case, systematic)
    TLWE<Q> first;
    bool viaTLWE = false;
    std::array<TLWE<Q>, NO> outs;
    if (enc) {
        auto t = std::make_unique<TRLWE<Q>>(trlweSymEncrypt<Q>(*tv, k.z));
        var += Q::α * Q::α;
        BlindRotate<P, NO>(acc, c, *k.fft, *t);
    } else if (eng == FFT) {
        if constexpr (NO > 1) { GateBootstrappingManyLUT<P, NO>(outs, c, *k.fft, *tv); }
        else if (cls & 1) { GateBootstrappingTLWE2TLWEFFT<P>(first, c, *k.fft, *tv); viaTLWE = true; }
        else BlindRotate<P, NO>(acc, c, *k.fft, *tv);
    } else if (eng == NTT) {
        if (NO == 1 && (cls & 1)) { GateBootstrappingTLWE2TLWENTT<P>(first, c, *k.ntt, *tv); viaTLWE = true; }
        else BlindRotate<P, NO>(acc, c, *k.ntt, *tv);
    } else {
        if constexpr (std::is_same_v<Q, lvl1param>) {
            if (NO == 1 && (cls & 1)) { GateBootstrappingTLWE2TLWERAINTT<P>(first, c, *k.rai, *tv); viaTLWE = true; }
            else BlindRotate<P, NO>(acc, c, *k.rai, *tv);
        }
    }
    const double sig = std::sqrt(var);
    auto entry = [&](int64_t x) { x %= 2 * (int64_t)Q::n; if (x < 0) x += 2 * Q::n; return x < (int64_t)Q::n ? (*tv)[x] : (T)-(*tv)[x - Q::n]; };
    auto verify = [&](T phase, int64_t off) {
        double best = 1e9, bd = 0;
        for (int64_t t = -1; t <= 1; t++) {
            double d = vh::tdist<T>(phase, entry(e + off + (t << bits)));
            if (std::fabs(d) < std::fabs(best)) best = d;
            (void)bd;
        }
        const double q = best / (sig + extra / 4);
        std::lock_guard<std::mutex> g(mu);
        st.add(q);
        if (std::fabs(q) > 8.5 + (extra > 0 ? 4 : 0)) fail("table:" + L, "input class %d, index %lld offset %lld: output is %.1f predicted standard deviations (2^%.1f) from the table entry", cls, (long long)e, (long long)off, q, std::log2(sig));
    };
    if (NO > 1 && !enc && eng == FFT) {
        for (uint32_t i = 0; i < NO; i++) verify(vh::ref_phase<Q>(outs[i], k.z), i);
    } else if (viaTLWE) verify(vh::ref_phase<Q>(first, k.z), 0);
    else {
        // every coefficient of the accumulator is the table rotated by the phase
        auto ph = vh::ref_trlwe_phase<Q>(acc, k.z);
        for (uint32_t i = 0; i < Q::n; i += (i < 8 ? 1 : 61)) verify(ph[i], i);
    }
    {
        std::lock_guard<std::mutex> g(mu);
        if (cls % 8 < 2 || cls % 8 == 7) rst.add(re);
    }
    eval(); distinct(vh::mix(vh::hash_bytes(c), vh::hash_str(L))); tally("bootstrappings " + L);
    tally("indices in half turn " + std::to_string(e / Q::n));
}
template <class P>
void run(const SecretKey &sk, int reps, bool ntt, bool rai, int kc, uint64_t salt)
{
    using Q = typename P::targetP;
    using D = typename P::domainP;
    Keys<P> k;
    k.s = sk.key.get<D>(); k.z = sk.key.get<Q>();
    Rng r0(salt);
    if (kc == 1) for (auto &x : k.s) x = D::key_value_max;
    if (kc == 2) for (auto &x : k.s) x = 0;
    vh::parallel(3, 3, [&](size_t i) {
        if (i == 0) { k.fft = std::make_unique_for_overwrite<BootstrappingKeyFFT<P>>(); bkfftgen<P>(*k.fft, k.s, k.z); }
        if (i == 1 && ntt) { k.ntt = std::make_unique_for_overwrite<BootstrappingKeyNTT<P>>(); bknttgen<P>(*k.ntt, k.s, k.z); }
        if constexpr (std::is_same_v<Q, lvl1param>)
            if (i == 2 && rai) { k.rai = std::make_unique_for_overwrite<BootstrappingKeyRAINTT<P>>(); bkrainttgen<P>(*k.rai, k.s, k.z); }
    });
    Stat f, n, x, m, en, rst;
    std::vector<std::thread> th;
    for (int t = 0; t < 8; t++)
        th.emplace_back([&, t] {
            Rng r(salt * 1000 + t);
            for (int it = t; it < reps; it += 8) {
                const int cls = (it / 8 + t) % 8, tab = (it / 8 + it / 64) % 4;
                one<P, 1>(r, k, FFT, cls, tab, false, f, rst);
                if (it % 2 == 0 || reps < 16) one<P, 1>(r, k, FFT, cls + 3, tab, true, en, rst);
                if (ntt && it % 4 == 0) one<P, 1>(r, k, NTT, cls + it / 4, tab, false, n, rst);
                if constexpr (std::is_same_v<Q, lvl1param>) if (rai && it % 2 == 0) one<P, 1>(r, k, RAINTT, cls + it / 2, tab, false, x, rst);
                switch (it % 6) {
                case 0: one<P, 2>(r, k, FFT, cls, tab, false, m, rst); break;
                case 1: one<P, 3>(r, k, FFT, cls, tab, false, m, rst); break;
                case 2: one<P, 4>(r, k, FFT, cls, tab, false, m, rst); break;
                case 3: one<P, 8>(r, k, FFT, cls, tab, false, m, rst); break;
                case 4: one<P, 2>(r, k, FFT, cls, tab, true, m, rst); break;
                case 5: if (ntt) one<P, 4>(r, k, NTT, cls, tab, false, n, rst); else one<P, 5>(r, k, FFT, cls, tab, false, m, rst); break;
                }
            }
        });
    for (auto &t : th) t.join();
    const std::string L = std::string(pn<P>()) + (kc == 1 ? "/all-ones key" : kc == 2 ? "/zero key" : "");
    vh::check_noise("fft:" + L, f, 1, 0, 1.4, 9);
    vh::check_noise("encrypted table:" + L, en, 1, 0, 1.4, 9);
    if (n.n) vh::check_noise("ntt:" + L, n, 1, 0, 2, 13);
    if (x.n) vh::check_noise("raintt:" + L, x, 1, 0, 1.4, 9);
    vh::check_noise("many:" + L, m, 1, 0, 1.4, 9);
    // trivial ciphertexts: every one of the 2N phases, exactly
    auto tv = std::make_unique<Polynomial<Q>>();
    for (auto &v : *tv) v = (typename Q::T)r0.next();
    constexpr int w = std::numeric_limits<typename D::T>::digits;
    const uint32_t step = vh::light ? 61 : 1;
    vh::parallel(16, 8, [&](size_t part) {
      TLWE<D> c = {};
      Rng r0(salt * 100 + part + 50);
      for (uint32_t i = part * step; i < 2 * Q::n; i += 16 * step) {
        const typename D::T lo = (typename D::T)((uint64_t)i << (w - 1 - Q::nbit));
        for (int side = 0; side < 3; side++) {
            c[D::k * D::n] = side == 0 ? lo : side == 1 ? lo + (typename D::T)((1ull << (w - 1 - Q::nbit)) - 1) : lo + (typename D::T)r0.below(1ull << (w - 1 - Q::nbit));
            TLWE<Q> o;
            GateBootstrappingTLWE2TLWEFFT<P>(o, c, *k.fft, *tv);
            const auto want = i < Q::n ? (*tv)[i] : (typename Q::T)-(*tv)[i - Q::n];
            const auto w2 = i + 1 < Q::n ? (*tv)[i + 1] : i + 1 < 2 * Q::n ? (typename Q::T)-(*tv)[i + 1 - Q::n] : (*tv)[0];
            auto got = vh::ref_phase<Q>(o, k.z);
#ifdef USE_KEY_BUNDLE   // every pair of coefficients is multiplied in, zero or not
            const double tol = 8.5 * std::sqrt(outvar<P>(k.s, 0));
            const bool ok = std::fabs(vh::tdist<typename Q::T>(got, want)) <= tol || (side && std::fabs(vh::tdist<typename Q::T>(got, w2)) <= tol);
#else
            const bool ok = got == want || (side && got == w2);
#endif
            if (!ok) { fail(std::string("trivial:") + L, "phase %u/%u: %llx expected %llx", i, 2 * Q::n, (unsigned long long)got, (unsigned long long)want); break; }
            eval();
        }
      }
    });
    tally("trivial phases " + L, 6 * Q::n);
    (void)rst;
    metric("modulus switching rms (steps) " + L, rst.rms());
}
// the complete gate bootstrapping: sign of the phase, both orders
template <class bkP, class iksP, bool after>
void gate(const SecretKey &sk, const EvalKey &ek, int reps, const char *L0, bool ntt)
{
    using Q = typename bkP::targetP;
    using D = typename bkP::domainP;
    const std::string L = L0;
    Stat st; std::mutex m2;
    std::vector<std::thread> th;
    const auto &s = sk.key.get<D>();
    const auto &z = sk.key.get<Q>();
    const double kvs = vh::key_var<typename iksP::domainP>();
    const double w = std::ldexp(1.0, -(int)(iksP::t * iksP::basebit));
    double d2 = 0; // nonzero digits each subtract one key entry
    d2 = 1 - std::ldexp(1.0, -(int)iksP::basebit);
    const double ks = iksP::domainP::k * iksP::domainP::n * (iksP::t * d2 * iksP::targetP::α * iksP::targetP::α + kvs * w * w / 12) + std::ldexp(1.0, -2 * std::numeric_limits<typename iksP::targetP::T>::digits) * iksP::domainP::n;
    for (int t = 0; t < 8; t++)
        th.emplace_back([&, t] {
            Rng r(8800 + t + (after ? 100 : 0) + (ntt ? 1000 : 0));
            for (int it = t; it < reps; it += 8) {
                // phase at a known distance from the boundary: 1/16 of a turn for everyone
                const bool pos = r.bit();
                double x = 1.0 / 16 + r.unit() * (0.5 - 2.0 / 16);
                if (!pos) x += 0.5;
                double got, target;
                bool same = false;
                double sig;
                if constexpr (after) {
                    TLWE<D> c = tlweSymEncrypt<D>(vh::dtot<typename D::T>(x), s), o;
                    if (it % 5 == 4) { o = c; if (ntt) GateBootstrappingNTT<bkP, Q::μ, iksP>(o, o, ek); else GateBootstrapping<bkP, Q::μ, iksP>(o, o, ek); same = true; }
                    else if (ntt) GateBootstrappingNTT<bkP, Q::μ, iksP>(o, c, ek);
                    else GateBootstrapping<bkP, Q::μ, iksP>(o, c, ek);
                    auto ph = vh::ref_phase<D>(o, s);
                    got = std::ldexp((double)(std::make_signed_t<typename D::T>)ph, -std::numeric_limits<typename D::T>::digits);
                    sig = std::sqrt(outvar<bkP>(s, 0) + ks);
                } else {
                    using S = typename iksP::domainP;
                    TLWE<S> c = tlweSymEncrypt<S>(vh::dtot<typename S::T>(x), sk.key.get<S>());
                    TLWE<Q> o;
                    if (ntt) GateBootstrappingNTT<iksP, bkP, Q::μ>(o, c, ek); else GateBootstrapping<iksP, bkP, Q::μ>(o, c, ek);
                    auto ph = vh::ref_phase<Q>(o, z);
                    got = std::ldexp((double)(std::make_signed_t<typename Q::T>)ph, -std::numeric_limits<typename Q::T>::digits);
                    sig = std::sqrt(outvar<bkP>(s, 0));
                }
                target = std::ldexp((double)Q::μ, -std::numeric_limits<typename Q::T>::digits) * (pos ? 1 : -1);
                const double extra = ntt && sizeof(typename Q::T) == 4 ? D::n * Q::n * Q::l * (Q::k + 1) / 8.0 * std::ldexp(1.0, -32) : 0;
                std::lock_guard<std::mutex> g(m2);
                const double q = (got - target) / (sig + extra);
                st.add(q);
                if (std::fabs(q) > 9) fail("gate:" + L, "phase %.4f bootstraps to %.4f, expected %.4f +- %.4g%s", x, got, target, sig, same ? " (in place)" : "");
                eval(); distinct(vh::mix(vh::hash_str(L), (uint64_t)(x * 1e15)));
                tally("gate bootstrappings " + L);
            }
        });
    for (auto &t : th) t.join();
    vh::check_noise("gate:" + L, st, 1, 0, 1.4, 9);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const int R = vh::thorough && !vh::light ? 15 : 1, S = vh::light ? 6 : 1;
    // the gadget ciphertexts of the NTT forms hold one bit each
    constexpr bool bits = lvl0param::key_value_max == 1 && lvl0param::key_value_min == 0;
    constexpr bool rai = bits && sizeof(lvl1param::T) == 4;
    auto sk = std::make_unique<SecretKey>();
    run<lvl01param>(*sk, 320 * R / S, bits, rai, 0, 81);
    run<lvl02param>(*sk, 64 * R / S, bits, false, 0, 82);
    run<lvlh1param>(*sk, 48 * R / S, false, rai, 0, 83);
    if (vh::thorough) run<lvlh2param>(*sk, 48 * R, false, false, 0, 84);
    run<lvl01param>(*sk, 32 * R / S, false, false, 1, 85);
    run<lvl01param>(*sk, 16, false, false, 2, 86);
    EvalKey ek(*sk);
    vh::parallel(7, 7, [&](size_t i) {
        switch (i) {
        case 0: ek.emplacebkfft<lvl02param>(*sk); break;
        case 1: if (bits) ek.emplacebkntt<lvl01param>(*sk); break;
        case 2: ek.emplacebkfft<lvl01param>(*sk); break;
        case 3: ek.emplacebkfft<lvlh1param>(*sk); break;
        case 4: ek.emplaceiksk<lvl20param>(*sk); break;
        case 5: ek.emplaceiksk<lvl1hparam>(*sk); break;
        case 6: ek.emplaceiksk<lvl10param>(*sk); break;
        }
    });
    if (bits) gate<lvl01param, lvl10param, true>(*sk, ek, 240 * R / S, "lvl01 then lvl10", false);
    if (bits) gate<lvl01param, lvl10param, false>(*sk, ek, 240 * R / S, "lvl10 then lvl01", false);
    gate<lvl02param, lvl20param, true>(*sk, ek, 48 * R / S, "lvl02 then lvl20", false);
    gate<lvl02param, lvl20param, false>(*sk, ek, 48 * R / S, "lvl20 then lvl02", false);
    gate<lvlh1param, lvl1hparam, true>(*sk, ek, 48 * R / S, "lvlh1 then lvl1h", false);
    gate<lvlh1param, lvl1hparam, false>(*sk, ek, 48 * R / S, "lvl1h then lvlh1", false);
    if (bits) gate<lvl01param, lvl10param, true>(*sk, ek, 24 * R / S, "ntt lvl01 then lvl10", true);
    if (bits) gate<lvl01param, lvl10param, false>(*sk, ek, 24 * R / S, "ntt lvl10 then lvl01", true);
    note("tables: random words, extreme words, constant, ramp; inputs: random, extreme words, all-ones words, rounding ties, sign boundary, single-coefficient, fresh");
    return vh::finish();
}
