// C12: circuit bootstrapping (scalar ciphertext of a bit -> gadget ciphertext).
#include "model.hpp"
#include <mutex>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

static std::mutex mu;
template <class privP>
struct Judge {
    using Q = typename privP::targetP;
    using D = typename privP::domainP;
    using T = typename Q::T;
    std::string L;
    const Key<Q> &z;
    double bvar;      // error of the bootstrapped scaled bit
    double pvar[Q::k + 1];
    Stat unit, keyed;
    Judge(std::string l, const Key<Q> &key, bool subset) : L(l), z(key)
    {
        bvar = vh::brvar<lvl02param>();
        if (subset) {  // one more switch to the shared-prefix key
            const double B = 1 << privP::basebit, tb = privP::t * privP::basebit;
            bvar += (D::k * D::n - Q::k * Q::n) * (privP::t * (1 - 1 / B) * Q::α * Q::α + vh::key_var<D>() * std::ldexp(1.0, -2 * tb) / 12) + std::ldexp(1.0, -2 * (int)std::numeric_limits<T>::digits) / 12 * (1 + Q::n);
        }
        for (uint32_t c = 0; c <= Q::k; c++) pvar[c] = vh::privksvar<privP>(1, subset);
    }
    // every row of a gadget ciphertext of v
    void rows(const TRGSW<Q> &g, int v, const std::string &how, double extra = 0)
    {
        for (uint32_t c = 0; c <= Q::k; c++)
            for (uint32_t i = 0; i < Q::l; i++) {
                const auto ph = vh::ref_trlwe_phase<Q>(g[i + c * Q::l], z);
                const T h = (T)(T(1) << (std::numeric_limits<T>::digits - (i + 1) * Q::Bgbit));
                double w = 0, wd = 0; uint32_t at = 0;
                Stat s;
                for (uint32_t j = 0; j < Q::n; j++) {
                    const double f = c == Q::k ? (j == 0) : -vh::tor<T>(z[c * Q::n + j]) * std::ldexp(1.0, std::numeric_limits<T>::digits);
                    const T want = (T)(v * (T)(int64_t)f * h);
                    // the error of the scaled bit multiplies the function
                    const double sg = std::sqrt(bvar * f * f + pvar[c] + extra);
                    const double d = vh::tdist<T>(ph[j], want) / sg;
                    s.add(d);
                    if (std::fabs(d) > w) { w = std::fabs(d); wd = vh::tor<T>(ph[j]); at = j; }
                }
                std::lock_guard<std::mutex> gd(mu);
                (c == Q::k ? unit : keyed).add(s);
                if (w > 8.5) fail("row:" + L, "%s: row %u of component %u, coefficient %u has phase %.8f: %.1f predicted standard deviations from %d times the gadget", how.c_str(), i, c, at, wd, w, v);
                vh::tally("rows " + L);
            }
    }
    void done()
    {
        metric(L + " unit rows rms/predicted", unit.rms()); metric(L + " key rows rms/predicted", keyed.rms());
        note("%s: unit rows rms %.2f max %.1f, key rows rms %.2f max %.1f of predicted", L.c_str(), unit.rms(), unit.mx, keyed.rms(), keyed.mx);
        if (unit.n && unit.rms() > 1.35) fail("noise:" + L, "unit rows have %.2f of the predicted noise", unit.rms());
        if (keyed.n && keyed.rms() > 1.35) fail("noise:" + L, "key rows have %.2f of the predicted noise", keyed.rms());
    }
};
template <class Q>
void back(TRGSW<Q> &o, const TRGSWFFT<Q> &f)
{
    for (size_t r = 0; r < f.size(); r++)
        for (uint32_t k = 0; k <= Q::k; k++) TwistFFT<Q>(o[r][k], f[r][k]);
}
// a scalar ciphertext of a bit in one of the admissible shapes
template <class P>
TLWE<P> bitct(bool v, Rng &r, const Key<P> &key, int kind, double margin, std::string &how)
{
    using T = typename P::T;
    const T mu = (T)P::μ;
    TLWE<P> c;
    switch (kind) {
    case 0: c = tlweSymEncrypt<P>(v ? mu : (T)-mu, key); how = "fresh"; break;
    case 1: c = {}; c[P::k * P::n] = v ? mu : (T)-mu; how = "noiseless constant"; break;
    case 2: {  // exactly at a phase anywhere in the half of the bit, outside the margin
        const double ph = margin + (0.5 - 2 * margin) * r.unit();
        for (auto &x : c) x = (T)r.next();
        const T cur = vh::ref_phase<P>(c, key);
        c[P::k * P::n] += (T)(vh::dtot<T>(v ? ph : -ph) - cur);
        how = "phase " + std::to_string(v ? ph : -ph);
        break;
    }
    default: {  // extreme masks
        for (auto &x : c) x = vh::edge<T>(r);
        const T cur = vh::ref_phase<P>(c, key);
        c[P::k * P::n] += (T)((v ? mu : (T)-mu) - cur);
        how = "extreme mask";
    }
    }
    return c;
}
template <class iksP, class brP, class privP>
void run(const SecretKey &sk, const EvalKey &ek, const std::string &L, int reps, uint64_t salt)
{
    using Q = typename privP::targetP;
    using A = typename iksP::domainP;
    using B = typename brP::domainP;
    const auto z = sk.key.get<Q>();
    const auto ka = sk.key.get<A>();
    const auto kb = sk.key.get<B>();
    Judge<privP> J(L, z, false);
    const double lut = std::ldexp(1.0, (int)std::bit_width(Q::l - 1u));
    const double mB = 8.5 * std::sqrt(vh::msvar<brP>() * lut * lut) + lut / (2.0 * brP::targetP::n), mA = 8.5 * std::sqrt(vh::ksvar<iksP>() + vh::msvar<brP>() * lut * lut) + lut / (2.0 * brP::targetP::n);
    metric(L + " phase margin", mA);
    vh::parallel(reps, 8, [&](size_t t) {
        Rng r(salt * 1000 + t);
        const bool v = t & 1;
        const int form = (t / 2) % 7;
        std::string how;
        auto g = std::make_unique<TRGSW<Q>>();
        auto f = std::make_unique<TRGSWFFT<Q>>(), inv = std::make_unique<TRGSWFFT<Q>>();
        auto poison = [&] { for (auto &x : *g) for (auto &p : x) p.fill((typename Q::T)0x1234567); for (auto &x : *f) for (auto &p : x) p.fill(1e9); *inv = *f; };
        poison();
        const auto a = bitct<A>(v, r, ka, r.below(4), mA, how);
        std::string howb;
        const auto b = bitct<B>(v, r, kb, r.below(4), mB, howb);
        bool usef = true;
        int fv = v;
        switch (form) {
        case 0: CircuitBootstrapping<iksP, brP, privP>(*g, a, ek); usef = false; break;
        case 1: CircuitBootstrapping<brP, privP>(*g, b, ek); usef = false; how = howb; break;
        case 2: CircuitBootstrappingFFT<iksP, brP, privP>(*f, a, ek); break;
        case 3: CircuitBootstrappingFFT<brP, privP>(*f, b, ek); how = howb; break;
        case 4: CircuitBootstrappingFFTInv<iksP, brP, privP>(*f, a, ek); fv = !v; break;
        case 5: CircuitBootstrappingFFTwithInv<iksP, brP, privP>(*f, *inv, a, ek); break;
        default:
            if (t & 8) { CircuitBootstrappingFFTwithInv<brP, privP>(*f, *inv, b, ek); how = howb; }
            else { CircuitBootstrappingFFTInv<brP, privP>(*f, b, ek); fv = !v; how = howb; }
        }
        static const char *forms[] = {"switch+bootstrap", "bootstrap", "switch+bootstrap FFT", "bootstrap FFT", "inverted FFT", "FFT and inverse", "bootstrap inverted/pair"};
        how = std::string(forms[form]) + " of " + std::to_string(v) + " (" + how + ")";
        const double ulp = std::ldexp(1.0, -2 * std::numeric_limits<typename Q::T>::digits) * (sizeof(typename Q::T) == 8 ? std::ldexp((double)Q::n, 2 * 13) : Q::n);
        if (usef) back<Q>(*g, *f);
        J.rows(*g, fv, how, usef ? ulp : 0);
        const bool pair = form == 5 || (form == 6 && (t & 8));
        if (pair) { back<Q>(*g, *inv); J.rows(*g, !v, how + ", the inverse", ulp); }
        // and as a selector
        if (usef && sizeof(typename Q::T) == 4) {
            auto c1 = std::make_unique<TRLWE<Q>>(), c0 = std::make_unique<TRLWE<Q>>(), o = std::make_unique<TRLWE<Q>>();
            for (auto *c : {c1.get(), c0.get()}) for (auto &p : *c) for (auto &x : p) x = (typename Q::T)r.next();
            CMUXFFT<Q>(*o, *f, *c1, *c0);
            const auto got = vh::ref_trlwe_phase<Q>(*o, z), want = vh::ref_trlwe_phase<Q>(fv ? *c1 : *c0, z);
            // key rows share one error times the key
            const double sg = std::sqrt(Q::k * Q::l * Q::n * vh::digit2<Q>() * (J.pvar[0] + J.bvar * vh::key_var<Q>()) + Q::l * Q::n * vh::digit2<Q>() * J.pvar[Q::k] + Q::l * vh::digit2<Q>() * J.bvar + 2 * vh::dropvar<Q>());
            Stat s;
            for (uint32_t j = 0; j < Q::n; j++) s.add(vh::tdist<typename Q::T>(got[j], want[j]) / sg);
            if (s.mx > 8.5 || s.rms() > 2) fail("select:" + L, "%s used as a selector: error rms %.2f, maximum %.1f predicted standard deviations", how.c_str(), s.rms(), s.mx);
            tally("selections " + L);
        }
        eval(); distinct(vh::hash_bytes(*g)); tally("bootstrappings " + L); tally(std::string("form ") + forms[form]);
    });
    J.done();
}
template <class iksP, class brP, class privP>
void runsub(const SecretKey &sk, const EvalKey &ek, const std::string &L, int reps, uint64_t salt)
{
    using Q = typename privP::targetP;
    using A = typename iksP::domainP;
    const auto ka = sk.key.get<A>();
    const auto z = sk.key.get<Q>();
    Judge<privP> J(L, z, true);
    const double lut = std::ldexp(1.0, (int)std::bit_width(Q::l - 1u));
    const double mA = 8.5 * std::sqrt(vh::ksvar<iksP>() + vh::msvar<brP>() * lut * lut) + lut / (2.0 * brP::targetP::n);
    vh::parallel(reps, 8, [&](size_t t) {
        Rng r(salt * 1000 + t);
        std::string how;
        const bool v = t & 1;
        auto g = std::make_unique<TRGSW<Q>>();
        auto f = std::make_unique<TRGSWFFT<Q>>();
        for (auto &x : *g) for (auto &p : x) p.fill((typename Q::T)0x1234567);
        for (auto &x : *f) for (auto &p : x) p.fill(-1e7);
        const auto a = bitct<A>(v, r, ka, r.below(4), mA, how);
        if (t & 2) { CircuitBootstrappingSub<iksP, brP, privP>(*g, a, ek); J.rows(*g, v, "subset of " + std::to_string(v) + " (" + how + ")"); }
        else { CircuitBootstrappingSubFFT<iksP, brP, privP>(*f, a, ek); back<Q>(*g, *f); J.rows(*g, v, "subset FFT of " + std::to_string(v) + " (" + how + ")", std::ldexp((double)Q::n, -64)); }
        eval(); distinct(vh::hash_bytes(*g)); tally("bootstrappings " + L);
    });
    J.done();
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const int R = vh::thorough && !vh::light ? 10 : 1, S = vh::light ? 4 : 1;
    {
        auto sk = std::make_unique<SecretKey>();
        EvalKey ek(*sk);
        vh::parallel(3, 3, [&](size_t i) {
            if (i == 0) ek.emplaceprivksk4cb<lvl21param>(*sk);
            else if (i == 1) ek.emplacebkfft<lvl02param>(*sk);
            else ek.emplaceiksk<lvl10param>(*sk);
        });
        run<lvl10param, lvl02param, lvl21param>(*sk, ek, "lvl21", 168 * R / S, 1);
        if (vh::thorough) {
            ek.emplaceprivksk4cb<lvl22param>(*sk);
            run<lvl10param, lvl02param, lvl22param>(*sk, ek, "lvl22", 56, 2);
        }
    }
    {
        // the level 1 key is the beginning of the level 2 key
        auto sk = std::make_unique<SecretKey>();
        for (size_t i = 0; i < lvl1param::k * lvl1param::n; i++) sk->key.lvl2[i] = (lvl2param::T)(std::make_signed_t<lvl1param::T>)sk->key.lvl1[i];
        EvalKey ek(*sk);
        vh::parallel(4, 4, [&](size_t i) {
            if (i == 0) ek.emplacesubprivksk4cb<lvl21param>(*sk);
            else if (i == 1) ek.emplacebkfft<lvl02param>(*sk);
            else if (i == 2) ek.emplaceiksk<lvl10param>(*sk);
            else ek.emplacesubiksk<lvl21param>(*sk);
        });
        runsub<lvl10param, lvl02param, lvl21param>(*sk, ek, "subset lvl21", 64 * R / S, 3);
    }
    return vh::finish();
}
