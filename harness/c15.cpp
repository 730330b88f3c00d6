// C15: BFV-style multiplication of polynomial and scalar ciphertexts.
#include "model.hpp"
#include <mutex>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;
using P = lvl1param;
using T = P::T;
constexpr int w = std::numeric_limits<T>::digits;
using Big = std::array<uint64_t, P::n>;
static std::mutex mu;
static std::map<std::string, Stat> pop;
static void add(const std::string &k, const Stat &s) { std::lock_guard<std::mutex> g(mu); pop[k].add(s); }

static Big wide(const Polynomial<P> &p) { Big b; for (uint32_t i = 0; i < P::n; i++) b[i] = p[i]; return b; }
static Big mul(const Big &a, const Big &b) { Big c; vh::negacyclic<uint64_t>(c.data(), a.data(), b.data(), P::n); return c; }
static Big sig(const Key<P> &k) { Big b; for (uint32_t i = 0; i < P::n; i++) b[i] = (uint64_t)(int64_t)(int32_t)k[i]; return b; }
// real value of pm*x/2^w on the torus of the level (x modulo 2^64)
static double scaled(uint64_t x) { return std::ldexp((double)(int64_t)(x * (uint64_t)P::plain_modulus), -64 - 0); }
static void randkey(Key<P> &k, Rng &r, int cls)
{
    for (auto &x : k) x = (T)(cls == 1 ? 1 : cls == 2 ? -1 : cls == 3 ? (r.below(100) == 0) : (int)r.below(3) - 1);
}
static void fill(Polynomial<P> &p, Rng &r, int cls)
{
    for (auto &x : p) x = cls == 1 ? vh::edge<T>(r) : cls == 2 ? (T)-1 : cls == 3 ? 0 : (T)r.next();
    if (cls == 3) p[r.below(P::n)] = (T)r.next();
    if (cls == 4) for (uint32_t i = 0; i < P::n; i++) p[i] = i & 1 ? (T)-1 : 0;
}
// the three components against the exact scaled products
static void tensor(uint64_t salt, int reps)
{
    Rng r(salt);
    auto a = std::make_unique<TRLWE<P>>(), b = std::make_unique<TRLWE<P>>();
    auto o = std::make_unique<TRLWE3<P>>();
    for (int it = 0; it < reps; it++) {
        for (auto &p : *a) fill(p, r, it % 5);
        for (auto &p : *b) fill(p, r, it % 7 == 6 ? 2 : it / 5 % 5);
        for (auto &p : *o) p.fill(0x31);
        const bool square = it % 4 == 3;                      // the same object twice, or equal contents
        if (square || it % 11 == 5) *b = *a;
        const auto ha = vh::hash_bytes(*a), hb = vh::hash_bytes(*b);
        TRLWEMultWithoutRelinerization<P>(*o, *a, square ? *a : *b);
        if (square) tally("squares");
        if (ha != vh::hash_bytes(*a) || hb != vh::hash_bytes(*b)) fail("operands-changed", "multiplication changed an operand");
        const Big a0 = wide((*a)[0]), a1 = wide((*a)[1]), b0 = wide((*b)[0]), b1 = wide((*b)[1]);
        Big x = mul(a0, b1), y = mul(a1, b0);
        for (uint32_t i = 0; i < P::n; i++) x[i] += y[i];
        const Big c1 = mul(a1, b1), c2 = mul(a0, b0);
        const Big *want[3] = {&x, &c1, &c2};
        for (int c = 0; c < 3; c++) {
            double m = 0; uint32_t at = 0;
            for (uint32_t i = 0; i < P::n; i++) {
                double d = vh::tor<T>((*o)[c][i]) - scaled((*want[c])[i]);
                d = std::ldexp(d - std::floor(d + 0.5), w);
                if (std::fabs(d) > m) { m = std::fabs(d); at = i; }
            }
            if (m > 1.2) fail("tensor:" + std::to_string(c), "component %d, coefficient %u is %.2f units away from the exact scaled product", c, at, m);
            Stat s; s.add(m); add("tensor component worst error in units", s);
        }
        eval(); distinct(vh::mix(ha, hb)); tally("tensor products");
    }
}
static void relin(uint64_t salt, int kcls, int reps)
{
    Rng r(salt);
    auto key = std::make_unique<Key<P>>();
    randkey(*key, r, kcls);
    auto rk = std::make_unique<relinKeyFFT<P>>(relinKeyFFTgen<P>(*key));
    const Big s = sig(*key), s2 = mul(s, s);
    double n2 = 0;
    for (auto v : s2) n2 += (double)(int64_t)v * (double)(int64_t)v;
    const double rv = P::l * P::n * vh::digit2<P>() * P::α * P::α + n2 * std::ldexp(1.0, -2 * (int)(P::l * P::Bgbit)) / 12 + vh::fftvar<P>();
    const double sg = std::sqrt(rv);
    auto m = std::make_unique<TRLWE3<P>>();
    auto o = std::make_unique<TRLWE<P>>(), a = std::make_unique<TRLWE<P>>(), b = std::make_unique<TRLWE<P>>();
    Polynomial<P> sp, s2p;
    for (uint32_t i = 0; i < P::n; i++) { sp[i] = (T)s[i]; s2p[i] = (T)s2[i]; }
    auto phase3 = [&](const TRLWE3<P> &c) {
        Polynomial<P> t, u, ph;
        vh::negacyclic<T>(t.data(), c[0].data(), sp.data(), P::n);
        vh::negacyclic<T>(u.data(), c[2].data(), s2p.data(), P::n);
        for (uint32_t i = 0; i < P::n; i++) ph[i] = c[1][i] - t[i] + u[i];
        return ph;
    };
    for (int it = 0; it < reps; it++) {
        const int cls = it % 5;
        for (auto &p : *m) fill(p, r, cls);
        for (auto &p : *o) p.fill(0x31);
        Relinearization<P>(*o, *m, *rk);
        const auto want = phase3(*m);
        const auto got = vh::ref_trlwe_phase<P>(*o, *key);
        Stat st;
        for (uint32_t i = 0; i < P::n; i++) st.add(vh::tdist<T>(got[i], want[i]) / sg);
        const bool structured = cls == 2 || cls == 4;  // equal words: equal rounding errors
        if (st.mx > (structured || kcls ? 80 : 8.5)) fail("relinearization:" + std::to_string(kcls), "class %d: error of %.1f predicted standard deviations (2^%.1f)", cls, st.mx, std::log2(sg));
        if (cls == 0 && !kcls) add("relinearization error/predicted", st);
        eval(); distinct(vh::hash_bytes(*m)); tally("relinearizations");
    }
    for (int it = 0; it < reps; it++) {
        // whole products of fresh encryptions of generated messages
        std::array<T, P::n> x, y;
        const int cls = it % 4;
        for (uint32_t i = 0; i < P::n; i++) {
            x[i] = cls == 1 ? P::plain_modulus - 1 : cls == 2 ? (r.below(50) == 0 ? r.below(P::plain_modulus) : 0) : r.below(P::plain_modulus);
            y[i] = cls == 1 ? P::plain_modulus - 1 : cls == 3 ? (i == r.below(P::n)) : r.below(P::plain_modulus);
        }
        *a = trlweSymIntEncrypt<P>(x, *key);
        *b = trlweSymIntEncrypt<P>(y, *key);
        if (it % 5 == 4) {
            y = x; *b = *a;
            if (it % 2) TRLWEMult<P>(*o, *a, *a, *rk);
            else { *o = *a; TRLWEMult<P>(*o, *o, *o, *rk); }
            tally("squares");
        } else if (it % 3 == 0) TRLWEMult<P>(*o, *a, *b, *rk);
        else if (it % 3 == 1) { *o = *a; TRLWEMult<P>(*o, *o, *b, *rk); }
        else { *o = *b; TRLWEMult<P>(*o, *a, *o, *rk); }
        // exact: pm*A*B/2^w with A, B the phases over the integers
        auto ip = [&](const TRLWE<P> &c) {
            Big t = mul(wide(c[0]), s), u = wide(c[1]);
            for (uint32_t i = 0; i < P::n; i++) u[i] -= t[i];
            return u;
        };
        const Big prod = mul(ip(*a), ip(*b));
        const auto got = vh::ref_trlwe_phase<P>(*o, *key);
        const double rnd = std::ldexp(1.0, -2 * w) / 12 * 1.6 * (1 + n2 + P::n);
        Stat st;
        double noise = 0;
        for (uint32_t i = 0; i < P::n; i++) {
            double d = vh::tor<T>(got[i]) - scaled(prod[i]);
            d -= std::floor(d + 0.5);
            st.add(d / std::sqrt(rv + rnd));
            double e = scaled(prod[i]) * P::plain_modulus;
            e -= std::floor(e + 0.5);
            noise = std::max(noise, std::fabs(e));
        }
        if (st.mx > (kcls ? 80 : 8.5)) fail("product:" + std::to_string(kcls), "the product's phase is %.1f predicted standard deviations (2^%.1f) away from the exact scaled product of the phases", st.mx, 0.5 * std::log2(rv + rnd));
        if (!kcls) add("product error/predicted", st);
        if (noise / P::plain_modulus + 9 * std::sqrt(rv + rnd) < 0.49 / P::plain_modulus) {
            const auto dec = trlweSymIntDecrypt<P>(*o, *key);
            Big bx, by;
            for (uint32_t i = 0; i < P::n; i++) { bx[i] = x[i]; by[i] = y[i]; }
            const Big pl = mul(bx, by);
            for (uint32_t i = 0; i < P::n; i++)
                if ((dec[i] - pl[i]) % P::plain_modulus) { fail("message:" + std::to_string(kcls), "coefficient %u of the product decrypts to %llu, expected %llu", i, (unsigned long long)dec[i], (unsigned long long)(pl[i] % P::plain_modulus)); break; }
            tally("decoded products");
        } else if (!kcls) fail("input-noise", "fresh encryptions are too noisy to multiply: %.4f", noise);
        eval(); distinct(vh::mix(vh::hash_bytes(*a), vh::hash_bytes(*b))); tally("products");
    }
}
static void scalar(uint64_t salt, int reps)
{
    using K = lvl11param;
    Rng r(salt);
    auto key = std::make_unique<Key<P>>();
    randkey(*key, r, 0);
    auto rk = std::make_unique<relinKeyFFT<P>>(relinKeyFFTgen<P>(*key));
    auto pk = std::make_unique_for_overwrite<PrivateKeySwitchingKey<K>>();
    privkskgen<K>(*pk, {1}, *key, *key);
    const Big s = sig(*key), s2 = mul(s, s);
    double n2 = 0;
    for (auto v : s2) n2 += (double)(int64_t)v * (double)(int64_t)v;
    const double sg = std::sqrt(P::l * P::n * vh::digit2<P>() * P::α * P::α + n2 * std::ldexp(1.0, -2 * (int)(P::l * P::Bgbit)) / 12 + vh::fftvar<P>() + std::ldexp(1.0, -2 * w) / 12 * 1.6 * (1 + n2 + P::n));
    Stat st;
    for (int it = 0; it < reps; it++) {
        const T x = it < 64 ? it / 8 : r.below(P::plain_modulus), y = it < 64 ? it % 8 : r.below(P::plain_modulus);
        auto a = tlweSymIntEncrypt<P>(x, *key), b = tlweSymIntEncrypt<P>(y, *key);
        if (it % 3 == 2) { for (auto &v : a) v = (T)r.next(); for (auto &v : b) v = (T)r.next(); }
        TLWE<P> o;
        o.fill(0x99);
        if (x == y && it % 2) { b = a; TLWEMult<K>(o, a, a, *rk, *pk); }
        else TLWEMult<K>(o, a, b, *rk, *pk);
        TRLWE<P> ra, rb;
        PrivKeySwitch<K>(ra, a, *pk);
        PrivKeySwitch<K>(rb, b, *pk);
        auto ip = [&](const TRLWE<P> &c) {
            Big t = mul(wide(c[0]), s), u = wide(c[1]);
            for (uint32_t i = 0; i < P::n; i++) u[i] -= t[i];
            return u;
        };
        const Big prod = mul(ip(ra), ip(rb));
        double d = vh::tor<T>(vh::ref_phase<P>(o, *key)) - scaled(prod[0]);
        d -= std::floor(d + 0.5);
        st.add(d / sg);
        if (std::fabs(d) > 8.5 * sg) fail("scalar-product", "%u times %u: phase is %.1f predicted standard deviations away from the exact product", (unsigned)x, (unsigned)y, d / sg);
        // and, where the noise of the lifted operands leaves room, the message itself
        if (it % 3 != 2) {
            double e = scaled(prod[0]) - (double)(x * y % P::plain_modulus) / P::plain_modulus;
            e -= std::floor(e + 0.5);
            if (std::fabs(e) + 8.5 * sg < 0.5 / P::plain_modulus) {
                if (tlweSymIntDecrypt<P>(o, *key) % P::plain_modulus != x * y % P::plain_modulus) fail("scalar-message", "%u times %u decrypts to %u", (unsigned)x, (unsigned)y, (unsigned)tlweSymIntDecrypt<P>(o, *key));
                tally("decoded scalar products");
            } else tally("scalar products too noisy to decode");
        }
        eval(); distinct(vh::hash_bytes(o)); tally("scalar products");
    }
    add("scalar product error/predicted", st);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const int R = vh::thorough ? 15 : 1;
    std::vector<std::function<void(uint64_t)>> f;
    for (int k = 0; k < 3; k++) f.push_back([=](uint64_t i) { tensor(i, 35 * R); });
    f.push_back([=](uint64_t i) { scalar(i, 90 * R); });
    for (int k = 0; k < 4; k++) f.push_back([=](uint64_t i) { relin(i, k, 25 * R); });
    for (int k = 0; k < 2; k++) f.push_back([=](uint64_t i) { relin(i, 0, 30 * R); });
    vh::parallel(f.size(), 8, [&](size_t i) { f[i](i + 1); });
    for (auto &[k, s] : pop) {
        metric(k + " rms", s.rms()); metric(k + " max", s.mx);
        note("%s: rms %.2f max %.2f over %llu", k.c_str(), s.rms(), s.mx, (unsigned long long)s.n);
        if (k.find("predicted") != std::string::npos && s.rms() > (s.n > 2000 ? 1.25 : 1.6)) fail("noise:" + k, "rms %.2f", s.rms());
    }
    return vh::finish();
}
