// C02: keys, masks and noise: distributions and freshness.
#include <tfhe++.hpp>
#include "vh.hpp"
#include <mutex>
#include <sys/wait.h>
#include <unistd.h>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> const char *nm()
{
    return std::is_same_v<P, lvl0param> ? "lvl0" : std::is_same_v<P, lvlhalfparam> ? "lvlhalf" : std::is_same_v<P, lvl1param> ? "lvl1" : std::is_same_v<P, lvl2param> ? "lvl2" : "lvl3";
}
static constexpr double Z = 7.5;   // per-statistic limit in standard deviations (about 6e-14 two-sided)
// population of uniform words
template <class T>
struct Uniform {
    static constexpr int w = std::numeric_limits<T>::digits;
    uint64_t n = 0, bit[64] = {}, eq = 0, pair = 0;
    std::vector<uint32_t> lo = std::vector<uint32_t>(256), hi = std::vector<uint32_t>(256), mid = std::vector<uint32_t>(256);
    double corr = 0, mean = 0;
    T prev = 0;
    void add(T x)
    {
        for (int b = 0; b < w; b++) bit[b] += (x >> b) & 1;
        lo[x & 255]++; hi[x >> (w - 8)]++; mid[(x >> (w / 2 - 4)) & 255]++;
        const double c = std::ldexp((double)x, -w) - 0.5, q = std::ldexp((double)prev, -w) - 0.5;
        if (n) { corr += c * q * 12; eq += x == prev; }
        mean += c * std::sqrt(12.0);
        prev = x; n++;
    }
    void check(const std::string &what)
    {
        for (int b = 0; b < w; b++) {
            const double z = (bit[b] - n / 2.0) / std::sqrt(n / 4.0);
            if (std::fabs(z) > Z) fail("mask-bit:" + what, "%s: bit %d of the mask words is set %llu times in %llu", what.c_str(), b, (unsigned long long)bit[b], (unsigned long long)n);
        }
        auto chi = [&](const std::vector<uint32_t> &h, const char *part) {
            double x = 0, e = n / 256.0;
            for (auto c : h) x += (c - e) * (c - e) / e;
            const double z = (x - 255) / std::sqrt(2 * 255.0);
            if (z > 9 || z < -9) fail("mask-bytes:" + what, "%s: chi-square of the %s byte of the mask words is %.0f for 255 degrees of freedom", what.c_str(), part, x);
        };
        if (n > 5000) { chi(lo, "lowest"); chi(hi, "highest"); chi(mid, "middle"); }
        if (std::fabs(corr / std::sqrt((double)n)) > Z) fail("mask-correlation:" + what, "%s: neighbouring mask words correlate, z = %.1f", what.c_str(), corr / std::sqrt((double)n));
        if (std::fabs(mean / std::sqrt((double)n)) > Z) fail("mask-mean:" + what, "%s: mean of the mask words is off, z = %.1f", what.c_str(), mean / std::sqrt((double)n));
        const double ee = std::ldexp((double)n, -w);
        if (eq > ee + Z * std::sqrt(ee) + 2) fail("mask-repeat:" + what, "%s: %llu mask words equal the one before, %.2f expected", what.c_str(), (unsigned long long)eq, ee);
        tally("mask words", n);
    }
};
// Wilson-Hilferty: chi-square of n to a normal
static double wh(double ss, double n) { return (std::cbrt(ss / n) - (1 - 2 / (9 * n))) / std::sqrt(2 / (9 * n)); }
// noise population in units of the word
struct Noise {
    Stat s; double lag = 0, prev = 0;
    void add(double x) { if (s.n) lag += x * prev; s.add(x); prev = x; }
    void check(const std::string &what, double sigma_units, double slack = 0)
    {
        const double n = s.n, sg = sigma_units;
        if (sg == 0) { if (s.mx > slack) fail("noise-zero:" + what, "%s: noise of standard deviation 0 requested, found %.0f units", what.c_str(), s.mx); return; }
        // fixed-point conversion drops less than one unit
        const double lo = std::max(0.0, sg - 0.62) / sg, up = std::sqrt(1 + (0.35 + slack * slack) / (sg * sg));
        if (wh(s.sq / (sg * sg * up * up), n) > Z) fail("noise-large:" + what, "%s: noise rms %.4g units, configured %.4g (%.0f samples)", what.c_str(), s.rms(), sg, n);
        if (wh(s.sq / (sg * sg * lo * lo + 1e-30), n) < -Z && lo > 0.05) fail("noise-small:" + what, "%s: noise rms %.4g units, configured %.4g (%.0f samples)", what.c_str(), s.rms(), sg, n);
        if (std::fabs(s.mean()) > Z * s.rms() / std::sqrt(n) + 0.51) fail("noise-mean:" + what, "%s: noise mean %.4g units for a standard deviation of %.4g", what.c_str(), s.mean(), sg);
        if (n > 2000 && sg > 20 && std::fabs(s.kurt() - 3) * std::sqrt(n / 24) > 12) fail("noise-shape:" + what, "%s: noise kurtosis %.3f", what.c_str(), s.kurt());
        if (s.mx > 9.5 * sg + 2 + slack) fail("noise-tail:" + what, "%s: noise of %.1f configured standard deviations", what.c_str(), s.mx / sg);
        if (s.sq > 0 && std::fabs(lag / s.sq) * std::sqrt(n) > Z) fail("noise-correlation:" + what, "%s: neighbouring noise terms correlate, z = %.1f", what.c_str(), lag / s.sq * std::sqrt(n));
        tally("noise terms", s.n);
    }
};
template <class T> double S(T x) { return (double)(std::make_signed_t<T>)x; }
static std::mutex mu;
static std::unordered_map<uint64_t, std::string> seen;   // hash of a run of words -> where
static void fresh(uint64_t h, const std::string &what)
{
    std::lock_guard<std::mutex> g(mu);
    auto [it, isnew] = seen.emplace(h, what);
    if (!isnew) fail("repeat:" + what, "randomness of %s already occurred in %s", what.c_str(), it->second.c_str());
}
template <class V> uint64_t run_hash(const V &v, size_t from, size_t bytes)
{
    uint64_t h = 99;
    const unsigned char *p = reinterpret_cast<const unsigned char *>(&v[from]);
    for (size_t i = 0; i + 8 <= bytes; i += 8) { uint64_t w; std::memcpy(&w, p + i, 8); h = vh::mix(h, w); }
    return h;
}
// Dependence between any two words of one ciphertext (or of successive ones, or of one secret key), wherever they are:
// each word gives binary features, collected over many objects; every pair of features is tested for independence (G statistic,
// p < 1e-20 per pair at the threshold).
struct Deps {
    static constexpr size_t M = 1024, W = M / 64;
    size_t F, n = 0;
    std::vector<std::array<uint64_t, W>> b;
    std::vector<uint32_t> n1;
    explicit Deps(size_t f) : F(f), b(f), n1(f) { for (auto &x : b) x.fill(0); }
    void set(size_t f, bool v) { if (v) b[f][n / 64] |= 1ull << (n % 64); }
    static double term(double o, double e) { return o > 0 ? 2 * o * std::log(o / e) : 0; }
    static double g(double a, double x, double y, double m)
    {
        if (x == 0 || y == 0 || x == m || y == m) return 0;
        return term(a, x * y / m) + term(x - a, x * (m - y) / m) + term(y - a, (m - x) * y / m) + term(m - x - y + a, (m - x) * (m - y) / m);
    }
    template <class D> void check(const std::string &what, bool lagged, D &&describe)
    {
        const size_t m = lagged ? n - 1 : n;
        std::vector<std::array<uint64_t, W>> later;
        if (lagged) {
            later = b;
            for (auto &v : later) for (size_t w = 0; w < W; w++) v[w] = v[w] >> 1 | (w + 1 < W ? v[w + 1] << 63 : 0);
            for (auto &v : b) v[m / 64] &= ~(1ull << (m % 64));
        }
        auto &c = lagged ? later : b;
        std::vector<uint32_t> p(F), q(F);
        for (size_t f = 0; f < F; f++) for (size_t w = 0; w < W; w++) { p[f] += __builtin_popcountll(b[f][w]); q[f] += __builtin_popcountll(c[f][w]); }
        double worst = 0;
        for (size_t f = 0; f < F; f++)
            for (size_t h = lagged ? 0 : f + 1; h < F; h++) {
                unsigned a = 0;
                for (size_t w = 0; w < W; w++) a += __builtin_popcountll(b[f][w] & c[h][w]);
                const double d = a - (double)p[f] * q[h] / m;
                if (d * d < 0.02 * m) continue;   // 0.02 m is 0.32 of the 0.0625 m of a full dependence of fair bits
                const double G = g(a, p[f], q[h], m);
                worst = std::max(worst, G);
                if (G > 110) {
                    fail("dependent:" + what, "%s: %s and %s%s are not independent over %zu samples (G = %.0f)", what.c_str(), describe(f).c_str(), lagged ? "the following " : "", describe(h).c_str(), m, G);
                    return;
                }
            }
        tally("pairs of words tested for independence", lagged ? F * F : F * (F - 1) / 2);
        metric(what + (lagged ? " successive" : "") + " strongest dependence (G)", worst);
        eval();
    }
};
template <class T> unsigned repeats(std::vector<T> v)
{
    std::sort(v.begin(), v.end());
    unsigned d = 0;
    for (size_t i = 1; i < v.size(); i++) d += v[i] == v[i - 1];
    return d;
}
template <class T> void wordrepeats(const std::string &what, const T *p, size_t n)
{
    // chance repeats of n words: n^2/2^(w+1) on average
    constexpr int w = std::numeric_limits<T>::digits;
    const double mean = std::ldexp((double)n * n, -w - 1);
    const unsigned d = repeats(std::vector<T>(p, p + n));
    if (d > mean + 12 * std::sqrt(mean) + (w == 64 ? 0 : w == 32 ? 3 : 8)) fail("mask-repeats:" + what, "%u repeated words among the %zu mask words of one ciphertext", d, n);
}
// features of ciphertext word arrays: lowest and highest bit of each mask word, sign and size of each noise term
template <class P, bool ringform> void deps(uint64_t)
{
    using T = typename P::T;
    constexpr int w = std::numeric_limits<T>::digits;
    const std::string what = std::string(ringform ? "ring " : "scalar ") + nm<P>();
    auto sk = std::make_unique<SecretKey>();
    const auto key = sk->key.get<P>();
    const size_t masks = P::k * P::n, noises = ringform ? P::n : 1;
    Deps d(2 * (masks + noises));
    const double med = 0.6745 * std::ldexp(P::α, w);
    for (; d.n < Deps::M; d.n++) {
        auto word = [&](size_t i, T v) { d.set(2 * i, v & 1); d.set(2 * i + 1, v >> (w - 1)); };
        auto noise = [&](size_t i, T v) { const auto e = S<T>(v); d.set(2 * (masks + i), e < 0); d.set(2 * (masks + i) + 1, std::fabs((double)e) > med); };
        if constexpr (ringform) {
            const TRLWE<P> c = trlweSymEncryptZero<P>(key);
            std::vector<T> all;
            for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++) { word(k * P::n + i, c[k][i]); all.push_back(c[k][i]); }
            const Polynomial<P> e = trlwePhase<P>(c, key);
            for (size_t i = 0; i < P::n; i++) noise(i, e[i]);
            wordrepeats(what, all.data(), all.size());
        } else {
            const TLWE<P> c = tlweSymEncrypt<P>(T(0), key);
            for (size_t i = 0; i < masks; i++) word(i, c[i]);
            noise(0, vh::ref_phase<P>(c, key));
            wordrepeats(what, &c[0], masks);
        }
    }
    auto desc = [&](size_t f) { return (f / 2 < masks ? std::string(f & 1 ? "the top bit" : "the low bit") + " of mask word " + std::to_string(f / 2) : std::string(f & 1 ? "the size" : "the sign") + " of noise term " + std::to_string(f / 2 - masks)); };
    d.check(what, false, desc);
    if (P::n <= 1024) d.check(what, true, desc);
}
static void keydeps(const std::vector<std::unique_ptr<SecretKey>> &sks)
{
    const size_t N = lvl0param::n + lvlhalfparam::n + lvl1param::n + lvl2param::n + lvl3param::n;
    std::vector<uint32_t> at; std::vector<const char *> lv;
    Deps d(2 * N);
    for (size_t s = 0; s < sks.size() && d.n < Deps::M; s++, d.n++) {
        size_t f = 0;
        auto put = [&](const auto &k, const char *name) {
            for (size_t i = 0; i < k.size(); i++, f++) {
                const long long v = (long long)S<std::decay_t<decltype(k[0])>>(k[i]);
                d.set(2 * f, v > 0); d.set(2 * f + 1, v < 0);
                if (s == 0) { at.push_back(i); lv.push_back(name); }
            }
        };
        put(sks[s]->key.lvl0, "level 0"); put(sks[s]->key.lvlhalf, "level half"); put(sks[s]->key.lvl1, "level 1"); put(sks[s]->key.lvl2, "level 2"); put(sks[s]->key.lvl3, "level 3");
    }
    // sign features of one element exclude each other: keep one feature per element for the test
    Deps e(N);
    e.n = d.n;
    for (size_t f = 0; f < N; f++) e.b[f] = d.b[2 * f];
    e.check("secret keys", false, [&](size_t f) { return std::string("element ") + std::to_string(at[f]) + " of " + lv[f]; });
}
template <class P> void scalar(uint64_t salt)
{
    using T = typename P::T;
    constexpr int w = std::numeric_limits<T>::digits;
    const std::string L = std::string("scalar ") + nm<P>();
    Rng r(salt);
    auto sk = std::make_unique<SecretKey>();
    const auto key = sk->key.get<P>();
    const int m = (P::n > 4000 ? 600 : 6000) * (vh::thorough ? 8 : 1);
    auto unif = std::make_unique<Uniform<T>>();
    std::vector<double> possq(P::k * P::n, 0.0);
    auto batch = [&](const std::string &what, double α, int cnt, auto enc) {
        Noise no;
        for (int i = 0; i < cnt; i++) {
            T msg = (T)r.next();
            const TLWE<P> c = enc(msg);
            no.add(S<T>(vh::ref_phase<P>(c, key) - msg));
            for (size_t j = 0; j < P::k * P::n; j++) { unif->add(c[j]); const double u = std::ldexp((double)c[j], -w) - 0.5; possq[j] += u * u * 12; }
            fresh(run_hash(c, 0, 64), what); fresh(run_hash(c, P::k * P::n / 2, 64), what);
            eval(); distinct(run_hash(c, 0, 64));
        }
        no.check(what, std::ldexp(α, w));
        metric(what + " rms/configured", no.s.rms() / std::ldexp(α ? α : 1, w));
    };
    const double αs = P::α;
    batch(L, P::α, m, [&](T &x) { return tlweSymEncrypt<P>(x, key); });
    batch(L + " given noise", αs * 3.7, m / 4, [&](T &x) { return tlweSymEncrypt<P>(x, αs * 3.7, key); });
    batch(L + " large noise", std::ldexp(1.0, -6), m / 4, [&](T &x) { return tlweSymEncrypt<P>(x, std::ldexp(1.0, -6), key); });
    batch(L + " no noise", 0, m / 20, [&](T &x) { return tlweSymEncrypt<P>(x, 0.0, key); });
    batch(L + " integer", P::α, m / 4, [&](T &x) { const T v = x % P::plain_modulus; x = (T)((uint64_t)(v * P::Δ)); return tlweSymIntEncrypt<P>(v, key); });
    batch(L + " integer given noise", αs * 2.5, m / 4, [&](T &x) { const T v = x % P::plain_modulus; x = (T)((uint64_t)(v * P::Δ)); return tlweSymIntEncrypt<P>(v, αs * 2.5, key); });
    for (size_t j = 0; j < possq.size(); j++) {
        // sixth decimal: uniform squares have variance 0.8
        const double n = unif->n / (double)(P::k * P::n), z = (possq[j] - n) / std::sqrt(0.8 * n);
        if (std::fabs(z) > Z) fail("mask-position:" + L, "%s: mask word %zu is not uniform (second moment z = %.1f)", L.c_str(), j, z);
    }
    unif->check(L);
    std::vector<uint8_t> bits(800);
    for (auto &b : bits) b = r.bit();
    const auto cs = bootsSymEncrypt<P>(bits, key);
    Noise no;
    for (size_t i = 0; i < cs.size(); i++) {
        no.add(S<T>(vh::ref_phase<P>(cs[i], key) - (bits[i] ? (T)P::μ : (T)-P::μ)));
        fresh(run_hash(cs[i], 0, 64), L + " batch");
        eval();
    }
    no.lag = 0;
    no.check(L + " batch", std::ldexp(P::α, w));
}
template <class P> void ring(uint64_t salt)
{
    using T = typename P::T;
    constexpr int w = std::numeric_limits<T>::digits;
    const std::string L = std::string("ring ") + nm<P>();
    Rng r(salt);
    auto sk = std::make_unique<SecretKey>();
    const auto key = sk->key.get<P>();
    auto unif = std::make_unique<Uniform<T>>();
    // the floating-point product in encryption leaves an error of its own at 64 bits
    const double fft = w == 64 ? std::ldexp(P::n, -53 + 63 - 2) * 0.5 : 1;
    std::vector<double> pos(P::n, 0.0);
    auto one = [&](Noise &no, const TRLWE<P> &c, const Polynomial<P> &msg, const std::string &what, double sg, bool addpos) {
        const auto ph = vh::ref_trlwe_phase<P>(c, key);
        for (uint32_t i = 0; i < P::n; i++) {
            const double d = S<T>(ph[i] - msg[i]);
            no.add(d);
            if (addpos) pos[i] += d * d / (sg * sg);
        }
        for (uint32_t k = 0; k < P::k; k++) for (auto x : c[k]) unif->add(x);
        fresh(run_hash(c[0], 0, 64), what); fresh(run_hash(c[0], P::n - 64, 64), what);
        eval(); distinct(run_hash(c[0], 0, 64));
    };
    auto batch = [&](const std::string &what, double α, int cnt, auto enc, bool addpos = false) {
        Noise no;
        auto msg = std::make_unique<Polynomial<P>>();
        for (int i = 0; i < cnt; i++) {
            for (auto &x : *msg) x = (T)r.next();
            const TRLWE<P> c = enc(*msg);
            one(no, c, *msg, what, std::ldexp(α, w), addpos);
        }
        no.check(what, std::ldexp(α, w), fft);
        metric(what + " rms/configured", no.s.rms() / std::ldexp(α ? α : 1, w));
    };
    const double α = P::α;
    const int m = (w == 64 ? 60 : 160) * (vh::thorough ? 6 : 1);
    batch(L, α, m, [&](auto &p) { return trlweSymEncrypt<P>(p, key); }, true);
    for (uint32_t i = 0; i < P::n; i++) {
        const double z = wh(pos[i], m);
        if (std::fabs(z) > Z) fail("noise-position:" + L, "%s: noise in coefficient %u has variance %.2f times the configured one over %d ciphertexts", L.c_str(), i, pos[i] / m, m);
    }
    batch(L + " given noise", α * 5, m / 4, [&](auto &p) { return trlweSymEncrypt<P>(p, α * 5, key); });
    batch(L + " large noise", std::ldexp(1.0, -6), m / 8, [&](auto &p) { return trlweSymEncrypt<P>(p, std::ldexp(1.0, -6), key); });
    batch(L + " no noise", 0, 2, [&](auto &p) { return trlweSymEncrypt<P>(p, 0.0, key); });
    batch(L + " zero", α, m / 4, [&](auto &p) { p = {}; return trlweSymEncryptZero<P>(key); });
    batch(L + " zero given noise", α * 3, m / 4, [&](auto &p) { p = {}; return trlweSymEncryptZero<P>(α * 3, key); });
    batch(L + " integer", α, m / 4, [&](auto &p) { Polynomial<P> q; for (uint32_t i = 0; i < P::n; i++) { q[i] = p[i] % P::plain_modulus; p[i] = (T)((uint64_t)(q[i] * P::Δ)); } return trlweSymIntEncrypt<P>(q, key); });
    batch(L + " integer given noise", α * 2, m / 8, [&](auto &p) { Polynomial<P> q; for (uint32_t i = 0; i < P::n; i++) { q[i] = p[i] % P::plain_modulus; p[i] = (T)((uint64_t)(q[i] * P::Δ)); } return trlweSymIntEncrypt<P>(q, α * 2, key); });
    // gadget rows: zero plaintext, each row on its own
    constexpr uint32_t R = (P::k + 1) * P::l;
    std::vector<Noise> rows(R), given(R), half(P::l), viafft(R), vintt(R);
    Polynomial<P> zero = {};
    for (int it = 0; it < (w == 64 ? 6 : 16); it++) {
        auto g = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(zero, key));
        for (uint32_t q = 0; q < R; q++) one(rows[q], (*g)[q], zero, L + " gadget row", 1, false);
        if (it % 4 == 0) {
            *g = trgswSymEncrypt<P>(zero, α * 4, key);
            for (uint32_t q = 0; q < R; q++) one(given[q], (*g)[q], zero, L + " gadget row", 1, false);
            auto h = std::make_unique<HalfTRGSW<P>>(halftrgswSymEncrypt<P>(zero, key));
            for (uint32_t q = 0; q < P::l; q++) one(half[q], (*h)[q], zero, L + " half gadget row", 1, false);
            auto gf = std::make_unique<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(zero, key));
            auto gn = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(zero, key));
            auto c = std::make_unique<TRLWE<P>>();
            for (uint32_t q = 0; q < R; q++) {
                // transforms are not exact on full 64-bit words: subtract nothing, allow their error
                if (w == 32) {
                    for (uint32_t k = 0; k <= P::k; k++) { auto t = (*gf)[q][k]; TwistFFT<P>((*c)[k], t); }
                    one(viafft[q], *c, zero, L + " FFT gadget row", 1, false);
                    for (uint32_t k = 0; k <= P::k; k++) { auto t = (*gn)[q][k]; TwistNTT<P>((*c)[k], t); }
                    one(vintt[q], *c, zero, L + " NTT gadget row", 1, false);
                }
            }
        }
    }
    for (uint32_t q = 0; q < R; q++) {
        const std::string at = " " + std::to_string(q);
        rows[q].check(L + " gadget row" + at, std::ldexp(α, w), fft);
        given[q].check(L + " gadget row given noise" + at, std::ldexp(α * 4, w), fft);
        if (q < P::l) half[q].check(L + " half gadget row" + at, std::ldexp(α, w), fft);
        if (w == 32) viafft[q].check(L + " FFT gadget row" + at, std::ldexp(α, w), fft + 30);
        if (w == 32) vintt[q].check(L + " NTT gadget row" + at, std::ldexp(α, w), fft + 2);
    }
    unif->check(L);
}
// secret keys
template <class P> void keystat(const std::vector<std::unique_ptr<SecretKey>> &sks)
{
    const std::string L = std::string("key ") + nm<P>();
    constexpr int lo = P::key_value_min, hi = P::key_value_max, nv = hi - lo + 1;
    constexpr size_t n = P::k * P::n;
    std::vector<std::array<uint32_t, nv>> pos(n);
    std::array<uint64_t, nv * nv> pairs = {}, next = {};
    std::array<uint64_t, nv> tot = {};
    std::vector<int> last(n, 0);
    for (size_t q = 0; q < sks.size(); q++) {
        const auto k = sks[q]->key.get<P>();
        std::vector<int> v(n);
        for (size_t i = 0; i < n; i++) {
            const int64_t x = (std::make_signed_t<typename P::T>)k[i];
            if (x < lo || x > hi) { fail("key-alphabet:" + L, "%s: element %zu is %lld", L.c_str(), i, (long long)x); return; }
            v[i] = x - lo;
            pos[i][v[i]]++; tot[v[i]]++;
            if (i) pairs[v[i - 1] * nv + v[i]]++;
            if (q) next[last[i] * nv + v[i]]++;
        }
        last = v;
        uint64_t h = 5;
        for (int x : v) h = vh::mix(h, x);
        fresh(h, L);
        uint64_t h2 = 5;
        for (size_t i = 0; i < 256; i++) h2 = vh::mix(h2, v[i] + 100);
        fresh(h2, L + " (first 256 elements)");
        eval(); distinct(h);
    }
    auto test = [&](auto &h, double e, int cells, const char *what) {
        for (int c = 0; c < cells; c++)
            if (std::fabs(h[c] - e) > Z * std::sqrt(e)) fail(std::string("key-") + what + ":" + L, "%s: %s count of class %d is %llu, expected %.0f", L.c_str(), what, c, (unsigned long long)h[c], e);
    };
    const double m = sks.size();
    test(tot, m * n / nv, nv, "value");
    test(pairs, m * (n - 1) / nv / nv, nv * nv, "neighbour");
    test(next, (m - 1) * n / nv / nv, nv * nv, "successive key");
    for (size_t i = 0; i < n; i++)
        for (int v = 0; v < nv; v++)
            if (std::fabs(pos[i][v] - m / nv) > Z * std::sqrt(m / nv * (1 - 1.0 / nv)) + 3) { fail("key-position:" + L, "%s: element %zu has value %d in %u of %.0f keys", L.c_str(), i, v + lo, pos[i][v], m); return; }
    tally("key elements", m * n);
}
// keys of different levels are independent
template <class A, class B> void cross(const std::vector<std::unique_ptr<SecretKey>> &sks)
{
    double c = 0, n = 0;
    const double ma = vh::key_mean<A>(), mb = vh::key_mean<B>(), va = vh::key_var<A>() - ma * ma, vb = vh::key_var<B>() - mb * mb;
    for (auto &s : sks) {
        const auto a = s->key.get<A>();
        const auto b = s->key.get<B>();
        for (size_t i = 0; i < std::min<size_t>(A::k * A::n, B::k * B::n); i++) { c += (S<typename A::T>(a[i]) - ma) * (S<typename B::T>(b[i]) - mb); n++; }
    }
    const double z = c / std::sqrt(n * va * vb);
    if (std::fabs(z) > Z) fail(std::string("key-levels:") + nm<A>() + nm<B>(), "secret keys of %s and %s correlate, z = %.1f", nm<A>(), nm<B>(), z);
    eval();
}
// words a fresh thread or process draws first
// the centred binomial noise source
template <class P> void binomial(uint64_t salt)
{
    using S = std::make_signed_t<typename P::T>;
    for (uint eta : {1u, 3u, 21u}) {
        const size_t n = vh::thorough ? 40000000 : 4000000;
        double m = 0, v = 0, lag = 0, prev = 0;
        for (size_t i = 0; i < n; i++) {
            const double x = (double)(S)CenteredBinomial<P>(eta);
            if (std::fabs(x) > eta) { fail("binomial-range", "%s: centred binomial noise of %.0f for eta = %u", nm<P>(), x, eta); return; }
            m += x; v += x * x; lag += x * prev; prev = x;
        }
        const double s2 = eta / 2., k4 = 3 * s2 * s2 - s2 / 2;   // variance and fourth moment of a sum of 2 eta fair bits
        const double zm = m / std::sqrt(n * s2), zv = (v - n * s2) / std::sqrt(n * std::max(k4 - s2 * s2, 1e-9)), zl = lag / std::sqrt((double)n) / s2;
        if (std::fabs(zm) > Z) fail("binomial-mean", "%s: mean of the centred binomial noise for eta = %u is %.5f, z = %.1f", nm<P>(), eta, m / n, zm);
        if (std::fabs(zv) > Z) fail("binomial-variance", "%s: variance of the centred binomial noise for eta = %u is %.4f, expected %.4f", nm<P>(), eta, v / n, s2);
        if (std::fabs(zl) > Z) fail("binomial-correlation", "%s: neighbouring centred binomial noise values correlate, z = %.1f", nm<P>(), zl);
        eval(n); tally("binomial noise values", n);
    }
}
// the first secret key and the first masks of a process
struct First { uint64_t key, mask; };
static First first_words()
{
    auto sk = std::make_unique<SecretKey>();
    const uint64_t k = run_hash(sk->key.lvl1, 0, 256);
    const auto c = tlweSymEncrypt<lvl1param>(0, sk->key.lvl1);
    return {k, run_hash(c, 0, 256)};
}
int main(int argc, char **argv)
{
    if (argc > 1 && std::string(argv[1]) == "child") {
        const First f = first_words();
        printf("%llx %llx\n", (unsigned long long)f.key, (unsigned long long)f.mask);
        return 0;
    }
    vh::init(argc, argv);
    auto child = [&](const char *env) {
        char exe[512] = {}; ssize_t n = readlink("/proc/self/exe", exe, 500); (void)n;
        std::string cmd = std::string(env) + " '" + exe + "' child";
        FILE *f = popen(cmd.c_str(), "r");
        unsigned long long v = 0, m = 0;
        int k = fscanf(f, "%llx %llx", &v, &m);
        pclose(f);
        if (k != 2) { fprintf(stderr, "child failed\n"); abort(); }
        return First{v, m};
    };
    // threads created, ended and created again, and OpenMP workers
    for (int round = 0; round < 3; round++) {
        std::array<uint64_t, 24> h;
        vh::parallel(24, 8, [&](size_t i) {
            if (argc == 0) h[i] = 0;
            auto sk = std::make_unique<SecretKey>();
            for (int e = 0; e < 20; e++) {
                const auto c = tlweSymEncrypt<lvl1param>(0, sk->key.lvl1);
                fresh(run_hash(c, 0, 64), "a scalar ciphertext of a thread");
                const auto b = trlweSymEncryptZero<lvl1param>(sk->key.lvl1);
                fresh(run_hash(b[0], 0, 64), "a ring ciphertext of a thread");
            }
            h[i] = run_hash(sk->key.lvl1, 0, 512);
#ifdef VH_REAL_ENTROPY
            fresh(h[i], "the key of a thread");
#endif
        });
        eval(24 * 40); tally("threads", 24);
#ifndef VH_REAL_ENTROPY
        break;   // reproducible entropy repeats for the same item
#endif
    }
#ifdef VH_REAL_ENTROPY
    for (int i = 0; i < 8; i++) { const First f = child(""); fresh(f.key, "the key of a process"); fresh(f.mask, "the masks of a process"); eval(); tally("processes"); distinct(i); }
#else
    // entropy that reaches the output: flipping one bit of any of the words the generators are seeded with must show.
    // Keys and masks may come from different generators: each needs its own entropy.
    const First base = child("VH_ENT_FLIP=-1"), again = child("VH_ENT_FLIP=-1");
    if (base.key == again.key && base.mask == again.mask) {
        int eff[2] = {};
        std::unordered_set<uint64_t> all[2] = {{base.key}, {base.mask}};
        for (int i = 0; i < 40; i++) {
            const First f = child(("VH_ENT_FLIP=" + std::to_string(i)).c_str());
            for (int w = 0; w < 2; w++) {
                const uint64_t v = w ? f.mask : f.key;
                eval();
                if (v == (w ? base.mask : base.key)) continue;
                if (!all[w].insert(v).second) fail("entropy-collision", "two different entropy inputs gave the same %s", w ? "mask" : "key");
                eff[w]++;
            }
        }
        metric("entropy words reaching the first key", eff[0]);
        metric("entropy words reaching the first mask", eff[1]);
        for (int w = 0; w < 2; w++)
            if (eff[w] < 4) fail("entropy-low", "only %d 32-bit words of system entropy reach the first %s: fewer than 128 bits", eff[w], w ? "mask" : "key");
    } else tally("entropy not replayable");
    std::vector<std::unique_ptr<SecretKey>> sks(vh::thorough ? 2000 : 300);
    std::vector<std::function<void(uint64_t)>> w;
    w.push_back(ring<lvl2param>);
    w.push_back(scalar<lvl3param>);
    w.push_back(deps<lvl3param, false>);
    w.push_back(deps<lvl2param, true>);
    w.push_back(ring<lvl1param>);
    w.push_back([&](uint64_t) {
        for (auto &s : sks) s = std::make_unique<SecretKey>();
        keystat<lvl0param>(sks); keystat<lvlhalfparam>(sks); keystat<lvl1param>(sks); keystat<lvl2param>(sks); keystat<lvl3param>(sks);
        keydeps(sks);
        cross<lvl0param, lvlhalfparam>(sks); cross<lvl0param, lvl1param>(sks); cross<lvl0param, lvl2param>(sks); cross<lvl0param, lvl3param>(sks);
        cross<lvlhalfparam, lvl1param>(sks); cross<lvlhalfparam, lvl2param>(sks); cross<lvlhalfparam, lvl3param>(sks);
        cross<lvl1param, lvl2param>(sks); cross<lvl1param, lvl3param>(sks); cross<lvl2param, lvl3param>(sks);
    });
    w.push_back(scalar<lvl2param>);
    w.push_back(scalar<lvl1param>);
    w.push_back(scalar<lvlhalfparam>);
    w.push_back(scalar<lvl0param>);
    w.push_back(deps<lvl1param, true>);
    w.push_back(deps<lvl2param, false>);
    w.push_back(deps<lvl1param, false>);
    w.push_back(deps<lvlhalfparam, false>);
    w.push_back(deps<lvl0param, false>);
    w.push_back(binomial<lvl1param>);
    w.push_back(binomial<lvl2param>);
    vh::parallel(w.size(), 8, [&](size_t i) { vh::thread(5000 + i); w[i](i + 1); });
    note("%zu runs of random words compared for repetition", seen.size());
#endif
    return vh::finish();
}
