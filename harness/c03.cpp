// C03: polynomial products and transforms in every domain against exact ring arithmetic.
#include <tfhe++.hpp>
#include <nussbaumer.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::metric; using vh::note;
using u128 = unsigned __int128;
using i128 = __int128;
static const uint64_t GP = 0xFFFFFFFF00000001ull;

enum Dist { SMALL, BIN, TERN, BIG, MAXS, SPARSE, MONO, DIGIT, NDIST };
static const char *dn[] = {"small", "binary", "ternary", "uniform", "extreme", "sparse", "monomial", "digits"};
template <class T, size_t N>
void fillp(std::array<T, N> &a, int d, Rng &r, int digitbits = 9)
{
    for (auto &x : a) x = 0;
    for (size_t i = 0; i < N; i++) switch (d) {
        case SMALL: a[i] = (T)((int64_t)r.below(64) - 32); break;
        case BIN: a[i] = r.bit(); break;
        case TERN: a[i] = (T)((int64_t)r.below(3) - 1); break;
        case BIG: a[i] = (T)r.next(); break;
        case MAXS: a[i] = vh::edge<T>(r); break;
        case SPARSE: if (r.below(64) == 0) a[i] = (T)r.next(); break;
        case DIGIT: a[i] = (T)((int64_t)r.below((1 << digitbits) + 1) - (1 << (digitbits - 1))); break;
        }
    if (d == MONO) a[r.below(N)] = r.bit() ? 1 : (T)-1;
}
template <class T, size_t N> double norm2(const std::array<T, N> &a)
{
    double s = 0;
    for (auto x : a) { double v = (double)(std::make_signed_t<T>)x; s += v * v; }
    return std::sqrt(s);
}
template <class T, size_t N> double norm1(const std::array<T, N> &a)
{
    double s = 0;
    for (auto x : a) s += std::fabs((double)(std::make_signed_t<T>)x);
    return s;
}

// ------------------------------------------------------------------ 64-bit prime field NTT
template <uint32_t Nbit, class T>
struct GNtt {
    static constexpr uint32_t N = 1u << Nbit;
    std::unique_ptr<std::array<std::array<cuHEpp::INTorus, N>, 2>> twist, table;
    GNtt() : twist(cuHEpp::TwistGen<Nbit>()), table(cuHEpp::TableGen<Nbit>()) {}
    static uint64_t sw(T x)  // the field element the library reads a word as
    {
        if constexpr (sizeof(T) == 8) return (uint64_t)(((u128)x * GP + (1ull << 63)) >> 64) % GP;
        else return x;
    }
    void run(Rng &r, int reps)
    {
        char L[32]; snprintf(L, 32, "ntt%d/%zu", Nbit, sizeof(T) * 8);
        double worst = 0;
        for (int it = 0; it < reps; it++) {
            auto a = std::make_unique<std::array<T, N>>(), b = std::make_unique<std::array<T, N>>(), c = std::make_unique<std::array<T, N>>();
            int da = it % NDIST, db = (it / NDIST + it) % NDIST;
            if (sizeof(T) == 8 && (db == BIG || db == MAXS || db == SPARSE)) db = DIGIT;
            fillp(*a, da, r); fillp(*b, db, r);
            // round trip
            auto t = std::make_unique<std::array<cuHEpp::INTorus, N>>();
            cuHEpp::TwistINTT<T, Nbit>(*t, *a, (*table)[1], (*twist)[1]);
            cuHEpp::TwistNTT<T, Nbit>(*c, *t, (*table)[0], (*twist)[0]);
            for (uint32_t i = 0; i < N; i++) {
                // 64-bit words pass through a field slightly smaller than 2^64: one unit
                std::make_signed_t<T> e = (*c)[i] - (*a)[i];
                if (sizeof(T) == 4 ? e != 0 : (e < -1 || e > 1)) { fail(std::string(L) + "-roundtrip", "%s a[%u]=%llx came back %llx", dn[da], i, (unsigned long long)(*a)[i], (unsigned long long)(*c)[i]); break; }
            }
            cuHEpp::PolyMullvl1<T, Nbit>(*c, *a, *b, *table, *twist);
            eval(2); distinct(vh::mix(vh::hash_bytes(*a), vh::hash_bytes(*b)));
            tally(std::string(L) + " products");
            if constexpr (sizeof(T) == 4) {
                // exact modulo the prime, on sampled coefficients (all, for sparse ones)
                const uint32_t step = (da == MONO || db == MONO || vh::thorough) ? 1 : 7;
                std::vector<std::pair<uint32_t, uint64_t>> nz;
                for (uint32_t j = 0; j < N; j++) if ((*b)[j]) nz.push_back({j, sw((*b)[j])});
                for (uint32_t i = (uint32_t)r.below(step); i < N; i += step) {
                    u128 pos = 0, neg = 0;
                    for (auto &[j, v] : nz) {
                        if (j <= i) pos += (u128)sw((*a)[i - j]) * v;
                        else neg += (u128)sw((*a)[N + i - j]) * v;
                    }
                    uint64_t p = (uint64_t)(pos % GP), n = (uint64_t)(neg % GP);
                    uint64_t e = p >= n ? p - n : p + GP - n;
                    if ((uint32_t)e != (*c)[i]) { fail(std::string(L) + "-product", "%s x %s coefficient %u is %x, exact residue gives %x", dn[da], dn[db], i, (unsigned)(*c)[i], (unsigned)e); break; }
                }
            } else {
                auto e = std::make_unique<std::array<T, N>>();
                vh::negacyclic<T>(e->data(), a->data(), b->data(), N);
                const double bound = 0.5 * norm1(*b) + 3;
                const double tight = 0.5 * norm2(*b) * 6 + 3;
                for (uint32_t i = 0; i < N; i++) {
                    double d = std::fabs((double)(int64_t)((*c)[i] - (*e)[i]));
                    worst = std::max(worst, d / tight);
                    if (d > std::min(bound, tight * 3)) { fail(std::string(L) + "-product", "%s x %s coefficient %u off by %.0f units (bound %.0f)", dn[da], dn[db], i, d, bound); break; }
                }
            }
        }
        if (worst > 0) metric(std::string(L) + " worst error / bound", worst);
    }
};

// ------------------------------------------------------------------ RAINTT
template <uint32_t Nbit>
struct RNtt {
    static constexpr uint32_t N = 1u << Nbit;
    std::unique_ptr<std::array<std::array<raintt::SWord, N>, 2>> twist;
    std::unique_ptr<std::array<std::array<std::array<raintt::SWord, N>, 2>, 2>> table;
    RNtt() : twist(raintt::TwistGen<Nbit, 3>()), table(raintt::TableGen<Nbit>()) {}
    using T = uint32_t;
    void run(Rng &r, int reps)
    {
        const int64_t P = raintt::P;
        char Lb[32]; snprintf(Lb, 32, "raintt%d", Nbit);
        const std::string L = Lb;
        constexpr uint8_t rem = ((Nbit - 1) % 3) + 1;
        std::array<T, N> a, b, c;
        double worst = 0, wrt = 0;
        for (int it = 0; it < reps; it++) {
            const int kind = it % 4;
            // operands of the exact product: signed words of absolute value below P
            int da = it % NDIST, db = (it / NDIST + it) % NDIST;
            fillp(a, da, r, 7); fillp(b, db, r, 7);
            auto red = [&](std::array<T, N> &x) { for (auto &v : x) v = (T)(int32_t)((int64_t)(int32_t)v % P); };
            if (kind == 0) {
                red(a);
                std::array<raintt::DoubleSWord, N> t;
                raintt::TwistINTT<T, Nbit, false>(t, a, (*table)[1], (*twist)[1]);
                for (uint32_t i = 0; i < N; i++) if ((i & ((1 << rem) - 1)) > 1) t[i] = raintt::MulSREDC(t[i], raintt::R2);
                raintt::TwistNTT<T, Nbit, false>(c, t, (*table)[0], (*twist)[0]);
                for (uint32_t i = 0; i < N; i++) {
                    int64_t w = ((int64_t)(int32_t)a[i] % P + P) % P;
                    if ((int64_t)c[i] % P != w || c[i] > (uint64_t)P) { fail(L + "-roundtrip", "%s a[%u]=%d came back %u", dn[da], i, (int)a[i], c[i]); break; }
                }
            } else if (kind == 1) {
                std::array<raintt::DoubleSWord, N> t;
                raintt::TwistINTT<T, Nbit, true>(t, a, (*table)[1], (*twist)[1]);
                for (uint32_t i = 0; i < N; i++) if ((i & ((1 << rem) - 1)) > 1) t[i] = raintt::MulSREDC(t[i], raintt::R2);
                raintt::TwistNTT<T, Nbit, true>(c, t, (*table)[0], (*twist)[0]);
                for (uint32_t i = 0; i < N; i++) {
                    double e = std::fabs((double)(int32_t)(c[i] - a[i]));
                    wrt = std::max(wrt, e);
                    if (e > 4.5) { fail(L + "-modswitch-roundtrip", "%s a[%u]=%x came back %x", dn[da], i, a[i], c[i]); break; }
                }
            } else if (kind == 2) {
                red(a); red(b);
                raintt::PolyMullvl1<T, Nbit, false, false>(c, a, b, *table, *twist);
                std::vector<std::pair<uint32_t, int64_t>> nz;
                for (uint32_t j = 0; j < N; j++) if (b[j]) nz.push_back({j, (int32_t)b[j]});
                const uint32_t step = (da == MONO || db == MONO || vh::thorough) ? 1 : 5;
                for (uint32_t i = (uint32_t)r.below(step); i < N; i += step) {
                    i128 s = 0;
                    for (auto &[j, v] : nz) s += j <= i ? (i128)(int32_t)a[i - j] * v : -(i128)(int32_t)a[N + i - j] * v;
                    int64_t e = (int64_t)(s % P); if (e < 0) e += P;
                    if ((int64_t)c[i] % P != e) { fail(L + "-product", "%s x %s coefficient %u is %u, exact residue %lld", dn[da], dn[db], i, c[i], (long long)e); break; }
                }
            } else {
                // integer (gadget digit) times torus
                if (da == BIG || da == MAXS || da == SPARSE) fillp(a, da = DIGIT, r, 7);
                raintt::PolyMullvl1<T, Nbit, false, true>(c, a, b, *table, *twist);
                std::array<T, N> e;
                vh::negacyclic<T>(e.data(), b.data(), a.data(), N);
                // mod switch: half a unit of 1/P per operand word, then one of the result
                const double unit = 4294967296.0 / P;
                const double bound = std::min(unit * (0.5 * norm1(a)) + 5, unit * 0.2887 * norm2(a) * 9 + unit * 4 + 5);
                for (uint32_t i = 0; i < N; i++) {
                    double d = std::fabs((double)(int32_t)(c[i] - e[i]));
                    worst = std::max(worst, d / bound);
                    if (d > bound) { fail(L + "-modswitch-product", "%s x %s coefficient %u off by %.0f units (bound %.1f)", dn[da], dn[db], i, d, bound); break; }
                }
            }
            eval(); distinct(vh::mix(vh::hash_bytes(a), vh::hash_bytes(b) + kind)); tally(L + " cases");
        }
        metric(L + " worst product error/bound", worst); metric(L + " worst round trip error", wrt);
    }
};

// ------------------------------------------------------------------ FFT
// error of one product in units: rounding + transform error
static double fftbound(double na, double nb, int N, double c) { return 1.0 + c * std::ldexp(1.0, -53) * std::log2((double)N) * na * nb; }
template <class P>
void fft(Rng &r, int reps, const char *L0)
{
    using T = typename P::T;
    const std::string L = L0;
    double worst = 0, wrt = 0;
    for (int it = 0; it < reps; it++) {
        auto a = std::make_unique<Polynomial<P>>(), b = std::make_unique<Polynomial<P>>(), c = std::make_unique<Polynomial<P>>(), e = std::make_unique<Polynomial<P>>();
        auto fa = std::make_unique<PolynomialInFD<P>>(), fb = std::make_unique<PolynomialInFD<P>>(), fc = std::make_unique<PolynomialInFD<P>>();
        int da = it % NDIST, db = (it / NDIST + it) % NDIST;
        // the 64-bit transform holds 53 bits of the product; words times digits as in the external product
        if (db == BIG || db == MAXS || db == SPARSE) db = DIGIT;
        // the gadget's own digits, and wider ones: products of up to 2^(31+20+5) are still held by a double
        const int bits = it % 2 ? 9 : 10 + (int)r.below(11);
        fillp(*a, da, r); fillp(*b, db, r, bits);
        const double na = norm2(*a), nb = norm2(*b);
        const double bd = fftbound(na, nb, P::n, 1.0);
        auto cmp = [&](const char *what, double scale) {
            for (uint32_t i = 0; i < P::n; i++) {
                double d = std::fabs((double)(std::make_signed_t<T>)((*c)[i] - (*e)[i]));
                worst = std::max(worst, (d - 1) / (bd * scale));
                if (d > bd * scale + 1) { fail(L + "-" + what, "%s x %s coefficient %u off by %.3g units (bound %.3g)", dn[da], dn[db], i, d, bd * scale); return; }
            }
        };
        // round trip
        TwistIFFT<P>(*fa, *a);
        *fc = *fa;
        TwistFFT<P>(*c, *fc);
        {
            double s = 0; for (auto x : *a) s = std::max(s, std::fabs((double)(std::make_signed_t<T>)x));
            const double bnd = 1 + std::ldexp(1.0, -53) * na * 6 + (sizeof(T) == 8 ? s * std::ldexp(1.0, -53) : 0);
            for (uint32_t i = 0; i < P::n; i++) {
                double d = std::fabs((double)(std::make_signed_t<T>)((*c)[i] - (*a)[i]));
                wrt = std::max(wrt, d / bnd);
                if (d > bnd) { fail(L + "-roundtrip", "%s a[%u]=%llx came back %llx", dn[da], i, (unsigned long long)(*a)[i], (unsigned long long)(*c)[i]); break; }
            }
        }
        vh::negacyclic<T>(e->data(), a->data(), b->data(), P::n);
        TwistIFFT<P>(*fb, *b);
        MulInFD<P::n>(*fc, *fa, *fb);
        auto keep = *fc;
        TwistFFT<P>(*c, *fc);
        cmp("mul3", 1);
        *fc = *fa; MulInFD<P::n>(*fc, *fb);
        TwistFFT<P>(*c, *fc);
        cmp("mul2", 1);
        // accumulate twice a product
        *fc = keep; FMAInFD<P::n>(*fc, *fa, *fb);
        TwistFFT<P>(*c, *fc);
        for (auto &x : *e) x = x * 2;
        cmp("fma", 2);
        vh::negacyclic<T>(e->data(), a->data(), b->data(), P::n);
        if constexpr (sizeof(T) == 4) { PolyMul<P>(*c, *a, *b); cmp("polymul", 1); PolyMul<P>(*c, *b, *a); cmp("polymul-swapped", 1); }
        if (it % 3 == 0) {
            PolyMulNaive<P>(*c, *a, *b);
            for (uint32_t i = 0; i < P::n; i++) if ((*c)[i] != (*e)[i]) { fail(L + "-naive", "%s x %s coefficient %u: %llx expected %llx", dn[da], dn[db], i, (unsigned long long)(*c)[i], (unsigned long long)(*e)[i]); break; }
        }
        eval(6); distinct(vh::mix(vh::hash_bytes(*a), vh::hash_bytes(*b))); tally(L + " products");
    }
    metric(L + " worst product error/bound", worst);
    metric(L + " worst round trip error/bound", wrt);
}
// products by every +-X^i, exactly
template <class P>
void monomials(Rng &r, const char *L0, int stride)
{
    using T = typename P::T;
    auto a = std::make_unique<Polynomial<P>>(), b = std::make_unique<Polynomial<P>>(), c = std::make_unique<Polynomial<P>>();
    fillp(*a, DIGIT, r);
    auto fa = std::make_unique<PolynomialInFD<P>>(), fb = std::make_unique<PolynomialInFD<P>>(), fc = std::make_unique<PolynomialInFD<P>>();
    TwistIFFT<P>(*fa, *a);
    for (uint32_t i = (uint32_t)r.below(stride); i < 2 * P::n; i += stride) {
        *b = {};
        (*b)[i % P::n] = i < P::n ? 1 : (T)-1;
        TwistIFFT<P>(*fb, *b);
        MulInFD<P::n>(*fc, *fa, *fb);
        TwistFFT<P>(*c, *fc);
        for (uint32_t j = 0; j < P::n; j++) {
            const uint32_t src = (j + 2 * P::n - i) % (2 * P::n);
            const T w = src < P::n ? (*a)[src] : -(*a)[src - P::n];
            std::make_signed_t<T> e = (*c)[j] - w;
            if (e < -1 || e > 1) { fail(std::string(L0) + "-monomial", "times X^%u: coefficient %u is %lld expected %lld", i, j, (long long)(std::make_signed_t<T>)(*c)[j], (long long)(std::make_signed_t<T>)w); break; }
        }
        eval();
    }
    tally(std::string(L0) + " monomials", 2 * P::n / stride);
}
static void polymul64(Rng &r, int reps)
{
    using P = lvl2param;
    double worst = 0;
    for (int it = 0; it < reps; it++) {
        auto a = std::make_unique<Polynomial<P>>(), b = std::make_unique<Polynomial<P>>(), c = std::make_unique<Polynomial<P>>(), e = std::make_unique<Polynomial<P>>();
        int da = it % NDIST, db = (it / NDIST + it) % NDIST;
        if (db == BIG || db == MAXS || db == SPARSE) db = TERN;
        fillp(*a, da, r); fillp(*b, db, r);
        vh::negacyclic<uint64_t>(e->data(), a->data(), b->data(), P::n);
        if (it & 1) PolyMul<P>(*c, *a, *b); else PolyMul<P>(*c, *b, *a);
        const double bound = 0.5 * norm1(*b) + 3, tight = 6 * norm2(*b) + 3;
        for (uint32_t i = 0; i < P::n; i++) {
            double d = std::fabs((double)(int64_t)((*c)[i] - (*e)[i]));
            worst = std::max(worst, d / bound);
            if (d > std::min(bound, tight)) { fail("polymul64", "%s x %s coefficient %u off by %.0f units (bound %.0f)", dn[da], dn[db], i, d, bound); break; }
        }
        eval(); distinct(vh::mix(vh::hash_bytes(*a), vh::hash_bytes(*b))); tally("lvl2 PolyMul products");
    }
    metric("polymul64 worst error/bound", worst);
}
// floor/truncated division of the integer product by the plaintext step
static void rescale(Rng &r, int reps)
{
    using P = lvl1param;
    double worst = 0;
    for (int it = 0; it < reps; it++) {
        Polynomial<P> a, b, c, n;
        int da = it % NDIST, db = (it / NDIST + it) % NDIST;
        fillp(a, da, r); fillp(b, db, r);
        // unsigned words; BFV uses messages below 2^29..2^32
        const int sh = (int)r.below(3) * 8;
        for (auto &x : a) x >>= sh;
        for (auto &x : b) x >>= sh;
        double nb = 0, na = 0;
        for (auto x : a) na += (double)x * x;
        for (auto x : b) nb += (double)x * x;
        const double err = 2 + std::ldexp(1.0, -53) * 10 * 2 * std::sqrt(na) * std::sqrt(nb) / P::Δ;
        // the transform must not exceed the 63-bit integers it converts to
        PolyMulRescaleUnsigned<P>(c, a, b);
        PolyMulNaieveRescaleUnsigned<P>(n, a, b);
        for (uint32_t i = 0; i < P::n; i += 3) {
            i128 s = 0;
            for (uint32_t j = 0; j < P::n; j++) s += j <= i ? (i128)a[i - j] * b[j] : -((i128)a[P::n + i - j] * b[j]);
            if (n[i] != (uint32_t)(s >> 29)) { fail("rescale-naive", "%s x %s coefficient %u: %x expected %x", dn[da], dn[db], i, n[i], (uint32_t)(s >> 29)); break; }
        }
        double smax = 0;
        for (uint32_t i = 0; i < P::n; i++) {
            double d = std::fabs((double)(int32_t)(c[i] - n[i]));
            worst = std::max(worst, d / err);
            if (d > err) { fail("rescale-lvl1", "%s x %s >>%d coefficient %u off by %.0f (bound %.1f)", dn[da], dn[db], sh, i, d, err); break; }
        }
        (void)smax;
        eval(2); distinct(vh::mix(vh::hash_bytes(a), vh::hash_bytes(b))); tally("rescaled products");
    }
    metric("rescale worst error/bound", worst);
    // 64-bit rescaling: signed operands, rounded division by the step
    using Q = lvl2param;
    double w2 = 0;
    for (int it = 0; it < reps / 3; it++) {
        auto a = std::make_unique<Polynomial<Q>>(), b = std::make_unique<Polynomial<Q>>(), c = std::make_unique<Polynomial<Q>>();
        fillp(*a, BIG, r); fillp(*b, DIGIT, r);
        auto fa = std::make_unique<PolynomialInFD<Q>>(), fb = std::make_unique<PolynomialInFD<Q>>();
        TwistIFFT<Q>(*fa, *a); TwistIFFT<Q>(*fb, *b); MulInFD<Q::n>(*fa, *fb);
        TwistFFTrescale<Q>(*c, *fa);
        const double err = 1 + std::ldexp(1.0, -53) * 22 * norm2(*a) * norm2(*b) / (double)Q::Δ;
        for (uint32_t i = 0; i < Q::n; i += 5) {
            i128 s = 0;
            for (uint32_t j = 0; j < Q::n; j++) s += j <= i ? (i128)(int64_t)(*a)[i - j] * (int64_t)(*b)[j] : -((i128)(int64_t)(*a)[Q::n + i - j] * (int64_t)(*b)[j]);
            double w = (double)s / (double)Q::Δ;
            double d = std::fabs((double)(int64_t)(*c)[i] - w);
            w2 = std::max(w2, d / err);
            if (d > err) { fail("rescale-lvl2", "coefficient %u is %lld, exact quotient %.3f", i, (long long)(*c)[i], w); break; }
        }
        eval(); tally("rescaled products");
    }
    metric("rescale64 worst error/bound", w2);
}
// transform objects of every size, interleaved in one process
static void processors(Rng &r, int reps)
{
    std::vector<std::unique_ptr<FFT_Processor_Spqlios>> ps;
    const int sizes[] = {16, 2048, 64, 512, 4096, 128, 1024, 256, 8192, 32};
    for (int n : sizes) ps.push_back(std::make_unique<FFT_Processor_Spqlios>(n));
    for (int it = 0; it < reps; it++)
        for (auto &p : ps) {
            const int N = p->N;
            struct alignas(64) Buf { double d[8192]; };
            auto x = std::make_unique<Buf>(), y = std::make_unique<Buf>();
            std::vector<uint32_t> a(N), b(N), c(N), e(N);
            std::vector<uint64_t> a64(N), b64(N), c64(N), e64(N);
            for (int i = 0; i < N; i++) { a[i] = (uint32_t)r.next(); b[i] = (uint32_t)((int)r.below(17) - 8); a64[i] = r.next() >> 12; b64[i] = (uint64_t)((int64_t)r.below(17) - 8); if (r.bit()) a64[i] = -a64[i]; }
            vh::negacyclic<uint32_t>(e.data(), a.data(), b.data(), N);
            vh::negacyclic<uint64_t>(e64.data(), a64.data(), b64.data(), N);
            auto mul = [&] {
                for (int i = 0; i < N / 2; i++) {
                    double re = x->d[i] * y->d[i] - x->d[i + N / 2] * y->d[i + N / 2], im = x->d[i] * y->d[i + N / 2] + x->d[i + N / 2] * y->d[i];
                    x->d[i] = re; x->d[i + N / 2] = im;
                }
            };
            p->execute_reverse_torus32(x->d, a.data());
            p->execute_reverse_int(y->d, (const int32_t *)b.data());
            mul();
            p->execute_direct_torus32(c.data(), x->d);
            for (int i = 0; i < N; i++) { int32_t d = c[i] - e[i]; if (d < -1 || d > 1) { fail("processor-torus32", "N=%d coefficient %d is %x expected %x", N, i, c[i], e[i]); break; } }
            // modulo q
            const uint32_t q = 0x2fffffffu - (uint32_t)r.below(1000);
            std::vector<int64_t> ex(N);
            for (int i = 0; i < N; i++) { i128 s = 0; if (i % (N > 1024 ? 37 : 5) == 0) { for (int j = 0; j < N; j++) s += j <= i ? (i128)(int32_t)a[i - j] * (int32_t)b[j] : -((i128)(int32_t)a[N + i - j] * (int32_t)b[j]); } ex[i] = (int64_t)s; }
            p->execute_direct_torus32_q(c.data(), x->d, q);
            for (int i = 0; i < N; i += (N > 1024 ? 37 : 5)) {
                int64_t d = (ex[i] - (int64_t)c[i]) % (int64_t)q; if (d < 0) d += q;
                if (!(d <= 1 || d >= (int64_t)q - 1) || c[i] >= q) { fail("processor-torus32-q", "N=%d coefficient %d is %u expected %lld mod %u", N, i, c[i], (long long)ex[i], q); break; }
            }
            // unsigned input
            p->execute_reverse_uint(x->d, a.data());
            std::vector<uint64_t> au(a.begin(), a.end()), eu(N);
            p->execute_reverse_int(y->d, (const int32_t *)b.data());
            mul();
            p->execute_direct_torus64(c64.data(), x->d);
            vh::negacyclic<uint64_t>(eu.data(), au.data(), b64.data(), N);
            (void)eu;
            std::vector<uint64_t> bi(N); for (int i = 0; i < N; i++) bi[i] = (uint64_t)(int64_t)(int32_t)b[i];
            vh::negacyclic<uint64_t>(eu.data(), au.data(), bi.data(), N);
            for (int i = 0; i < N; i++) { int64_t d = c64[i] - eu[i]; if (d < -1 || d > 1) { fail("processor-uint", "N=%d coefficient %d is %lld expected %lld", N, i, (long long)c64[i], (long long)eu[i]); break; } }
            p->execute_reverse_torus64(x->d, a64.data());
            p->execute_reverse_torus64(y->d, b64.data());
            mul();
            p->execute_direct_torus64(c64.data(), x->d);
            const double bound = 2 + std::ldexp(1.0, -53) * 14 * std::ldexp(0.6, 52) * N * 5;
            for (int i = 0; i < N; i++) { double d = std::fabs((double)(int64_t)(c64[i] - e64[i])); if (d > bound) { fail("processor-torus64", "N=%d coefficient %d off by %.0f (bound %.0f)", N, i, d, bound); break; } }
            eval(4); tally("transform sizes x runs"); distinct(vh::mix(N, a[0]));
        }
    // conversions of single values: every magnitude a double product can take
    auto &p = fftplvl2;
    alignas(64) static PolynomialInFD<lvl2param> x;
    static Polynomial<lvl2param> a, c;
    for (int s = 0; s < 64; s++) {
        for (auto &v : a) v = 0;
        for (int i = 0; i < (int)lvl2param::n; i += 97) a[i] = (r.bit() ? 1 : -1) * ((1ull << s) | (s ? r.below(1ull << s) : 0));
        p.execute_reverse_torus64(x.data(), a.data());
        p.execute_direct_torus64(c.data(), x.data());
        for (int i = 0; i < (int)lvl2param::n; i++) {
            // 2^63 and -2^63 are the same word
            double d = std::fabs((double)(int64_t)(c[i] - a[i]));
            if (d > 1 + std::ldexp(1.0, s - 45)) { fail("convert64", "2^%d-sized word %lld came back %lld", s, (long long)a[i], (long long)c[i]); break; }
        }
        eval();
    }
}
template <uint32_t Nbit, class T>
void nuss(Rng &r, int reps)
{
    constexpr uint32_t N = 1u << Nbit;
    std::array<T, N> a, b, ta, tb, s;
    for (int it = 0; it < reps; it++) {
        fillp(a, it % NDIST, r); fillp(b, (it + 3) % NDIST, r);
        ta = a; tb = b;
        for (uint32_t i = 0; i < N; i++) s[i] = a[i] + b[i];
        Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{ta});
        Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{tb});
        Nussbaumer::NussbaumerTransform<T, Nbit>(std::span<T, N>{s});
        for (uint32_t i = 0; i < N; i++) if (s[i] != T(ta[i] + tb[i])) { fail("nussbaumer-linear", "N=%u index %u", N, i); break; }
        Nussbaumer::InverseNussbaumerTransform<T, Nbit>(std::span<T, N>{ta});
        for (uint32_t i = 0; i < N; i++) if (ta[i] != T(a[i] * T(N))) { fail("nussbaumer-roundtrip", "N=%u a[%u]=%llx gives %llx", N, i, (unsigned long long)a[i], (unsigned long long)ta[i]); break; }
        eval(2); tally("nussbaumer"); distinct(vh::hash_bytes(a));
    }
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    Rng r(303);
    const int R = vh::thorough ? 12 : 1;
    GNtt<9, uint32_t>().run(r, 64 * R);
    GNtt<10, uint32_t>().run(r, 64 * R);
    GNtt<11, uint32_t>().run(r, 24 * R);
    GNtt<12, uint32_t>().run(r, 16 * R);
    GNtt<7, uint32_t>().run(r, 64 * R);
    GNtt<9, uint64_t>().run(r, 40 * R);
    GNtt<10, uint64_t>().run(r, 40 * R);
    GNtt<11, uint64_t>().run(r, 64 * R);
    GNtt<12, uint64_t>().run(r, 8 * R);
    GNtt<13, uint64_t>().run(r, 4 * R);
    RNtt<9>().run(r, 160 * R);
    RNtt<10>().run(r, 200 * R);
    RNtt<11>().run(r, 80 * R);
    RNtt<8>().run(r, 80 * R);
    fft<lvl1param>(r, 96 * R, "fft-lvl1");
    fft<lvl2param>(r, 64 * R, "fft-lvl2");
    monomials<lvl1param>(r, "fft-lvl1", vh::thorough ? 1 : 2);
    monomials<lvl2param>(r, "fft-lvl2", vh::thorough ? 1 : 5);
    polymul64(r, 48 * R);
    rescale(r, 60 * R);
    processors(r, 3 * R);
    nuss<10, uint64_t>(r, 40 * R); nuss<10, uint32_t>(r, 20 * R); nuss<9, uint64_t>(r, 20 * R); nuss<11, uint64_t>(r, 20 * R); nuss<4, uint64_t>(r, 20 * R); nuss<5, uint64_t>(r, 20);
    // the transforms of monomials used by the bootstrapping variants
    note("NTT sizes 2^7..2^13, RAINTT 2^8..2^11, FFT objects 16..8192, Nussbaumer 2^4..2^11");
    return vh::finish();
}
