// C06: gadget decomposition: balanced digits, bounded recomposition error, for every word.
#include <tfhe++.hpp>
#include "vh.hpp"
#include <thread>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric;

template <class T_, uint32_t L, uint32_t B>
struct G {
    using T = T_;
    static constexpr uint32_t nbit = 10, n = 1u << nbit, k = 1, l = L, Bgbit = B;
    static constexpr T Bg = T(1) << B;
};
struct Tot { uint64_t words = 0; double worst = 0; };
template <class P>
void check(const Polynomial<P> &p, const char *L, Tot &tot)
{
    using T = typename P::T;
    using S = std::make_signed_t<T>;
    constexpr int w = std::numeric_limits<T>::digits;
    constexpr int64_t half = int64_t(1) << (P::Bgbit - 1);
    alignas(64) thread_local DecomposedPolynomial<P> d;
    for (auto &q : d) for (auto &x : q) x = 0x5a5a5a5a;
    Decomposition<P>(d, p);
    uint32_t badd = 0, bade = 0;
    for (uint32_t i = 0; i < P::n; i++) {
        T rec = 0;
        for (uint32_t l = 0; l < P::l; l++) {
            const S x = (S)d[l][i];
#ifdef USE_OPTIMAL_DECOMPOSITION
            badd |= x < -half || x > half;
#else
            badd |= x < -half || x >= half;
#endif
            rec += (T)x << (w - (l + 1) * P::Bgbit);
        }
        const S e = (S)(rec - p[i]);
        constexpr T hw = T(1) << (w - P::l * P::Bgbit - 1);
        bade |= (T)e > hw && (T)-e > hw;
    }
    if (badd | bade)
        for (uint32_t i = 0; i < P::n; i++) {
            T rec = 0; bool bd = false;
            for (uint32_t l = 0; l < P::l; l++) { S x = (S)d[l][i]; bd |= x < -half || x > half; rec += (T)x << (w - (l + 1) * P::Bgbit); }
            const S e = (S)(rec - p[i]);
            constexpr T hw = T(1) << (w - P::l * P::Bgbit - 1);
            if (bd || ((T)e > hw && (T)-e > hw) || (badd && !bade)) {
                fail(std::string(badd ? "digit-range:" : "recomposition:") + L, "word %llx (coefficient %u): digits %lld %lld .. recompose to %llx, error %lld", (unsigned long long)p[i], i, (long long)(S)d[0][i], (long long)(S)d[P::l > 1 ? 1 : 0][i], (unsigned long long)rec, (long long)e);
                break;
            }
        }
    tot.words += P::n;
}
template <class P>
void all(Rng &r, const char *L, int reps)
{
    using T = typename P::T;
    constexpr int w = std::numeric_limits<T>::digits;
    auto p = std::make_unique<Polynomial<P>>();
    Tot t;
    // words next to every carry boundary of the digits: m*2^s + {-2..2}, alone and combined
    std::vector<T> b;
    for (int s = 0; s < w; s++) for (int d = -2; d <= 2; d++) { b.push_back((T(1) << s) + T(d)); b.push_back(T(0) - (T(1) << s) + T(d)); }
    // half of the least weight, and halves of every digit, in combination
    for (uint32_t m = 0; m < (1u << std::min<uint32_t>(P::l, 10)); m++) {
        T x = 0;
        for (uint32_t l = 0; l < std::min<uint32_t>(P::l, 10); l++) if (m >> l & 1) x += T(1) << (w - l * P::Bgbit - 1);
        for (int d = -2; d <= 2; d++) for (int h = -1; h <= 1; h++) b.push_back(x + T(d) + T(h) * (w > P::l * P::Bgbit ? T(1) << ((w - P::l * P::Bgbit - 1) % w) : T(0)));
    }
    for (size_t o = 0; o < b.size(); o += P::n) {
        for (uint32_t i = 0; i < P::n; i++) (*p)[i] = b[(o + i) % b.size()];
        check<P>(*p, L, t);
        // same words at rotated coefficient positions
        std::rotate(p->begin(), p->begin() + 1 + r.below(P::n - 1), p->end());
        check<P>(*p, L, t);
    }
    for (int it = 0; it < reps; it++) {
        const int c = it % 4;
        for (auto &x : *p) x = c == 0 ? vh::edge<T>(r) : c == 1 ? b[r.below(b.size())] + (T)(r.next() >> r.below(64)) : (T)r.next();
        check<P>(*p, L, t);
        distinct(vh::mix(vh::hash_str(L), (*p)[0]));
    }
    eval(t.words);
    tally(std::string("words ") + L, t.words);
}
// every word with step, starting anywhere (step 1: all 2^32)
template <class P>
void sweep(const char *L, uint64_t step, uint64_t start)
{
    std::vector<std::thread> th;
    static Tot tot[8];
    for (int k = 0; k < 8; k++)
        th.emplace_back([=] {
            auto p = std::make_unique<Polynomial<P>>();
            tot[k] = Tot();
            uint32_t c = 0;
            for (uint64_t x = start + ((uint64_t)k << 29); x < ((uint64_t)(k + 1) << 29); x += step) {
                (*p)[c++] = (uint32_t)x;
                if (c == P::n) { check<P>(*p, L, tot[k]); c = 0; }
            }
        });
    uint64_t s = 0;
    for (int k = 0; k < 8; k++) { th[k].join(); s += tot[k].words; }
    eval(s); tally(std::string("swept words ") + L, s);
    if (step == 1) note("%s: all 2^32 words", L);
}
template <class P>
void transforms(Rng &r, const char *L, int reps)
{
    using T = typename P::T;
    for (int it = 0; it < reps; it++) {
        auto p = std::make_unique<Polynomial<P>>();
        for (auto &x : *p) x = it & 1 ? vh::edge<T>(r) : (T)r.next();
        auto d = std::make_unique<DecomposedPolynomial<P>>();
        Decomposition<P>(*d, *p);
        auto dn = std::make_unique<DecomposedPolynomialNTT<P>>();
        DecompositionNTT<P>(*dn, *p);
        auto back = std::make_unique<Polynomial<P>>();
        for (uint32_t l = 0; l < P::l; l++) {
            TwistNTT<P>(*back, (*dn)[l]);
            for (uint32_t i = 0; i < P::n; i++) {
                const auto e = (std::make_signed_t<T>)((*back)[i] - (*d)[l][i]);
                if (sizeof(T) == 4 ? e != 0 : (e < -1 || e > 1)) { fail(std::string("ntt-digits:") + L, "level %u coefficient %u: %lld expected %lld", l, i, (long long)(*back)[i], (long long)(*d)[l][i]); break; }
            }
        }
        if constexpr (std::is_same_v<P, lvl1param>) {
            constexpr uint8_t rem = ((P::nbit - 1) % 3) + 1;
            auto dr = std::make_unique<DecomposedPolynomialRAINTT<P>>();
            DecompositionRAINTT<P>(*dr, *p);
            for (uint32_t l = 0; l < P::l; l++) {
                auto &t = (*dr)[l];
                for (uint32_t i = 0; i < P::n; i++) if ((i & ((1 << rem) - 1)) > 1) t[i] = raintt::MulSREDC(t[i], raintt::R2);
                raintt::TwistNTT<T, P::nbit, false>(*back, t, (*raintttable)[0], (*raintttwist)[0]);
                for (uint32_t i = 0; i < P::n; i++) {
                    int64_t a = (*back)[i], b = (int32_t)(*d)[l][i];
                    if ((a - b) % raintt::P) { fail(std::string("raintt-digits:") + L, "level %u coefficient %u: %lld expected %lld", l, i, (long long)a, (long long)b); break; }
                }
            }
        }
        eval(2); tally("transform-domain decompositions");
    }
}
template <class P>
void weights(const char *L)
{
    const auto h = hgen<P>();
    for (uint32_t i = 0; i < P::l; i++) {
        const typename P::T want = typename P::T(1) << (std::numeric_limits<typename P::T>::digits - (i + 1) * P::Bgbit);
        if (h[i] != want) fail(std::string("weight:") + L, "weight %u is %llx expected %llx", i, (unsigned long long)h[i], (unsigned long long)want);
        eval();
    }
}
#define GG(T, L, B) { using Q = G<T, L, B>; all<Q>(r, #T " l=" #L " Bgbit=" #B, R); weights<Q>(#T " l=" #L " Bgbit=" #B); }
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    Rng r(606);
    const int R = vh::thorough ? 4000 : 150;
    all<lvl1param>(r, "lvl1", R * 2); weights<lvl1param>("lvl1");
    all<lvl2param>(r, "lvl2", R * 4); weights<lvl2param>("lvl2");
    transforms<lvl1param>(r, "lvl1", R / 4);
    transforms<lvl2param>(r, "lvl2", R / 8);
    GG(uint32_t, 1, 1) GG(uint32_t, 1, 23) GG(uint32_t, 1, 31) GG(uint32_t, 2, 8) GG(uint32_t, 2, 10) GG(uint32_t, 3, 7) GG(uint32_t, 7, 4) GG(uint32_t, 10, 3) GG(uint32_t, 15, 2) GG(uint32_t, 31, 1)
    GG(uint64_t, 1, 38) GG(uint64_t, 1, 23) GG(uint64_t, 3, 9) GG(uint64_t, 4, 15) GG(uint64_t, 8, 7) GG(uint64_t, 20, 3) GG(uint64_t, 2, 31) GG(uint64_t, 63, 1)
    sweep<lvl1param>("lvl1", vh::thorough ? 1 : 29, vh::thorough ? 0 : r.below(29));
    if (vh::thorough) { sweep<G<uint32_t, 2, 10>>("u32 l=2 Bgbit=10", 1, 0); sweep<G<uint32_t, 2, 8>>("u32 l=2 Bgbit=8", 1, 0); }
    return vh::finish();
}
