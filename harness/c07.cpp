// C07: external product and CMUX, every engine, against exact gadget arithmetic and against the plaintext.
#include <tfhe++.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> constexpr const char *nm() { return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2"; }
template <class P> double unit() { return std::ldexp(1.0, -std::numeric_limits<typename P::T>::digits); }
// variance, in torus units, of one output coefficient of (gadget of m) x ciphertext
template <class P>
double epvar(double mnorm2, double alpha2)
{
    const double d2 = (double(P::Bg) * P::Bg + 2) / 12;
    const double lw = std::ldexp(1.0, -(int)(P::l * P::Bgbit));
    return (P::k + 1) * P::l * P::n * d2 * alpha2 + mnorm2 * (1 + P::k * P::n * vh::key_var<P>()) * lw * lw / 12;
}
template <class P> void randtrlwe(TRLWE<P> &c, Rng &r, int cls)
{
    for (auto &p : c) for (auto &x : p) x = cls == 1 ? vh::edge<typename P::T>(r) : (typename P::T)r.next();
    if (cls == 2) for (uint32_t k = 0; k < P::k; k++) c[k] = {};      // noiseless
    if (cls == 3) for (auto &p : c) for (uint32_t i = 0; i < P::n; i++) if (i % 50) p[i] = 0;
}
static const char *mc[] = {"0", "1", "-1", "X^i", "-X^i", "binary", "ternary", "sparse small"};
template <class P> double mkmsg(Polynomial<P> &m, int cls, Rng &r)
{
    m = {};
    using T = typename P::T;
    switch (cls) {
    case 0: break;
    case 1: m[0] = 1; break;
    case 2: m[0] = (T)-1; break;
    case 3: m[r.below(P::n)] = 1; break;
    case 4: m[r.below(P::n)] = (T)-1; break;
    case 5: for (auto &x : m) x = r.bit(); break;
    case 6: for (auto &x : m) x = (T)((int64_t)r.below(3) - 1); break;
    default: for (int i = 0; i < 5; i++) m[r.below(P::n)] = (T)((int64_t)r.below(9) - 4);
    }
    double s = 0;
    for (auto x : m) { double v = (double)(std::make_signed_t<T>)x; s += v * v; }
    return s;
}
// sum of digits times rows, exactly, with the digits the library takes
template <class P>
void gadget(TRLWE<P> &e, const TRLWE<P> &c, const TRGSW<P> &g, double *sumdig = nullptr)
{
    using T = typename P::T;
    for (auto &p : e) p = {};
    auto d = std::make_unique<DecomposedPolynomial<P>>();
    auto t = std::make_unique<Polynomial<P>>();
    double s = 0;
    for (uint32_t k = 0; k <= P::k; k++) {
        Decomposition<P>(*d, c[k]);
        for (uint32_t l = 0; l < P::l; l++) {
            for (auto x : (*d)[l]) s += std::fabs((double)(std::make_signed_t<T>)x);
            for (uint32_t m = 0; m <= P::k; m++) {
                vh::negacyclic<T>(t->data(), g[l + k * P::l][m].data(), (*d)[l].data(), P::n);
                for (uint32_t i = 0; i < P::n; i++) e[m][i] += (*t)[i];
            }
        }
    }
    if (sumdig) *sumdig = s;
}
template <class P>
double cmpu(const TRLWE<P> &a, const TRLWE<P> &b, double bound, const std::string &key, const char *what)
{
    double w = 0;
    for (uint32_t k = 0; k <= P::k; k++)
        for (uint32_t i = 0; i < P::n; i++) {
            double d = std::fabs((double)(std::make_signed_t<typename P::T>)(a[k][i] - b[k][i]));
            if (d > bound) { fail(key, "%s: component %u coefficient %u off by %.4g units from the exact gadget product (engine bound %.4g)", what, k, i, d, bound); return d / bound; }
            w = std::max(w, d);
        }
    return w / bound;
}
template <class P>
void level(Rng &r, const SecretKey &sk, int reps)
{
    using T = typename P::T;
    const std::string L = nm<P>();
    const auto &key = sk.key.get<P>();
    // engine error in units (see DESIGN): FFT mantissa; 64-bit prime reads negative 32-bit digits as words,
    // 64-bit words rounded to the field; small prime rounds rows to 1/P
    const double lim = std::ldexp(1.0, std::numeric_limits<T>::digits - 1);
    const double d2 = (double(P::Bg) * P::Bg + 2) / 12;
    const double fftb = 2 + std::ldexp(1.0, -53) * 3 * std::sqrt((P::k + 1.0) * P::l * d2) * P::n * lim / std::sqrt(3.0);
    Stat sf, sn, sr, sh, scm;
    double wf = 0, wn = 0, wr = 0, wh = 0;
    std::map<int, Stat> ratio;
    for (int it = 0; it < reps; it++) {
        const int cls = it % 8, cc = (it / 8 + it) % 4;
        auto m = std::make_unique<Polynomial<P>>();
        const double mn = mkmsg<P>(*m, cls, r);
        auto g = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(*m, key));
        auto c = std::make_unique<TRLWE<P>>();
        randtrlwe<P>(*c, r, cc);
        double sd = 0;
        auto e = std::make_unique<TRLWE<P>>(), o = std::make_unique<TRLWE<P>>();
        gadget<P>(*e, *c, *g, &sd);
        auto ph = vh::ref_trlwe_phase<P>(*c, key);
        std::array<T, P::n> want;
        vh::negacyclic<T>(want.data(), ph.data(), m->data(), P::n);
        // the dropped low bits of every component meet the product of selector and key
        double drop = mn;
        for (uint32_t j = 0; j < P::k; j++) {
            std::array<T, P::n> part, w;
            for (uint32_t i = 0; i < P::n; i++) part[i] = key[j * P::n + i];
            vh::negacyclic<T>(w.data(), part.data(), m->data(), P::n);
            for (auto x : w) { double v = (double)(std::make_signed_t<T>)x; drop += v * v; }
        }
        const double lw = std::ldexp(1.0, -(int)(P::l * P::Bgbit));
        const double sig = std::sqrt((P::k + 1) * P::l * P::n * d2 * P::α * P::α + drop * lw * lw / 12);
        auto noise = [&](const TRLWE<P> &x, Stat &st, double extra, const char *eng) {
            auto p = vh::ref_trlwe_phase<P>(x, key);
            double worst = 0;
            for (uint32_t i = 0; i < P::n; i++) {
                double d = vh::tdist<T>(p[i], want[i]) / (sig + extra);
                st.add(d);
                if (std::fabs(d) > std::fabs(worst)) worst = d;
            }
            // extreme words have extreme digits: up to sqrt(3) more
            if (std::fabs(worst) > (cc == 1 ? 14.0 : 8.0)) fail("noise:" + std::string(eng) + L, "selector %s, ciphertext class %d: phase off by %.2f predicted standard deviations", mc[cls], cc, worst);
        };
        auto gf = std::make_unique<TRGSWFFT<P>>(ApplyFFT2trgsw<P>(*g));
        trgswfftExternalProduct<P>(*o, *c, *gf);
        wf = std::max(wf, cmpu<P>(*o, *e, fftb, "fft:" + L, mc[cls]));
        noise(*o, sf, 0, "fft:");
        { // result over its own input
            *o = *c;
            trgswfftExternalProduct<P>(*o, *o, *gf);
            cmpu<P>(*o, *e, fftb, "fft-inplace:" + L, mc[cls]);
        }
        {
            auto gn = std::make_unique<TRGSWNTT<P>>(ApplyNTT2trgsw<P>(*g));
            trgswnttExternalProduct<P>(*o, *c, *gn);
            const double nb = sizeof(T) == 4 ? P::n * (P::k + 1) * P::l / 2.0 + 4 : 0.5 * sd + 4;
            wn = std::max(wn, cmpu<P>(*o, *e, nb, "ntt:" + L, mc[cls]));
            noise(*o, sn, nb * unit<P>() / 4, "ntt:");
            // encrypt-and-transform in one call agrees with the plaintext too
            if (it % 4 == 1) {
                auto g2 = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(*m, key));
                trgswnttExternalProduct<P>(*o, *c, *g2);
                noise(*o, sn, nb * unit<P>() / 4, "ntt-encrypt:");
                auto g3 = std::make_unique<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(*m, key));
                trgswfftExternalProduct<P>(*o, *c, *g3);
                noise(*o, sf, 0, "fft-encrypt:");
            }
        }
        if constexpr (std::is_same_v<P, lvl1param> && sizeof(T) == 4) {
            auto gr = std::make_unique<TRGSWRAINTT<P>>(ApplyRAINTT2trgsw<P>(*g));
            trgswrainttExternalProduct<P>(*o, *c, *gr);
            const double u = std::ldexp(1.0, std::numeric_limits<T>::digits) / raintt::P;
            const double rb = u * 0.2887 * std::sqrt((P::k + 1.0) * P::l * P::n * d2) * (cc == 1 ? 14 : 8) + 20;
            wr = std::max(wr, cmpu<P>(*o, *e, rb, "raintt:" + L, mc[cls]));
            noise(*o, sr, u * unit<P>() * 0.2887 * std::sqrt((P::k + 1.0) * P::l * P::n * d2 * (1 + P::k * P::n * vh::key_var<P>())), "raintt:");
            if (it % 4 == 2) {
                auto g2 = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(*m, key));
                trgswrainttExternalProduct<P>(*o, *c, *g2);
                noise(*o, sr, u * unit<P>() * 0.2887 * std::sqrt((P::k + 1.0) * P::l * P::n * d2 * (1 + P::k * P::n * vh::key_var<P>())), "raintt-encrypt:");
            }
        }
        // half gadget: polynomial in the clear times encrypted message
        {
            auto hg = std::make_unique<HalfTRGSW<P>>(halftrgswSymEncrypt<P>(*m, key));
            auto hf = std::make_unique<HalfTRGSWFFT<P>>(ApplyFFT2halftrgsw<P>(*hg));
            halftrgswfftExternalProduct<P>(*o, (*c)[0], *hf);
            auto d = std::make_unique<DecomposedPolynomial<P>>();
            Decomposition<P>(*d, (*c)[0]);
            for (auto &p : *e) p = {};
            auto t = std::make_unique<Polynomial<P>>();
            for (uint32_t l = 0; l < P::l; l++) for (uint32_t k = 0; k <= P::k; k++) { vh::negacyclic<T>(t->data(), (*hg)[l][k].data(), (*d)[l].data(), P::n); for (uint32_t i = 0; i < P::n; i++) (*e)[k][i] += (*t)[i]; }
            wh = std::max(wh, cmpu<P>(*o, *e, fftb, "half:" + L, mc[cls]));
            vh::negacyclic<T>(want.data(), (*c)[0].data(), m->data(), P::n);
            auto p = vh::ref_trlwe_phase<P>(*o, key);
            for (uint32_t i = 0; i < P::n; i++) sh.add(vh::tdist<T>(p[i], want[i]) / sig);
        }
        eval(8); distinct(vh::mix(vh::hash_bytes(*c), vh::hash_bytes(*m)));
        tally("external products " + L, 8);
    }
    vh::check_noise("fft:" + L, sf, 1, 0, 1.35, 14);
    vh::check_noise("ntt:" + L, sn, 1, 0, 1.35, 14);
    if (sr.n) vh::check_noise("raintt:" + L, sr, 1, 0, 1.35, 14);
    vh::check_noise("half:" + L, sh, 1, 0, 1.2, 14);
    metric("fft engine error/bound " + L, wf); metric("ntt engine error/bound " + L, wn); metric("raintt engine error/bound " + L, wr); metric("half gadget engine error/bound " + L, wh);
    // selection
    Polynomial<P> one = {}, zero = {};
    one[0] = 1;
    const double sig = std::sqrt(epvar<P>(1, P::α * P::α));
    for (int it = 0; it < reps / 2; it++) {
        const bool s = it & 1;
        auto sel = std::make_unique<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(s ? one : zero, key));
        auto c0 = std::make_unique<TRLWE<P>>(), c1 = std::make_unique<TRLWE<P>>(), o = std::make_unique<TRLWE<P>>();
        randtrlwe<P>(*c0, r, it % 3); randtrlwe<P>(*c1, r, (it / 3) % 3);
        if (it % 7 == 0) *c0 = *c1;
        CMUXFFT<P>(*o, *sel, *c1, *c0);
        auto a = vh::ref_trlwe_phase<P>(*o, key), b = vh::ref_trlwe_phase<P>(s ? *c1 : *c0, key);
        for (uint32_t i = 0; i < P::n; i++) {
            double d = vh::tdist<T>(a[i], b[i]) / sig;
            scm.add(d);
            if (std::fabs(d) > 14) { fail("cmux:" + L, "selector %d: coefficient %u off by %.1f standard deviations", s, i, d); break; }
        }
        eval(); tally("CMUX " + L); distinct(vh::mix(vh::hash_bytes(*c0), vh::hash_bytes(*c1)));
    }
    vh::check_noise("cmux:" + L, scm, 1, 0, 1.35, 14);
    // a gadget encryption of one without noise is the identity up to the digits dropped
    {
        auto onef = std::make_unique<TRGSWFFT<P>>(TRGSWFFTOneGen<P>());
        auto c = std::make_unique<TRLWE<P>>(), o = std::make_unique<TRLWE<P>>();
        for (int it = 0; it < 8; it++) {
            randtrlwe<P>(*c, r, it % 4);
            trgswfftExternalProduct<P>(*o, *c, *onef);
            cmpu<P>(*o, *c, std::ldexp(1.0, std::numeric_limits<T>::digits - (int)(P::l * P::Bgbit) - 1) + fftb, "one:" + L, "gadget one");
            eval();
        }
    }
}
// accumulator step of blind rotation: acc * X^(a s)
template <class bkP>
void rotate(Rng &r, const SecretKey &sk, int reps, const char *L0)
{
    using P = typename bkP::targetP;
    using T = typename P::T;
    const std::string L = L0;
    const auto &key = sk.key.get<P>();
    Polynomial<P> one = {}, zero = {};
    one[0] = 1;
    Stat st;
    // X^a - 1 doubles the digits dropped
    using D = typename bkP::domainP;
    constexpr int kmin = D::key_value_min, kmax = D::key_value_max;
    constexpr bool rai = std::is_same_v<P, lvl1param> && sizeof(T) == 4;
    const double sig0 = std::sqrt(epvar<P>(1, P::α * P::α)), d2 = (double(P::Bg) * P::Bg + 2) / 12;
#ifdef USE_TERNARY_CMUX
    const double rows = 2;   // every row meets a monomial minus one
#else
    const double rows = 1;
#endif
    const double sige = std::sqrt(rows * (kmax - kmin)) * sig0;
    const double sigr = sig0 + 0.2887 / raintt::P * std::sqrt((P::k + 1) * P::l * P::n * d2 * (1 + P::k * P::n * vh::key_var<P>()));
    for (int it = 0; it < reps; it++) {
        const int s = kmin + (it + 1) % (kmax - kmin + 1);
        auto g = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(s == 1 ? one : zero, key));
        auto el = std::make_unique<BootstrappingKeyElementFFT<bkP>>();
        for (int v = kmin, c = 0; v <= kmax; v++)
            if (v) { (*el)[c] = v == 1 ? ApplyFFT2trgsw<P>(*g) : trgswfftSymEncrypt<P>(s == v ? one : zero, key); c++; }
        auto gn = std::make_unique<TRGSWNTT<P>>(ApplyNTT2trgsw<P>(*g));
        auto acc = std::make_unique<TRLWE<P>>(), in = std::make_unique<TRLWE<P>>();
        randtrlwe<P>(*in, r, it % 3);
        uint32_t a;
        switch (it % 6) { case 0: a = 1; break; case 1: a = P::n; break; case 2: a = 2 * P::n - 1; break; case 3: a = P::n - 1 + 2 * (it & 4) / 4; break; default: a = r.below(2 * P::n); }
        if (it == reps - 1) a = 2 * P::n;
        if (it == reps - 2) a = 0;
        auto ph = vh::ref_trlwe_phase<P>(*in, key), want = ph;
        if (s) for (uint32_t j = 0; j < P::n; j++) { uint32_t src = (j + 4 * P::n - s * (int64_t)a) % (2 * P::n); want[j] = src < P::n ? ph[src] : (T)-ph[src - P::n]; }
        auto go = [&](int eng) {
            *acc = *in;
            if (eng == 0) CMUXFFTwithPolynomialMulByXaiMinusOne<bkP>(*acc, *el, a);
            if (eng == 1) CMUXNTTwithPolynomialMulByXaiMinusOne<P>(*acc, *gn, a);
            if constexpr (rai) if (eng == 2) { auto gr = std::make_unique<TRGSWRAINTT<P>>(ApplyRAINTT2trgsw<P>(*g)); CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>(*acc, *gr, a); }
            auto p = vh::ref_trlwe_phase<P>(*acc, key);
            for (uint32_t i = 0; i < P::n; i++) {
                double d = vh::tdist<T>(p[i], want[i]) / (eng == 0 ? sige : eng == 1 ? sig0 : sigr);
                st.add(d);
                if (std::fabs(d) > 14) { fail("rotate:" + L, "engine %d key bit %d exponent %u coefficient %u off by %.1f standard deviations", eng, s, a, i, d); break; }
            }
            eval(); tally("rotations " + L);
        };
        for (int e = 0; e < (s != 0 && s != 1 ? 1 : rai ? 3 : 2); e++) go(e);   // a single gadget ciphertext encrypts a bit
        distinct(vh::mix(vh::hash_bytes(*in), a));
    }
    vh::check_noise("rotate:" + L, st, 1, 0, 1.35, 14);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    Rng r(707);
    const int R = vh::thorough && !vh::light ? 20 : 1;
    for (int k = 0; k < (vh::thorough ? 3 : 1); k++) {
        auto sk = std::make_unique<SecretKey>();
        level<lvl1param>(r, *sk, 192 * R);
        level<lvl2param>(r, *sk, 96 * R);
        rotate<lvl01param>(r, *sk, 96 * R, "lvl01");
        rotate<lvl02param>(r, *sk, 48 * R, "lvl02");
    }
    note("selectors 0, 1, -1, +-X^i, binary, ternary and sparse small polynomials; ciphertexts random, extreme words, noiseless, sparse");
    return vh::finish();
}
