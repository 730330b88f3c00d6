// C01: decrypt(encrypt(m)) == m, and phase(encrypt(m)) - m is noise of the configured size.
#include <tfhe++.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using namespace vh;

template <class P> constexpr const char *nm();
template <> constexpr const char *nm<lvl0param>() { return "lvl0"; }
template <> constexpr const char *nm<lvlhalfparam>() { return "lvlhalf"; }
template <> constexpr const char *nm<lvl1param>() { return "lvl1"; }
template <> constexpr const char *nm<lvl2param>() { return "lvl2"; }
template <> constexpr const char *nm<lvl3param>() { return "lvl3"; }

// quantisation of the sampler adds up to 1 unit in the last place
template <class P> double lsb() { return std::ldexp(1.0, -std::numeric_limits<typename P::T>::digits); }

template <class P>
Key<P> mkkey(Rng &r, int cls, const SecretKey &sk)
{
    Key<P> k;
    if (cls == 0) return sk.key.get<P>();
    for (auto &x : k) {
        int v;
        if (cls == 1) v = P::key_value_max;
        else if (cls == 2) v = P::key_value_min;
        else if (cls == 3) v = 0;
        else v = P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1);
        x = static_cast<typename P::T>(v);
    }
    return k;
}
static const char *kcls[] = {"generated", "all-max", "all-min", "zero", "random"};

template <class P>
void tlwe(Rng &r, const SecretKey &sk)
{
    using T = typename P::T;
    const std::string L = nm<P>();
    const int K = thorough ? 9 : 5;
    Stat st, sta;
    const double alphas[] = {std::ldexp(1.0, -10), std::ldexp(1.0, -13), 0.0};
    for (int kc = 0; kc < K; kc++) {
        const Key<P> key = mkkey<P>(r, kc % 5, sk);
        const int reps = (P::n > 4000 ? 30 : 120) * (thorough ? 10 : 1);
        for (int it = 0; it < reps; it++) {
            // raw torus messages
            const T m = edge<T>(r);
            TLWE<P> c = tlweSymEncrypt<P>(m, key);
            const T ph = ref_phase<P>(c, key);
            st.add(tdist<T>(ph, m));
            if (tlweSymPhase<P>(c, key) != ph)
                fail("tlwe-phase:" + L, "library phase differs from exact inner product, key %s", kcls[kc % 5]);
            const double a = alphas[it % 3];
            c = tlweSymEncrypt<P>(m, a, key);
            const double e = tdist<T>(ref_phase<P>(c, key), m);
            if (a == 0) { if (e != 0) fail("tlwe-zero-noise:" + L, "noise %g with zero deviation", e); }
            else if (std::fabs(e) > 9 * a + 2 * lsb<P>()) fail("tlwe-alpha:" + L, "noise %g for deviation %g message %llx", e, a, (unsigned long long)m);
            if (a > 0) sta.add(e / a);
            // booleans
            const bool b = it & 1;
            c = tlweSymEncrypt<P>(b ? T(P::μ) : T(-P::μ), key);
            if (tlweSymDecrypt<P>(c, key) != b) fail("tlwe-bool:" + L, "bit %d decrypts to %d (key %s)", b, !b, kcls[kc % 5]);
            eval(3);
            distinct(hash_str(L + "t" + std::to_string(kc % 5) + "/" + std::to_string((uint64_t)m)));
        }
        // integers: whole message space or its ends
        constexpr uint64_t pm = P::plain_modulus;
        std::vector<uint64_t> ms;
        if (pm <= 64) for (uint64_t m = 0; m < pm; m++) ms.push_back(m);
        else {
            for (uint64_t m : {uint64_t(0), uint64_t(1), uint64_t(2), pm / 2 - 1, pm / 2, pm / 2 + 1, pm - 1, pm - 2}) ms.push_back(m);
            for (int i = 0; i < 12; i++) ms.push_back(r.below(pm));
        }
        for (uint64_t m : ms)
            for (int rep = 0; rep < (pm <= 64 ? 6 : 1); rep++) {
                const T want = static_cast<T>(m >= pm / 2 ? T(m) - T(pm) : T(m));
                TLWE<P> c = rep & 1 ? tlweSymIntEncrypt<P>(T(m), P::α, key) : tlweSymIntEncrypt<P>(T(m), key);
                const T got = tlweSymIntDecrypt<P>(c, key);
                if (got != want) fail("tlwe-int:" + L, "message %llu decrypts to %lld, expected %lld", (unsigned long long)m, (long long)(std::make_signed_t<T>)got, (long long)(std::make_signed_t<T>)want);
                eval();
                distinct(hash_str(L + "ti" + std::to_string(kc % 5) + "/" + std::to_string(m)));
            }
        // batches of bits
        if constexpr (!std::is_same_v<P, lvl3param>)
            for (size_t len : {size_t(0), size_t(1), size_t(2), size_t(17), size_t(130), size_t(5003)}) {
                if (len > 1000 && (P::n > 1024 || kc)) continue;
                std::vector<uint8_t> p(len);
                for (auto &x : p) x = r.below(4) == 0 ? (uint8_t)r.below(256) : (uint8_t)r.bit();
                auto cs = bootsSymEncrypt<P>(p, key);
                auto q = bootsSymDecrypt<P>(cs, key);
                bool ok = cs.size() == len && q.size() == len;
                for (size_t i = 0; ok && i < len; i++) {
                    ok = (q[i] != 0) == (p[i] != 0);
                    const double e = tdist<T>(ref_phase<P>(cs[i], key), p[i] ? T(P::μ) : T(-P::μ));
                    st.add(e);
                }
                if (!ok) fail("tlwe-batch:" + L, "batch of %zu bits does not round-trip", len);
                eval(len);
                distinct(hash_str(L + "tb" + std::to_string(len) + std::to_string(kc % 5)));
            }
        // decryption threshold on noiseless ciphertexts
        for (int i = 0; i < 200; i++) {
            TLWE<P> c = tlweSymEncrypt<P>(T(0), 0.0, key);
            T m = edge<T>(r);
            if (i == 0) m = 1;
            if (i == 1) m = T(-1);
            if (m == 0) m = 1;
            c[P::k * P::n] += m;
            const bool want = static_cast<std::make_signed_t<T>>(m) > 0;
            if (tlweSymDecrypt<P>(c, key) != want) fail("tlwe-threshold:" + L, "phase %llx decoded as %d", (unsigned long long)m, !want);
            eval();
            if (P::n > 4000 && i > 20) break;
        }
    }
    check_noise("tlwe:" + L, st, P::α, 0, 1.2, 8.0, 1.5 * lsb<P>());
    check_noise("tlwe-explicit:" + L, sta, 1.0, 0, 1.35, 8.0, 0);
    note("%s: %llu fresh scalar encryptions, noise rms/alpha %.3f max/alpha %.3f", nm<P>(), (unsigned long long)st.n, st.rms() / P::α, st.mx / P::α);
}

// decoding on the grid of an explicit plain modulus: every phase within half a step decodes to its message
template <class P, unsigned pm>
void decode(Rng &r, const SecretKey &sk)
{
    using T = typename P::T;
    using S = std::make_signed_t<T>;
    constexpr int w = std::numeric_limits<T>::digits;
    const Key<P> key = sk.key.get<P>();
    const long double step = std::ldexp((long double)1, w) / pm;
    const int reps = P::n > 4000 ? 40 : 400;
    for (int i = 0; i < reps * (thorough ? 10 : 1); i++) {
        const uint64_t m = i < 4 ? (i * (uint64_t)(pm - 1)) / 3 : i & 1 ? r.below(pm) : pm - 1 - r.below(std::min<uint64_t>(pm, 1000));
        // offsets up to 45% of a step
        const long double off = (i % 3 == 0 ? 0 : (r.unit() - 0.5) * 0.9) * step;
        const T ph = T((uint64_t)(__int128)std::floor(m * step + off + 0.5L));
        TLWE<P> c = tlweSymEncrypt<P>(T(0), 0.0, key);
        c[P::k * P::n] += ph;
        const T got = tlweSymIntDecrypt<P, pm>(c, key);
        const T a = T(m), b = T(m) - T(pm);
        const bool ok = pm % 2 ? got == a || got == b : got == (m >= pm / 2 ? b : a);
        if (!ok) fail("tlwe-decode:" + std::string(nm<P>()), "message %llu of %u (phase off the grid by %.3Lf steps) decodes to %lld", (unsigned long long)m, pm, off / step, (long long)(S)got);
        eval();
        distinct(hash_str(std::string(nm<P>()) + "dec" + std::to_string(pm) + "/" + std::to_string(m)));
    }
}
template <class P>
void decodes(Rng &r, const SecretKey &sk)
{
    decode<P, 2>(r, sk); decode<P, 3>(r, sk); decode<P, 5>(r, sk); decode<P, 8>(r, sk); decode<P, 10>(r, sk); decode<P, 255>(r, sk); decode<P, 256>(r, sk);
    if constexpr (sizeof(typename P::T) >= 4) {
        decode<P, 10007>(r, sk); decode<P, 65536>(r, sk); decode<P, 1000000>(r, sk); decode<P, (1u << 25)>(r, sk); decode<P, (1u << 27)>(r, sk);
    }
    if constexpr (sizeof(typename P::T) == 8) {
        decode<P, 1000000007>(r, sk); decode<P, (1u << 30)>(r, sk); decode<P, (1u << 31)>(r, sk);
    }
}

template <class P>
Polynomial<P> msgpoly(Rng &r, int cls)
{
    Polynomial<P> m;
    for (int i = 0; i < (int)P::n; i++)
        m[i] = cls == 0 ? edge<typename P::T>(r) : cls == 1 ? typename P::T(-1) : cls == 2 ? typename P::T(typename P::T(1) << (std::numeric_limits<typename P::T>::digits - 1)) : (typename P::T)r.next();
    if (cls == 3) { m.fill(0); m[r.below(P::n)] = edge<typename P::T>(r); }
    return m;
}

template <class P>
struct PerPos {
    std::vector<double> v = std::vector<double>(P::n, 0);
    uint64_t n = 0;
    void add(int i, double e) { v[i] += e * e; }
};

template <class P>
void trlwe(Rng &r, const SecretKey &sk)
{
    using T = typename P::T;
    const std::string L = nm<P>();
    Stat st, sta;
    PerPos<P> pp;
    const int reps = (thorough ? 60 : 8);
    for (int kc = 0; kc < 5; kc++) {
        const Key<P> key = mkkey<P>(r, kc, sk);
        for (int it = 0; it < reps; it++) {
            Polynomial<P> m = msgpoly<P>(r, it % 5);
            TRLWE<P> c = trlweSymEncrypt<P>(m, key);
            auto ph = ref_trlwe_phase<P>(c, key);
            for (int i = 0; i < (int)P::n; i++) { double e = tdist<T>(ph[i], m[i]); st.add(e); pp.add(i, e / P::α); }
            pp.n++;
            Polynomial<P> lp = trlwePhase<P>(c, key);
            for (int i = 0; i < (int)P::n; i++)
                if (std::fabs(tdist<T>(lp[i], ph[i])) > P::α * 0.25) { fail("trlwe-phase:" + L, "library phase off by %g at coefficient %d (key %s)", tdist<T>(lp[i], ph[i]), i, kcls[kc]); break; }
            const double a = it & 1 ? std::ldexp(1.0, -14) : std::ldexp(1.0, -20);
            c = trlweSymEncrypt<P>(m, a, key);
            ph = ref_trlwe_phase<P>(c, key);
            for (int i = 0; i < (int)P::n; i++) sta.add(tdist<T>(ph[i], m[i]) / a);
            // zero
            c = it & 1 ? trlweSymEncryptZero<P>(key) : trlweSymEncryptZero<P>(P::α, key);
            ph = ref_trlwe_phase<P>(c, key);
            for (int i = 0; i < (int)P::n; i++) st.add(tdist<T>(ph[i], T(0)));
            // booleans
            Polynomial<P> mb;
            for (int i = 0; i < (int)P::n; i++) mb[i] = r.bit() ? T(P::μ) : T(-P::μ);
            c = trlweSymEncrypt<P>(mb, key);
            auto d = trlweSymDecrypt<P>(c, key);
            for (int i = 0; i < (int)P::n; i++)
                if (d[i] != (mb[i] == T(P::μ))) { fail("trlwe-bool:" + L, "coefficient %d decrypts wrongly (key %s)", i, kcls[kc]); break; }
            // integers
            Polynomial<P> mi;
            for (int i = 0; i < (int)P::n; i++) mi[i] = it == 0 ? T(i % P::plain_modulus) : it == 1 ? T(P::plain_modulus - 1) : it == 2 ? T(0) : T(r.below(P::plain_modulus));
            c = it & 1 ? trlweSymIntEncrypt<P>(mi, P::α, key) : trlweSymIntEncrypt<P>(mi, key);
            Polynomial<P> di = trlweSymIntDecrypt<P>(c, key);
            for (int i = 0; i < (int)P::n; i++)
                if (di[i] != mi[i]) { fail("trlwe-int:" + L, "coefficient %d: %llu decrypts to %llu (key %s)", i, (unsigned long long)mi[i], (unsigned long long)di[i], kcls[kc]); break; }
            eval(5);
            distinct(hash_str(L + "r" + std::to_string(kc)) ^ hash_bytes(m));
            distinct(hash_str(L + "rb" + std::to_string(kc)) ^ hash_bytes(mb));
            distinct(hash_str(L + "ri" + std::to_string(kc)) ^ hash_bytes(mi));
        }
    }
    check_noise("trlwe:" + L, st, P::α, 0, 1.1, 8.0, 2 * lsb<P>());
    check_noise("trlwe-explicit:" + L, sta, 1.0, 0, 1.1, 8.0, 0);
    for (int i = 0; i < (int)P::n; i++) {
        const double v = pp.v[i] / pp.n;
        if (v > 3.5 || (v < 0.15)) fail("trlwe-coef-noise:" + L, "coefficient %d has noise variance %.3f of the configured one over %llu encryptions", i, v, (unsigned long long)pp.n);
    }
    note("%s: %llu coefficients of fresh polynomial encryptions, noise rms/alpha %.3f max/alpha %.3f", nm<P>(), (unsigned long long)st.n, st.rms() / P::α, st.mx / P::α);
}

// rows of a gadget encryption: row i of block k adds m*2^(w-(i+1)Bgbit) to component k
template <class P, class GSW>
void rows(const std::string &what, const GSW &g, const Polynomial<P> &m, const Key<P> &key, Stat &st, bool half)
{
    using T = typename P::T;
    constexpr int w = std::numeric_limits<T>::digits;
    Polynomial<P> t;
    for (int k = half ? (int)P::k : 0; k <= (int)P::k; k++) {
        Polynomial<P> base = m;
        if (k < (int)P::k) {
            negacyclic<T>(t.data(), m.data(), &key[k * P::n], P::n);
            for (int j = 0; j < (int)P::n; j++) base[j] = -t[j];
        }
        for (int i = 0; i < (int)P::l; i++) {
            auto ph = ref_trlwe_phase<P>(g[half ? i : i + k * P::l], key);
            for (int j = 0; j < (int)P::n; j++) {
                const T want = base[j] * T(T(1) << (w - (i + 1) * P::Bgbit));
                const double e = tdist<T>(ph[j], want);
                st.add(e);
                if (std::fabs(e) > 9 * P::α + 4 * lsb<P>()) {
                    fail("gadget:" + what, "block %d row %d coefficient %d off by %g (alpha %g)", k, i, j, e, P::α);
                    break;
                }
            }
            eval();
        }
    }
}

template <class P>
void gadget(Rng &r, const SecretKey &sk)
{
    using T = typename P::T;
    const std::string L = nm<P>();
    Stat st;
    for (int kc = 0; kc < 5; kc++) {
        const Key<P> key = mkkey<P>(r, kc, sk);
        for (int it = 0; it < (thorough ? 12 : 3); it++) {
            Polynomial<P> m = {};
            if (it == 0) m[0] = kc & 1;
            else if (it == 1) m[r.below(P::n)] = T(-1);
            else for (auto &x : m) x = T(int64_t(r.below(3)) - 1);
            if (kc == 0 && it == 0) m[0] = 1;
            TRGSW<P> g = it & 1 ? trgswSymEncrypt<P>(m, P::α, key) : trgswSymEncrypt<P>(m, key);
            rows<P>(L + "/plain", g, m, key, st, false);
            HalfTRGSW<P> h = it & 1 ? halftrgswSymEncrypt<P>(m, P::α, key) : halftrgswSymEncrypt<P>(m, key);
            rows<P>(L + "/half", h, m, key, st, true);
            {
                auto f = std::make_unique<TRGSWFFT<P>>(it & 1 ? trgswfftSymEncrypt<P>(m, P::α, key) : trgswfftSymEncrypt<P>(m, key));
                for (int i = 0; i < (int)((P::k + 1) * P::l); i++)
                    for (int k = 0; k <= (int)P::k; k++) { alignas(64) Polynomial<P> t; TwistFFT<P>(t, (*f)[i][k]); g[i][k] = t; }
                rows<P>(L + "/fft", g, m, key, st, false);
                auto hf = std::make_unique<HalfTRGSWFFT<P>>(it & 1 ? halftrgswfftSymEncrypt<P>(m, P::α, key) : halftrgswfftSymEncrypt<P>(m, key));
                for (int i = 0; i < (int)P::l; i++)
                    for (int k = 0; k <= (int)P::k; k++) { alignas(64) Polynomial<P> t; TwistFFT<P>(t, (*hf)[i][k]); h[i][k] = t; }
                rows<P>(L + "/halffft", h, m, key, st, true);
            }
            {
                auto f = std::make_unique<TRGSWNTT<P>>(it & 1 ? trgswnttSymEncrypt<P>(m, P::α, key) : trgswnttSymEncrypt<P>(m, key));
                for (int i = 0; i < (int)((P::k + 1) * P::l); i++)
                    for (int k = 0; k <= (int)P::k; k++) TwistNTT<P>(g[i][k], (*f)[i][k]);
                rows<P>(L + "/ntt", g, m, key, st, false);
            }
            if constexpr (std::is_same_v<P, lvl1param>) {
                // small-prime domain: undo the Montgomery factors of the multiplicand with a unit multiplicand
                auto f = std::make_unique<TRGSWRAINTT<P>>(it & 1 ? trgswrainttSymEncrypt<P>(m, P::α, key) : trgswrainttSymEncrypt<P>(m, key));
                Polynomial<P> one = {};
                one[0] = 1;
                PolynomialRAINTT<P> o;
                raintt::TwistINTT<T, P::nbit, false>(o, one, (*raintttable)[1], (*raintttwist)[1]);
                for (int i = 0; i < (int)((P::k + 1) * P::l); i++)
                    for (int k = 0; k <= (int)P::k; k++) {
                        PolynomialRAINTT<P> x;
                        for (int j = 0; j < (int)P::n; j++) x[j] = raintt::MulSREDC(o[j], (*f)[i][k][j]);
                        raintt::TwistNTT<T, P::nbit, true>(g[i][k], x, (*raintttable)[0], (*raintttwist)[0]);
                    }
                // modulus switching to a 31 bit prime and back costs a few 2^-31 per mask coefficient
                Stat rs;
                constexpr int w = 32;
                for (int k = 0; k <= (int)P::k; k++)
                    for (int i = 0; i < (int)P::l; i++) {
                        auto ph = ref_trlwe_phase<P>(g[i + k * P::l], key);
                        Polynomial<P> base = m, t;
                        if (k < (int)P::k) { negacyclic<T>(t.data(), m.data(), &key[k * P::n], P::n); for (int j = 0; j < (int)P::n; j++) base[j] = -t[j]; }
                        for (int j = 0; j < (int)P::n; j++) rs.add(tdist<T>(ph[j], base[j] * T(T(1) << (w - (i + 1) * P::Bgbit))));
                        eval();
                    }
                check_noise(L + "/raintt/" + kcls[kc], rs, std::ldexp(1.0, -25), 0, 1.6, 12, std::ldexp(kc == 1 || kc == 2 ? 2.0 : 1.0, -24));
            }
            distinct(hash_str(L + "g" + std::to_string(kc)) ^ hash_bytes(m));
        }
    }
    check_noise("gadget:" + L, st, P::α, 0, 1.1, 9.0, 4 * lsb<P>());
}

int main(int argc, char **argv)
{
    init(argc, argv);
    Rng r(101);
    auto sk = std::make_unique<SecretKey>();
    tlwe<lvl0param>(r, *sk);
    tlwe<lvlhalfparam>(r, *sk);
    tlwe<lvl1param>(r, *sk);
    tlwe<lvl2param>(r, *sk);
    tlwe<lvl3param>(r, *sk);
    decodes<lvl0param>(r, *sk);
    decodes<lvlhalfparam>(r, *sk);
    decodes<lvl1param>(r, *sk);
    decodes<lvl2param>(r, *sk);
    decodes<lvl3param>(r, *sk);
    trlwe<lvl1param>(r, *sk);
    trlwe<lvl2param>(r, *sk);
    gadget<lvl1param>(r, *sk);
    gadget<lvl2param>(r, *sk);
    // key-pair front ends
    using T1 = lvl1param::T;
    for (size_t len : {size_t(0), size_t(1), size_t(40)}) {
        std::vector<uint8_t> p(len);
        for (auto &x : p) x = r.bit();
        auto c = bootsSymEncrypt(p, *sk);
        auto d = bootsSymDecrypt(c, *sk);
        if (d != p) fail("boots:default", "batch of %zu bits does not round-trip", len);
        auto c0 = bootsSymEncrypt<lvl0param>(p, *sk);
        if (bootsSymDecrypt<lvl0param>(c0, *sk) != p) fail("boots:lvl0", "batch of %zu bits does not round-trip", len);
        auto c2 = bootsSymEncrypt<lvl2param>(p, *sk);
        if (bootsSymDecrypt<lvl2param>(c2, *sk) != p) fail("boots:lvl2", "batch of %zu bits does not round-trip", len);
        auto cm = bootsSymEncrypt<lvl1param, (T1(1) << (std::numeric_limits<T1>::digits - 5))>(p, *sk);
        constexpr T1 mu1 = T1(1) << (std::numeric_limits<T1>::digits - 5);
        for (size_t i = 0; i < len; i++)
            if (std::fabs(tdist<T1>(ref_phase<lvl1param>(cm[i], sk->key.lvl1), p[i] ? mu1 : T1(-mu1))) > 9 * lvl1param::α)
                fail("boots:mu", "explicit message size not respected");
        eval(4);
    }
    return finish();
}
