// C17: every element of every evaluation key, and the container holding them.
#include "model.hpp"
#include <mutex>
#include <unordered_set>
#include <omp.h>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

template <class P> const char *pn()
{
    if (std::is_same_v<P, lvl01param>) return "lvl01";
    if (std::is_same_v<P, lvl02param>) return "lvl02";
    if (std::is_same_v<P, lvlh1param>) return "lvlh1";
    if (std::is_same_v<P, lvlh2param>) return "lvlh2";
    if (std::is_same_v<P, lvl10param>) return "lvl10";
    if (std::is_same_v<P, lvl1hparam>) return "lvl1h";
    if (std::is_same_v<P, lvl11param>) return "lvl11";
    if (std::is_same_v<P, lvl20param>) return "lvl20";
    if (std::is_same_v<P, lvl2hparam>) return "lvl2h";
    if (std::is_same_v<P, lvl21param>) return "lvl21";
    if (std::is_same_v<P, lvl22param>) return "lvl22";
    if (std::is_same_v<P, lvl31param>) return "lvl31";
    if (std::is_same_v<P, lvl1param>) return "lvl1";
    if (std::is_same_v<P, lvl2param>) return "lvl2";
    return "?";
}
template <class Q> int sgn(typename Q::T x) { return (int)(std::make_signed_t<typename Q::T>)x; }
// what is known about one generated key
template <class Q>
struct Pop {
    using T = typename Q::T;
    std::string L;
    double alpha, slack;  // slack: transform error per coefficient
    std::mutex m;
    Stat all;
    std::map<uint64_t, Stat> group;  // by gadget position
    std::unordered_set<uint64_t> masks;
    uint64_t elements = 0;
    Pop(std::string l, double s = 0) : L(l), alpha(Q::α), slack(s) {}
    double sig() const { return std::sqrt(alpha * alpha + slack * slack + std::ldexp(1.0, -2 * std::numeric_limits<T>::digits) / 12); }
    template <class It> void mask(It b)
    {
        uint64_t h = 3;
        for (int i = 0; i < 16; i++) h = vh::mix(h, b[i]);
        if (!masks.insert(h).second) fail("mask:" + L, "two elements of the key share their mask");
        distinct(h);
    }
    void one(const TLWE<Q> &c, const Key<Q> &z, T want, uint64_t g, const std::function<std::string()> &at)
    {
        const double d = vh::tdist<T>(vh::ref_phase<Q>(c, z), want);
        std::lock_guard<std::mutex> l(m);
        all.add(d); group[g].add(d); elements++;
        mask(c.begin());
        if (std::fabs(d) > 8 * sig() + std::ldexp(1.0, -std::numeric_limits<T>::digits)) fail("element:" + L, "%s encrypts something else: %.3g away (%.1f standard deviations)", at().c_str(), d, d / sig());
    }
    void ring(const TRLWE<Q> &c, const Key<Q> &z, const Polynomial<Q> &want, uint64_t g, const std::function<std::string()> &at, bool exactnoise = true)
    {
        const auto ph = vh::ref_trlwe_phase<Q>(c, z);
        Stat s;
        uint32_t bad = 0;
        for (uint32_t i = 0; i < Q::n; i++) {
            const double d = vh::tdist<T>(ph[i], want[i]);
            if (std::fabs(d) > s.mx) bad = i;
            s.add(d);
        }
        std::lock_guard<std::mutex> l(m);
        all.add(s); group[g].add(s); elements++;
        mask(c[0].begin());
        if (s.mx > 8 * sig() + 4 * std::ldexp(1.0, -std::numeric_limits<T>::digits)) fail("element:" + L, "%s encrypts something else: coefficient %u is %.3g away (%.1f standard deviations)", at().c_str(), bad, s.mx, s.mx / sig());
        else if (exactnoise && (s.rms() < (1 - 6.5 / std::sqrt(2.0 * Q::n)) * alpha || s.rms() > (1 + 6.5 / std::sqrt(2.0 * Q::n)) * sig())) fail("noise-row:" + L, "%s has noise of %.3f times the configured deviation", at().c_str(), s.rms() / alpha);
    }
    void done(uint64_t expected, bool exactnoise = true)
    {
        if (elements != expected) fail("harness:" + L, "%llu elements seen", (unsigned long long)elements);
        const double tol = 6.5 / std::sqrt(2.0 * all.n);
        const double lsb = std::ldexp(1.0, -std::numeric_limits<T>::digits);
        if (exactnoise) {
            if (all.rms() < (1 - tol) * alpha - lsb / 2 || all.rms() > (1 + tol) * sig()) fail("noise:" + L, "noise deviation %.4f times the configured one over %llu values", all.rms() / alpha, (unsigned long long)all.n);
            if (!slack && std::fabs(all.mean()) > 6.5 * sig() / std::sqrt((double)all.n) + lsb) fail("noise-mean:" + L, "noise has mean %.3g", all.mean());
            for (auto &[g, s] : group) {
                const double t = 6.5 / std::sqrt(2.0 * s.n);
                if (s.n >= 300 && (s.rms() < (1 - t) * alpha - lsb / 2 || s.rms() > (1 + t) * sig())) fail("noise-position:" + L, "elements of position %llu have noise of %.3f times the configured deviation", (unsigned long long)g, s.rms() / alpha);
            }
        } else if (all.rms() > 2.5 * sig()) fail("noise:" + L, "noise deviation %.4f times the configured one", all.rms() / alpha);
        metric(L + " noise/configured", all.rms() / alpha);
        tally("elements " + L, elements);
        eval(elements);
        note("%s: %llu elements, noise %.4f of configured", L.c_str(), (unsigned long long)elements, all.rms() / alpha);
    }
};
// the error of one transform and its inverse per coefficient, carried through the decryption
template <class Q> double fftslack(const Key<Q> &z)
{
    double q = 1;
    for (auto x : z) q += double(sgn<Q>(x)) * sgn<Q>(x);
    return std::exp2(sizeof(typename Q::T) == 8 ? -52.6 : -32.2) * std::sqrt(q);
}

// rows of a gadget ciphertext of an integer
template <class Q>
void gadget(Pop<Q> &p, const TRGSW<Q> &g, const Key<Q> &z, int v, const std::function<std::string()> &at, bool exact = true)
{
    for (uint32_t c = 0; c <= Q::k; c++)
        for (uint32_t i = 0; i < Q::l; i++) {
            Polynomial<Q> want = {};
            const typename Q::T h = (typename Q::T)((typename Q::T)1 << (std::numeric_limits<typename Q::T>::digits - (i + 1) * Q::Bgbit));
            if (c == Q::k) want[0] = (typename Q::T)(v * h);
            else for (uint32_t j = 0; j < Q::n; j++) want[j] = (typename Q::T)(-(v * z[c * Q::n + j] * h));
            p.ring(g[i + c * Q::l], z, want, c * Q::l + i, [&] { return at() + " row " + std::to_string(i + c * Q::l); }, exact);
        }
}
template <class Q> void back(TRGSW<Q> &o, const TRGSWFFT<Q> &f)
{
    for (size_t r = 0; r < f.size(); r++) for (uint32_t k = 0; k <= Q::k; k++) TwistFFT<Q>(o[r][k], f[r][k]);
}
template <class Q> void back(TRGSW<Q> &o, const TRGSWNTT<Q> &f)
{
    for (size_t r = 0; r < f.size(); r++) for (uint32_t k = 0; k <= Q::k; k++) { auto t = f[r][k]; TwistNTT<Q>(o[r][k], t); }
}
template <class Q> void back(TRGSW<Q> &o, const TRGSWRAINTT<Q> &f)
{
    Polynomial<Q> one = {};
    one[0] = 1;
    PolynomialRAINTT<Q> u;
    raintt::TwistINTT<typename Q::T, Q::nbit, false>(u, one, (*raintttable)[1], (*raintttwist)[1]);
    for (size_t r = 0; r < f.size(); r++)
        for (uint32_t k = 0; k <= Q::k; k++) {
            PolynomialRAINTT<Q> x;
            for (uint32_t j = 0; j < Q::n; j++) x[j] = raintt::MulSREDC(u[j], f[r][k][j]);
            raintt::TwistNTT<typename Q::T, Q::nbit, true>(o[r][k], x, (*raintttable)[0], (*raintttwist)[0]);
        }
}
template <class Q> void back(TRGSW<Q> &o, const TRGSW<Q> &f) { o = f; }

// kind 0 plain, 1 FFT, 2 NTT, 3 small-prime NTT
template <class P, class B>
void bk(const B &b, int kind, const std::string &how, const Key<typename P::domainP> &d, const Key<typename P::targetP> &z)
{
    using Q = typename P::targetP;
    static const char *kinds[] = {"bk", "bkfft", "bkntt", "bkraintt"};
    Pop<Q> p(std::string(kinds[kind]) + "-" + pn<P>() + how, kind == 1 ? fftslack<Q>(z) : kind == 3 ? std::ldexp(1.0, -24) : 0);
    const size_t n = P::domainP::k * P::domainP::n;
    vh::parallel(8, 8, [&](size_t t) {
        auto g = std::make_unique<TRGSW<Q>>();
        for (size_t i = t; i < n; i += 8) {
            if constexpr (requires { back<Q>(*g, b[i]); }) {  // one gadget ciphertext of the key value
                back<Q>(*g, b[i]);
                gadget<Q>(p, *g, z, sgn<typename P::domainP>(d[i]), [&] { return "index " + std::to_string(i); }, kind != 3);
            } else {  // one per non-zero key value
                int c = 0;
                for (int v = P::domainP::key_value_min; v <= P::domainP::key_value_max; v++) {
                    if (!v) continue;
                    back<Q>(*g, b[i][c]);
                    gadget<Q>(p, *g, z, sgn<typename P::domainP>(d[i]) == v, [&] { return "index " + std::to_string(i); }, kind != 3);
                    c++;
                }
            }
        }
    });
    p.done(n * (std::is_same_v<std::remove_cvref_t<decltype(b[0])>, TRGSWNTT<Q>> || kind == 3 ? 1 : (uint64_t)P::domainP::key_value_diff) * (Q::k + 1) * Q::l, kind != 3);
}
template <class P>
void iksk(const KeySwitchingKey<P> &k, const std::string &how, const Key<typename P::domainP> &d, const Key<typename P::targetP> &z)
{
    using Q = typename P::targetP;
    Pop<Q> p(std::string("iksk-") + pn<P>() + how);
    vh::parallel(8, 8, [&](size_t t) {
        for (size_t i = t; i < k.size(); i += 8)
            for (size_t j = 0; j < P::t; j++)
                for (size_t u = 0; u < k[i][j].size(); u++)
                    p.one(k[i][j][u], z, (typename Q::T)((uint64_t)((int64_t)sgn<typename P::domainP>(d[i]) * (int64_t)(u + 1)) << (std::numeric_limits<typename Q::T>::digits - (j + 1) * P::basebit)), j * 64 + u,
                          [&] { return "index " + std::to_string(i) + " digit " + std::to_string(j) + " value " + std::to_string(u + 1); });
    });
    p.done(k.size() * P::t * k[0][0].size());
}
// K: index -> source element
template <class P, class K, class S>
void ringksk(const K &k, const std::string &L, const S &src, const Polynomial<typename P::targetP> &f, const Key<typename P::targetP> &z)
{
    using Q = typename P::targetP;
    using T = typename Q::T;
    Pop<Q> p(L);
    vh::parallel(8, 8, [&](size_t t) {
        Polynomial<Q> want;
        for (size_t i = t; i < k.size(); i += 8)
            for (size_t j = 0; j < P::t; j++)
                for (size_t u = 0; u < k[i][j].size(); u++) {
                    const T h = (T)((uint64_t)((int64_t)src(i) * (int64_t)(u + 1)) << (std::numeric_limits<T>::digits - (j + 1) * P::basebit));
                    for (uint32_t x = 0; x < Q::n; x++) want[x] = (T)(f[x] * h);
                    p.ring(k[i][j][u], z, want, j * 64 + u, [&] { return "index " + std::to_string(i) + " digit " + std::to_string(j) + " value " + std::to_string(u + 1); });
                }
    });
    p.done(k.size() * P::t * k[0][0].size());
}
template <class Q>
void relin(const std::string &how, const Key<Q> &z)
{
    Polynomial<Q> a, s2;
    for (uint32_t i = 0; i < Q::n; i++) a[i] = z[i];
    vh::negacyclic<typename Q::T>(s2.data(), a.data(), a.data(), Q::n);
    for (int kind = 0; kind < 2; kind++) {
        Pop<Q> p(std::string(kind ? "relinfft-" : "relin-") + pn<Q>() + how, kind ? fftslack<Q>(z) : 0);
        auto r = std::make_unique<relinKey<Q>>();
        if (kind) {
            auto f = std::make_unique<relinKeyFFT<Q>>(relinKeyFFTgen<Q>(z));
            for (uint32_t i = 0; i < Q::l; i++) for (uint32_t k = 0; k <= Q::k; k++) TwistFFT<Q>((*r)[i][k], (*f)[i][k]);
        } else *r = relinKeygen<Q>(z);
        for (uint32_t i = 0; i < Q::l; i++) {
            Polynomial<Q> want;
            for (uint32_t j = 0; j < Q::n; j++) want[j] = s2[j] << (std::numeric_limits<typename Q::T>::digits - (i + 1) * Q::Bgbit);
            p.ring((*r)[i], z, want, i, [&] { return "row " + std::to_string(i); });
        }
        p.done(Q::l);
    }
}
template <class Q>
void halfgadget(Pop<Q> &p, const HalfTRGSWFFT<Q> &f, const Key<Q> &z, const Polynomial<Q> &v, const std::string &at)
{
    for (uint32_t i = 0; i < Q::l; i++) {
        TRLWE<Q> c; Polynomial<Q> want;
        for (uint32_t k = 0; k <= Q::k; k++) TwistFFT<Q>(c[k], f[i][k]);
        for (uint32_t j = 0; j < Q::n; j++) want[j] = v[j] << (std::numeric_limits<typename Q::T>::digits - (i + 1) * Q::Bgbit);
        p.ring(c, z, want, i, [&] { return at + " row " + std::to_string(i); });
    }
}
template <class Q>
Polynomial<Q> automorphed(const Key<Q> &z, uint32_t c, uint64_t d)
{
    Polynomial<Q> v = {};
    for (uint32_t j = 0; j < Q::n; j++) {
        const uint64_t e = (uint64_t)j * d % (2 * Q::n);
        if (e < Q::n) v[e] += z[c * Q::n + j]; else v[e - Q::n] -= z[c * Q::n + j];
    }
    return v;
}
template <class Q>
void autos(const std::string &how, const Key<Q> &z, const SecretKey *sk)
{
    {
        Pop<Q> p(std::string("annihilate-") + pn<Q>() + how, fftslack<Q>(z));
        auto a = std::make_unique<AnnihilateKey<Q>>();
        if (sk) annihilatekeygen<Q>(*a, *sk); else annihilatekeygen<Q>(*a, z);
        for (uint32_t i = 0; i < Q::nbit; i++)
            for (uint32_t c = 0; c < Q::k; c++) halfgadget<Q>(p, (*a)[i][c], z, automorphed<Q>(z, c, (1u << (Q::nbit - i)) + 1), "automorphism " + std::to_string(i));
        p.done(Q::nbit * Q::k * Q::l);
    }
    Pop<Q> p(std::string("evalauto-") + pn<Q>() + how, fftslack<Q>(z));
    Rng r(vh::hash_str(how) + Q::n);
    uint64_t cnt = 0;
    for (uint d : {1u, 3u, 5u, Q::n - 1u, Q::n + 1u, 2 * Q::n - 1u, (uint)(2 * r.below(Q::n) + 1), (uint)(2 * r.below(Q::n) + 1)}) {
        auto a = std::make_unique<EvalAutoKey<Q>>();
        evalautokeygen<Q>(*a, d, z);
        for (uint32_t c = 0; c < Q::k; c++) { halfgadget<Q>(p, (*a)[c], z, automorphed<Q>(z, c, d), "X->X^" + std::to_string(d)); cnt += Q::l; }
    }
    p.done(cnt);
}
// ---------------------------------------------------------------- container
static std::vector<std::pair<std::string, const void *>> slots(const EvalKey &e)
{
    std::vector<std::pair<std::string, const void *>> s;
#define S(x) s.emplace_back(#x, e.x.get());
    S(bklvl01) S(bklvlh1) S(bklvl02) S(bklvlh2) S(bkfftlvl01) S(bkfftlvlh1) S(bkfftlvl02) S(bkfftlvlh2)
    S(bknttlvl01) S(bknttlvlh1) S(bknttlvl02) S(bknttlvlh2)
    S(iksklvl10) S(iksklvl1h) S(iksklvl20) S(iksklvl2h) S(iksklvl21) S(iksklvl22) S(iksklvl31) S(subiksklvl21)
#undef S
    for (auto &[k, v] : e.privksklvl11) s.emplace_back("privksklvl11/" + k, v.get());
    for (auto &[k, v] : e.privksklvl21) s.emplace_back("privksklvl21/" + k, v.get());
    for (auto &[k, v] : e.privksklvl22) s.emplace_back("privksklvl22/" + k, v.get());
    for (auto &[k, v] : e.subprivksklvl21) s.emplace_back("subprivksklvl21/" + k, v.get());
    std::sort(s.begin(), s.end());
    std::erase_if(s, [](auto &x) { return !x.second; });
    return s;
}
// one request: only the named slot may change
struct Slots {
    const EvalKey &e;
    std::vector<std::pair<std::string, const void *>> before;
    explicit Slots(const EvalKey &k) : e(k), before(slots(k)) {}
    void only(std::vector<std::string> names)
    {
        std::sort(names.begin(), names.end());
        auto now = slots(e);
        std::map<std::string, const void *> a(before.begin(), before.end()), b(now.begin(), now.end());
        for (auto &n : names) if (!b.count(n)) fail("slot-missing:" + n, "the requested key was not produced");
        for (auto &[n, p] : b) if (!std::binary_search(names.begin(), names.end(), n) && (!a.count(n) || a[n] != p)) fail("slot-other:" + n, "generating %s also replaced %s", names[0].c_str(), n.c_str());
        for (auto &[n, p] : a) if (!b.count(n)) fail("slot-lost:" + n, "generating %s dropped %s", names[0].c_str(), n.c_str());
        before = now;
        eval(); tally("requests");
    }
};
template <class P>
void container_bk(EvalKey &ek, const SecretKey &sk, Slots &s)
{
    const auto d = sk.key.get<typename P::domainP>();
    const auto z = sk.key.get<typename P::targetP>();
    const std::string n = pn<P>();
    ek.emplacebk<P>(sk); s.only({"bk" + n});
    const auto h = vh::hash_bytes(ek.getbk<P>()[1]);
    bk<P>(ek.getbk<P>(), 0, "", d, z);
    // conversions keep the key they start from
    ek.emplacebk2bkfft<P>(); s.only({"bkfft" + n});
    bk<P>(ek.getbkfft<P>(), 1, " converted", d, z);
    ek.emplacebk2bkntt<P>(); s.only({"bkntt" + n});
    bk<P>(ek.getbkntt<P>(), 2, " converted", d, z);
    if (vh::hash_bytes(ek.getbk<P>()[1]) != h) fail("conversion:" + n, "converting a bootstrapping key changed it");
    ek.emplacebkfft<P>(sk); s.only({"bkfft" + n});
    bk<P>(ek.getbkfft<P>(), 1, "", d, z);
    ek.emplacebkntt<P>(sk); s.only({"bkntt" + n});
    bk<P>(ek.getbkntt<P>(), 2, "", d, z);
    if (vh::hash_bytes(ek.getbk<P>()[1]) != h) fail("slot-other:bk" + n, "generating a transformed key changed the plain one");
}
template <class P>
void container_iksk(EvalKey &ek, const SecretKey &sk, Slots &s)
{
    ek.emplaceiksk<P>(sk); s.only({std::string("iksk") + pn<P>()});
    iksk<P>(ek.getiksk<P>(), "", sk.key.get<typename P::domainP>(), sk.key.get<typename P::targetP>());
}
template <class P>
void container_priv(EvalKey &ek, const SecretKey &sk, Slots &s, bool big)
{
    using Q = typename P::targetP;
    using D = typename P::domainP;
    Rng r(91 + D::n + Q::n);
    const auto d = sk.key.get<D>();
    const auto z = sk.key.get<Q>();
    auto src = [&](size_t i) { return i == D::k * D::n ? -1 : sgn<D>(d[i]); };
    const std::string n = std::string("privksk") + pn<P>();
    Polynomial<Q> f = {}, one = {}, g = {};
    for (auto &x : f) x = (typename Q::T)((int64_t)r.below(31) - 15);
    for (auto &x : g) x = (typename Q::T)r.next();
    one[0] = 1;
    ek.emplaceprivksk<P>("f", f, sk); s.only({n + "/f"});
    ringksk<P>(ek.getprivksk<P>("f"), n + " small function", src, f, z);
    if (big) { ek.privksklvl22.clear(); return; }
    ek.emplaceprivksk<P>("g", g, sk); s.only({n + "/g"});
    ringksk<P>(ek.getprivksk<P>("g"), n + " random function", src, g, z);
    const auto h = vh::hash_bytes(ek.getprivksk<P>("g")[7]);
    ek.emplaceprivksk<P>("f", one, sk); s.only({n + "/f"});
    ringksk<P>(ek.getprivksk<P>("f"), n + " replaced", src, one, z);
    if (vh::hash_bytes(ek.getprivksk<P>("g")[7]) != h) fail("slot-other:" + n, "regenerating one function changed another");
    bool threw = false;
    try { ek.getprivksk<P>("h"); } catch (const std::out_of_range &) { threw = true; }
    if (!threw) fail("slot-absent:" + n, "an absent function was returned");
    std::vector<std::string> names;
    for (uint32_t c = 0; c <= Q::k; c++) names.push_back(n + "/privksk4cb_" + std::to_string(c));
    ek.emplaceprivksk4cb<P>(sk); s.only(names);
    for (uint32_t c = 0; c <= Q::k; c++) {
        Polynomial<Q> w = {};
        if (c == Q::k) w[0] = 1; else for (uint32_t j = 0; j < Q::n; j++) w[j] = -z[c * Q::n + j];
        ringksk<P>(ek.getprivksk<P>("privksk4cb_" + std::to_string(c)), n + " circuit bootstrapping " + std::to_string(c), src, w, z);
    }
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const std::string part = argc > 1 ? argv[1] : "";  // the three parts run side by side
    Rng r(5);
    auto sk = std::make_unique<SecretKey>();
    if (part != "direct") {
        EvalKey ek(*sk);
        if (!(ek.params == sk->params)) fail("params", "the evaluation key does not carry the parameters of its secret key");
        Slots s(ek);
        if (!s.before.empty()) fail("slot-initial", "a new evaluation key is not empty");
        if (part != "switching") {
        container_bk<lvl01param>(ek, *sk, s);
        container_bk<lvlh1param>(ek, *sk, s);
        ek.bklvl01.reset(); ek.bkfftlvl01.reset(); ek.bknttlvl01.reset(); ek.bklvlh1.reset(); ek.bknttlvlh1.reset();
        s.before = slots(ek);
        container_bk<lvl02param>(ek, *sk, s);
        ek.bklvl02.reset(); ek.bkfftlvl02.reset(); ek.bknttlvl02.reset();
        s.before = slots(ek);
        container_bk<lvlh2param>(ek, *sk, s);
        ek.bklvlh2.reset(); ek.bkfftlvlh2.reset(); ek.bknttlvlh2.reset();
        s.before = slots(ek);
        }
        if (part != "bootstrapping") {
        container_iksk<lvl10param>(ek, *sk, s);
        container_iksk<lvl1hparam>(ek, *sk, s);
        container_iksk<lvl20param>(ek, *sk, s);
        container_iksk<lvl2hparam>(ek, *sk, s);
        container_iksk<lvl21param>(ek, *sk, s);
        container_iksk<lvl22param>(ek, *sk, s);
        container_iksk<lvl31param>(ek, *sk, s);
        container_priv<lvl11param>(ek, *sk, s, false);
        ek.privksklvl11.clear(); s.before = slots(ek);
        container_priv<lvl21param>(ek, *sk, s, false);
        ek.privksklvl21.clear(); s.before = slots(ek);
        if (vh::thorough) { container_priv<lvl22param>(ek, *sk, s, true); s.before = slots(ek); }
        // shared-prefix keys
        using Q = lvl1param; using D = lvl2param; using P = lvl21param;
        auto sub = std::make_unique<SecretKey>(*sk);
        for (size_t i = 0; i < Q::k * Q::n; i++) sub->key.lvl2[i] = (D::T)(std::make_signed_t<Q::T>)sub->key.lvl1[i];
        ek.emplacesubiksk<P>(*sub); s.only({"subiksklvl21"});
        {
            Pop<Q> p("subiksk-lvl21");
            auto &k = ek.getsubiksk<P>();
            vh::parallel(8, 8, [&](size_t t) {
                for (size_t i = t; i < k.size(); i += 8)
                    for (size_t j = 0; j < P::t; j++)
                        for (size_t u = 0; u < k[i][j].size(); u++)
                            p.one(k[i][j][u], sub->key.lvl1, (Q::T)((uint64_t)((int64_t)sgn<D>(sub->key.lvl2[Q::k * Q::n + i]) * (int64_t)(u + 1)) << (std::numeric_limits<Q::T>::digits - (j + 1) * P::basebit)), j * 64 + u, [&] { return "index " + std::to_string(i); });
            });
            p.done(k.size() * P::t * k[0][0].size());
        }
        auto src = [&](size_t i) { return i == Q::k * Q::n ? -1 : sgn<D>(sub->key.lvl2[i]); };
        ek.emplacesubprivksk4cb<P>(*sub); { std::vector<std::string> names; for (uint32_t c = 0; c <= Q::k; c++) names.push_back("subprivksklvl21/subprivksk4cb_" + std::to_string(c)); s.only(names); }
        for (uint32_t c = 0; c <= Q::k; c++) {
            Polynomial<Q> w = {};
            if (c == Q::k) w[0] = 1; else for (uint32_t j = 0; j < Q::n; j++) w[j] = -sub->key.lvl1[c * Q::n + j];
            ringksk<P>(ek.getsubprivksk<P>("subprivksk4cb_" + std::to_string(c)), "subprivksk lvl21 " + std::to_string(c), src, w, sub->key.lvl1);
        }
        Polynomial<Q> f = {};
        for (auto &x : f) x = (Q::T)r.next();
        ek.emplacesubprivksk<P>("f", f, *sub); s.only({"subprivksklvl21/f"});
        ringksk<P>(ek.getsubprivksk<P>("f"), "subprivksk lvl21 random function", src, f, sub->key.lvl1);
        }
    }
    if (part != "" && part != "direct") return vh::finish();
    // the generating functions directly, also under extreme keys
    for (int cls = 0; cls < (vh::thorough ? 4 : 2); cls++) {
        const std::string how = cls == 0 ? " direct" : cls == 1 ? " keys all -1 or 1" : cls == 2 ? " keys all 0 or 1" : " alternating keys";
        auto k = std::make_unique<SecretKey>(*sk);
        if (cls) {
            auto set = [&](auto &key, int lo, int hi) { size_t i = 0; for (auto &x : key) x = cls == 1 ? (lo ? lo : hi) : cls == 2 ? (i % 7 == 3) : (i & 1 ? lo : hi), i++; };
            set(k->key.lvl0, lvl0param::key_value_min, lvl0param::key_value_max); set(k->key.lvlhalf, lvlhalfparam::key_value_min, lvlhalfparam::key_value_max);
            set(k->key.lvl1, lvl1param::key_value_min, lvl1param::key_value_max); set(k->key.lvl2, lvl2param::key_value_min, lvl2param::key_value_max);
            set(k->key.lvl3, lvl3param::key_value_min, lvl3param::key_value_max);
        }
        auto b = std::make_unique<BootstrappingKeyRAINTT<lvl01param>>();
        if (cls) bkrainttgen<lvl01param>(*b, k->key.lvl0, k->key.lvl1); else bkrainttgen<lvl01param>(*b, *k);
        bk<lvl01param>(*b, 3, how, k->key.lvl0, k->key.lvl1);
        if (cls) {
            auto x = std::make_unique<BootstrappingKeyFFT<lvl01param>>();
            bkfftgen<lvl01param>(*x, k->key.lvl0, k->key.lvl1);
            bk<lvl01param>(*x, 1, how, k->key.lvl0, k->key.lvl1);
            auto y = std::make_unique<KeySwitchingKey<lvl20param>>();
            ikskgen<lvl20param>(*y, k->key.lvl2, k->key.lvl0);
            iksk<lvl20param>(*y, how, k->key.lvl2, k->key.lvl0);
        }
        {
            auto y = std::make_unique<KeySwitchingKey<lvl11param>>();
            if (cls) ikskgen<lvl11param>(*y, k->key.lvl1, k->key.lvl1); else ikskgen<lvl11param>(*y, *k);
            iksk<lvl11param>(*y, how, k->key.lvl1, k->key.lvl1);
        }
        if (!cls || vh::thorough) {
            using P = lvl11param;
            auto y = std::make_unique<TLWE2TRLWEIKSKey<P>>();
            if (cls) tlwe2trlweikskgen<P>(*y, k->key.lvl1, k->key.lvl1); else tlwe2trlweikskgen<P>(*y, *k);
            Polynomial<lvl1param> one = {};
            one[0] = 1;
            ringksk<P>(*y, "tlwe2trlweiksk lvl11" + how, [&](size_t i) { return sgn<lvl1param>(k->key.lvl1[i]); }, one, k->key.lvl1);
        }
        relin<lvl1param>(how, k->key.lvl1);
        relin<lvl2param>(how, k->key.lvl2);
        autos<lvl1param>(how, k->key.lvl1, cls ? nullptr : k.get());
        autos<lvl2param>(how, k->key.lvl2, cls ? nullptr : k.get());
    }
    return vh::finish();
}
