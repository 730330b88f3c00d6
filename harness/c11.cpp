// C11: gates and circuits.
#include "model.hpp"
#include <mutex>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

static const char *gname[] = {"NAND", "NOR", "XNOR", "AND", "OR", "XOR", "ANDNY", "ANDYN", "ORNY", "ORYN"};
static bool truth(int g, bool a, bool b)
{
    switch (g) {
    case 0: return !(a && b);
    case 1: return !(a || b);
    case 2: return a == b;
    case 3: return a && b;
    case 4: return a || b;
    case 5: return a != b;
    case 6: return !a && b;
    case 7: return a && !b;
    case 8: return !a || b;
    default: return a || !b;
    }
}
// key switching first, then bootstrapping
template <class ks, class br, typename br::targetP::T m = br::targetP::μ>
struct SwitchFirst {
    using S = typename br::targetP;
    template <typename br::targetP::T m2> using with = SwitchFirst<ks, br, m2>;
    static double amplitude() { return vh::tor<typename S::T>(m); }
    static constexpr bool after = false;
    static double var() { return vh::brvar<br>(); }
    static void gate(int g, TLWE<S> &r, const TLWE<S> &a, const TLWE<S> &b, const EvalKey &ek)
    {
        switch (g) {
        case 0: HomNAND<ks, br, m>(r, a, b, ek); break;
        case 1: HomNOR<ks, br, m>(r, a, b, ek); break;
        case 2: HomXNOR<ks, br, m>(r, a, b, ek); break;
        case 3: HomAND<ks, br, m>(r, a, b, ek); break;
        case 4: HomOR<ks, br, m>(r, a, b, ek); break;
        case 5: HomXOR<ks, br, m>(r, a, b, ek); break;
        case 6: HomANDNY<ks, br, m>(r, a, b, ek); break;
        case 7: HomANDYN<ks, br, m>(r, a, b, ek); break;
        case 8: HomORNY<ks, br, m>(r, a, b, ek); break;
        default: HomORYN<ks, br, m>(r, a, b, ek);
        }
    }
};
template <class br, class ks, typename br::targetP::T m = br::targetP::μ>
struct BootFirst {
    using S = typename br::domainP;
    template <typename br::targetP::T m2> using with = BootFirst<br, ks, m2>;
    static double amplitude() { return vh::tor<typename br::targetP::T>(m); }
    static constexpr bool after = true;
    static double var() { return vh::brvar<br>() + vh::ksvar<ks>(); }
    static void gate(int g, TLWE<S> &r, const TLWE<S> &a, const TLWE<S> &b, const EvalKey &ek)
    {
        switch (g) {
        case 0: HomNAND<br, m, ks>(r, a, b, ek); break;
        case 1: HomNOR<br, m, ks>(r, a, b, ek); break;
        case 2: HomXNOR<br, m, ks>(r, a, b, ek); break;
        case 3: HomAND<br, m, ks>(r, a, b, ek); break;
        case 4: HomOR<br, m, ks>(r, a, b, ek); break;
        case 5: HomXOR<br, m, ks>(r, a, b, ek); break;
        case 6: HomANDNY<br, m, ks>(r, a, b, ek); break;
        case 7: HomANDYN<br, m, ks>(r, a, b, ek); break;
        case 8: HomORNY<br, m, ks>(r, a, b, ek); break;
        default: HomORYN<br, m, ks>(r, a, b, ek);
        }
    }
};
static std::mutex mu;
struct Meter { std::map<std::string, Stat> by; };
// the phase of a gate's result: +-mu of the ring level, with the predicted noise
template <class S>
void judge(Meter &m, const TLWE<S> &c, bool want, double var, const std::string &what, const Key<S> &key, const std::string &how)
{
    const double ph = vh::tor<typename S::T>(vh::ref_phase<S>(c, key)), mu1 = vh::tor<typename S::T>((typename S::T)S::μ);
    double d = ph - (want ? mu1 : -mu1);
    d -= std::floor(d + 0.5);
    const double q = d / std::sqrt(var);
    std::lock_guard<std::mutex> g(mu);
    m.by[what].add(q);
    if (std::fabs(q) > 8.5) fail("gate:" + what, "%s: phase %.5f for a result of %d, %.1f predicted standard deviations off", how.c_str(), ph, want, q);
    if (tlweSymDecrypt<S>(c, key) != want) fail("truth:" + what, "%s: decrypts to %d, expected %d", how.c_str(), !want, want);
}
template <class S> struct Wire { TLWE<S> c; bool v; int depth; const char *kind; };

template <class G>
void circuits(const SecretKey &sk, const EvalKey &ek, const std::string &L, int gates, bool mux, bool same_ok)
{
    using S = typename G::S;
    const auto key = sk.key.get<S>();
    Meter met;
    int maxdepth = 0;
    constexpr double μ = 0; (void)μ;
    vh::parallel(8, 8, [&](size_t t) {
        Rng r(31 * (t + 1) + vh::hash_str(L));
        std::vector<Wire<S>> w;
        auto fresh = [&](bool v) { Wire<S> x; x.c = tlweSymEncrypt<S>(v ? (typename S::T)S::μ : (typename S::T)-S::μ, key); x.v = v; x.depth = 0; x.kind = "fresh"; return x; };
        auto triv = [&](bool v) {
            Wire<S> x; x.c.fill((typename S::T)0xabcd);
            if (v) HomCONSTANTONE<S>(x.c); else HomCONSTANTZERO<S>(x.c);
            x.v = v; x.depth = 0; x.kind = "constant";
            const auto ph = vh::ref_phase<S>(x.c, key);
            if (ph != (v ? (typename S::T)S::μ : (typename S::T)-S::μ)) fail("constant:" + L, "constant %d has phase %llx", v, (unsigned long long)ph);
            eval();
            return x;
        };
        for (int i = 0; i < 6; i++) w.push_back(fresh(i & 1));
        w.push_back(triv(true)); w.push_back(triv(false));
        uint64_t done = 0;
        auto pick = [&]() -> const Wire<S> & { return w[r.bit() && w.size() > 12 ? w.size() - 1 - r.below(6) : r.below(w.size())]; };
        auto apply = [&](int g, const Wire<S> &a, const Wire<S> &b) {
            Wire<S> o;
            o.v = truth(g, a.v, b.v); o.depth = std::max(a.depth, b.depth) + 1; o.kind = "gate";
            const int place = r.below(4);
            const TLWE<S> ca = a.c, cb = b.c;
            if (place == 1) { o.c = ca; G::gate(g, o.c, o.c, cb, ek); }
            else if (place == 2) { o.c = cb; G::gate(g, o.c, ca, o.c, ek); }
            else { o.c.fill((typename S::T)0x5555); G::gate(g, o.c, ca, cb, ek); }
            judge<S>(met, o.c, o.v, G::var(), L + " " + gname[g], key, std::string(gname[g]) + "(" + (a.v ? "1 " : "0 ") + a.kind + ", " + (b.v ? "1 " : "0 ") + b.kind + ")" + (place == 1 ? " over its first operand" : place == 2 ? " over its second operand" : "") + ", depth " + std::to_string(o.depth));
            eval(); done++; distinct(vh::mix(vh::hash_bytes(o.c), g)); tally("gates " + L);
            return o;
        };
        // complete truth tables over every kind of operand, split over the threads
        for (int g = 0; g < 10; g++)
            for (int in = 0; in < 4; in++) {
                if ((size_t)(g * 4 + in) % 8 != t) continue;
                const auto a = fresh(in & 1), b = fresh(in >> 1);
                const auto o = apply(g, a, b);
                w.push_back(o);
                if (gates > 200) { apply(g, triv(in & 1), triv(in >> 1)); apply(g, triv(in & 1), fresh(in >> 1)); }
            }
        while (done < (uint64_t)gates / 8) {
            const int k = r.below(16);
            if (k == 0) {
                const Wire<S> a = pick(); Wire<S> o = a;
                if (r.bit()) { HomNOT<S>(o.c, a.c); } else HomNOT<S>(o.c, o.c);
                o.v = !a.v; o.kind = "negated";
                for (size_t i = 0; i < a.c.size(); i++) if ((typename S::T)(o.c[i] + a.c[i]) != 0) { fail("not:" + L, "negation is not exact at word %zu", i); break; }
                eval(); w.push_back(o);
            } else if (k == 1) {
                const Wire<S> a = pick(); Wire<S> o = a;
                o.c.fill(7);
                HomCOPY<S>(o.c, a.c);
                if (o.c != a.c) fail("copy:" + L, "copy differs");
                eval(); o.kind = "copied"; w.push_back(o);
            } else if (k == 2) w.push_back(triv(r.bit()));
            else if (k == 3) w.push_back(fresh(r.bit()));
            else if (k < 7 && mux) {
                if constexpr (std::is_same_v<S, lvl1param> || std::is_same_v<S, lvl0param>) {
                    const Wire<S> s = pick(), a = pick(), b = pick();
                    Wire<S> o;
                    const bool neg = r.bit();
                    o.v = (s.v ? a.v : b.v) != neg;
                    o.depth = std::max({s.depth, a.depth, b.depth}) + 1; o.kind = "multiplexed";
                    const int place = r.below(5);
                    o.c = place == 1 ? s.c : place == 2 ? a.c : place == 3 ? b.c : TLWE<S>{};
                    const TLWE<S> &cs = place == 1 ? o.c : s.c, &c1 = place == 2 ? o.c : a.c, &c0 = place == 3 ? o.c : b.c;
                    if (neg) HomNMUX<S>(o.c, cs, c1, c0, ek); else HomMUX<S>(o.c, cs, c1, c0, ek);
                    const double var = G::after ? 2 * vh::brvar<lvl01param>() + vh::ksvar<lvl10param>() : 2 * vh::brvar<lvl01param>();
                    judge<S>(met, o.c, o.v, var, L + (neg ? " NMUX" : " MUX"), key, std::string(neg ? "NMUX(" : "MUX(") + (s.v ? "1 " : "0 ") + s.kind + ", " + (a.v ? "1 " : "0 ") + a.kind + ", " + (b.v ? "1 " : "0 ") + b.kind + "), operand sharing " + std::to_string(place));
                    eval(); done += 2; distinct(vh::hash_bytes(o.c)); tally("multiplexers " + L);
                    w.push_back(o);
                }
            } else {
                const Wire<S> a = pick();
                const Wire<S> b = same_ok && r.below(12) == 0 ? a : pick();
                const int g = r.below(10);
                // the same wire twice doubles its noise: only where the margin is specified for it
                if (!same_ok && a.c == b.c) continue;
                w.push_back(apply(g, a, b));
                std::lock_guard<std::mutex> gd(mu);
                maxdepth = std::max(maxdepth, w.back().depth);
            }
        }
        // one long chain
        Wire<S> x = fresh(r.bit());
        for (int i = 0; i < gates / 60; i++) x = apply(r.below(10), x, fresh(r.bit()));
        std::lock_guard<std::mutex> gd(mu);
        maxdepth = std::max(maxdepth, x.depth);
    });
    Stat all;
    for (auto &[k, s] : met.by) {
        all.add(s);
        if (s.n >= 40 && s.rms() > 1.0 + 5 / std::sqrt(2.0 * s.n) + 0.15) fail("noise:" + k, "output noise rms is %.2f of the predicted one over %llu results", s.rms(), (unsigned long long)s.n);
    }
    // the part of switching noise fixed by the key is shared by all results
    if (all.n && all.rms() > 1.3) fail("noise:" + L, "output noise rms is %.2f of the predicted one over %llu results", all.rms(), (unsigned long long)all.n);
    metric(L + " rms/predicted", all.rms()); metric(L + " max/predicted", all.mx); metric(L + " deepest wire", maxdepth);
    note("%s: deepest wire %d, noise rms %.2f max %.2f of predicted", L.c_str(), maxdepth, all.rms(), all.mx);
}
// the caller chooses the amplitude of the result: every gate, every input
template <class G>
void amplitude(const SecretKey &sk, const EvalKey &ek, const std::string &L)
{
    using S = typename G::S;
    const auto key = sk.key.get<S>();
    vh::parallel(40, 8, [&](size_t t) {
        const int g = t / 4;
        const bool a = t & 1, b = t & 2;
        auto enc = [&](bool v) { return tlweSymEncrypt<S>(v ? (typename S::T)S::μ : (typename S::T)-S::μ, key); };
        TLWE<S> r;
        r.fill((typename S::T)0x7777);
        G::gate(g, r, enc(a), enc(b), ek);
        double d = vh::tor<typename S::T>(vh::ref_phase<S>(r, key)) - (truth(g, a, b) ? 1 : -1) * G::amplitude();
        d -= std::floor(d + 0.5);
        d /= std::sqrt(G::var());
        if (std::fabs(d) > 8.5) fail("amplitude:" + L, "%s(%d, %d) asked for amplitude %.5f is %.1f predicted standard deviations off", gname[g], a, b, G::amplitude(), d);
        eval(); distinct(vh::hash_bytes(r)); tally("gates with an amplitude of the caller's");
    });
}
// selection with ring results
template <class br, typename br::targetP::T amp = br::targetP::μ, class Fn>
void ringmux(const SecretKey &sk, const std::string &L, int reps, Fn f)
{
    using Q = typename br::targetP;
    const auto z = sk.key.get<Q>();
    Stat st;
    vh::parallel(8, 8, [&](size_t t) {
        Rng r(77 * (t + 1) + vh::hash_str(L));
        for (int i = t; i < reps; i += 8) {
            const bool s = i & 1, a = i & 2, b = i & 4;
            auto o = std::make_unique<TRLWE<Q>>();
            for (auto &p : *o) p.fill(0x33);
            f(*o, s, a, b, r);
            TLWE<Q> e;
            SampleExtractIndex<Q>(e, *o, 0);
            const double ph = vh::tor<typename Q::T>(vh::ref_phase<Q>(e, z)), m = vh::tor<typename Q::T>(amp);
            const bool want = s ? a : b;
            double d = ph - (want ? m : -m);
            d -= std::floor(d + 0.5);
            d /= std::sqrt(2 * vh::brvar<br>());
            std::lock_guard<std::mutex> g(mu);
            st.add(d);
            if (std::fabs(d) > 8.5) fail("ring-mux:" + L, "%d ? %d : %d gives phase %.4f, %.1f predicted standard deviations off", s, a, b, ph, d);
            eval(); distinct(vh::hash_bytes(*o)); tally("ring multiplexers " + L);
        }
    });
    metric(L + " rms/predicted", st.rms());
    if (st.rms() > 1.0 + 5 / std::sqrt(2.0 * st.n) + 0.15) fail("ring-mux-noise:" + L, "noise rms %.2f of predicted", st.rms());
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    auto sk = std::make_unique<SecretKey>();
    EvalKey ek(*sk);
    const int R = vh::thorough && !vh::light ? 12 : 1, S = vh::light ? 8 : 1;
    vh::parallel(8, 8, [&](size_t i) {
        switch (i) {
        case 0: ek.emplacebkfft<lvl02param>(*sk); break;
        case 1: ek.emplacebkfft<lvlh2param>(*sk); break;
        case 2: ek.emplacebkfft<lvlh1param>(*sk); break;
        case 3: ek.emplacebkfft<lvl01param>(*sk); break;
        case 4: ek.emplaceiksk<lvl20param>(*sk); break;
        case 5: ek.emplaceiksk<lvl2hparam>(*sk); break;
        case 6: ek.emplaceiksk<lvl1hparam>(*sk); break;
        case 7: ek.emplaceiksk<lvl10param>(*sk); break;
        }
    });
    circuits<SwitchFirst<lvl10param, lvl01param>>(*sk, ek, "lvl1 (switch, bootstrap)", 1600 * R / S, true, true);
    circuits<BootFirst<lvl01param, lvl10param>>(*sk, ek, "lvl0 (bootstrap, switch)", 1600 * R / S, true, true);
    circuits<SwitchFirst<lvl1hparam, lvlh1param>>(*sk, ek, "lvl1 by half", 240 * R / S, false, true);
    circuits<SwitchFirst<lvl20param, lvl02param>>(*sk, ek, "lvl2 by lvl0", 160 * R / S, false, true);
    circuits<SwitchFirst<lvl2hparam, lvlh2param>>(*sk, ek, "lvl2 by half", 160 * R / S, false, true);
    circuits<BootFirst<lvl02param, lvl20param>>(*sk, ek, "lvl0 by lvl2", 120 * R / S, false, false);
    amplitude<SwitchFirst<lvl10param, lvl01param>::with<lvl1param::μ / 2>>(*sk, ek, "lvl1");
    amplitude<BootFirst<lvl01param, lvl10param>::with<lvl1param::μ / 2>>(*sk, ek, "lvl0");
    amplitude<SwitchFirst<lvl10param, lvl01param>::with<lvl1param::μ + lvl1param::μ / 3>>(*sk, ek, "lvl1");
    if (!vh::light) amplitude<SwitchFirst<lvl20param, lvl02param>::with<lvl2param::μ / 3>>(*sk, ek, "lvl2");
    auto e0 = [&](bool v) { return tlweSymEncrypt<lvl0param>(v ? (lvl0param::T)lvl0param::μ : (lvl0param::T)-lvl0param::μ, sk->key.lvl0); };
    auto e1 = [&](bool v) { return tlweSymEncrypt<lvl1param>(v ? (lvl1param::T)lvl1param::μ : (lvl1param::T)-lvl1param::μ, sk->key.lvl1); };
    auto e2 = [&](bool v) { return tlweSymEncrypt<lvl2param>(v ? (lvl2param::T)lvl2param::μ : (lvl2param::T)-lvl2param::μ, sk->key.lvl2); };
    auto eh = [&](bool v) { return tlweSymEncrypt<lvlhalfparam>(v ? (lvlhalfparam::T)lvlhalfparam::μ : (lvlhalfparam::T)-lvlhalfparam::μ, sk->key.lvlhalf); };
    ringmux<lvl01param>(*sk, "woIKSandSE lvl01", 64 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoIKSandSE<lvl01param>(o, e0(s), e0(a), e0(b), ek); });
    ringmux<lvl02param>(*sk, "woIKSandSE lvl02", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoIKSandSE<lvl02param>(o, e0(s), e0(a), e0(b), ek); });
    ringmux<lvlh1param>(*sk, "woIKSandSE lvlh1", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoIKSandSE<lvlh1param>(o, eh(s), eh(a), eh(b), ek); });
    ringmux<lvl01param>(*sk, "woSE lvl01", 64 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl01param>(o, e0(s), e0(a), e0(b), ek); });
    ringmux<lvl01param>(*sk, "woSE lvl10 lvl01", 64 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl10param, lvl01param>(o, e1(s), e1(a), e1(b), ek); });
    ringmux<lvl02param>(*sk, "woSE lvl10 lvl02", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl10param, lvl02param>(o, e1(s), e1(a), e1(b), ek); });
    ringmux<lvl01param>(*sk, "woSE lvl20 lvl01", 64 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl20param, lvl01param>(o, e2(s), e2(a), e2(b), ek); });
    constexpr auto half1 = lvl1param::μ / 2; constexpr auto third2 = lvl2param::μ / 3;
    ringmux<lvl01param, half1>(*sk, "woSE lvl01, half amplitude", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl01param, half1>(o, e0(s), e0(a), e0(b), ek); });
    ringmux<lvl01param, half1>(*sk, "woSE lvl10 lvl01, half amplitude", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl10param, lvl01param, half1>(o, e1(s), e1(a), e1(b), ek); });
    ringmux<lvl02param, third2>(*sk, "woSE lvl20 lvl02, third amplitude", 16 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl20param, lvl02param, third2>(o, e2(s), e2(a), e2(b), ek); });
    ringmux<lvl02param>(*sk, "woSE lvl20 lvl02", 24 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &) { HomMUXwoSE<lvl20param, lvl02param>(o, e2(s), e2(a), e2(b), ek); });
    ringmux<lvl01param>(*sk, "ExtractSwitchAndHomMUX", 64 * R / S, [&](auto &o, bool s, bool a, bool b, Rng &r) {
        auto ring = [&](bool v) {
            Polynomial<lvl1param> p;
            for (auto &x : p) x = r.bit() ? (lvl1param::T)lvl1param::μ : (lvl1param::T)-lvl1param::μ;
            p[0] = v ? (lvl1param::T)lvl1param::μ : (lvl1param::T)-lvl1param::μ;
            return trlweSymEncrypt<lvl1param>(p, sk->key.lvl1);
        };
        const auto cs = ring(s), c1 = ring(a), c0 = ring(b);
        if (r.bit()) { o = cs; ExtractSwitchAndHomMUX(o, o, c1, c0, ek); }
        else ExtractSwitchAndHomMUX(o, cs, c1, c0, ek);
    });
    return vh::finish();
}
