// Keys and inputs for the catalogue.
#include "ops.hpp"
namespace ops {
thread_local int forced = -1;
    // shape 0: zero, 1: no mask, 2: all ones, 3: no body, 4: the first half zero
    template <class C> void shape(C &c, int how)
    {
        constexpr bool ring = requires { c[0][0]; };
        const size_t n = c.size();
        auto set = [](auto &x, auto v) { if constexpr (ring) for (auto &y : x) y = v; else x = v; };
        for (size_t i = 0; i < n; i++)
            if (how == 0 || (how == 1 && i + 1 < n) || (how == 3 && i + 1 == n)) set(c[i], 0);
            else if (how == 2) set(c[i], -1);
            else if (how == 4) { if constexpr (ring) { for (size_t j = 0; j < c[i].size() / 2; j++) c[i][j] = 0; } else if (i < n / 2) c[i] = 0; }
    }
    template <class P> void lwe(std::vector<TLWE<P>> &v, const Key<P> &k, Rng &r)
    {
        for (int i = 0; i < NI; i++) {
            TLWE<P> c = tlweSymEncrypt<P>(r.bit() ? P::μ : -P::μ, P::α, k);
            if (i == NB - 1) for (auto &x : c) x = vh::edge<typename P::T>(r);
            if (i >= NB) shape(c, i - NB);
            v.push_back(c);
        }
    }
    template <class P> void rlwe(std::vector<TRLWE<P>> &v, std::vector<Polynomial<P>> &p, std::vector<Polynomial<P>> &s, std::vector<TRGSWFFT<P>> &g, const Key<P> &k, Rng &r)
    {
        for (int i = 0; i < NI; i++) {
            Polynomial<P> m, d = {};
            for (auto &x : m) x = i == NB - 1 ? vh::edge<typename P::T>(r) : r.bit() ? P::μ : -P::μ;
            p.push_back(m);
            v.push_back(trlweSymEncrypt<P>(m, P::α, k));
            if (i == NB - 1) for (auto &q : v.back()) for (auto &x : q) x = vh::edge<typename P::T>(r);
            if (i >= NB) { shape(v.back(), i - NB); g.push_back(g[i - NB]); s.push_back(s[i - NB]); continue; }
            for (auto &x : m) x = (typename P::T)r.below(32) - 16;
            s.push_back(m);
            d[0] = i & 1;
            g.push_back(trgswfftSymEncrypt<P>(d, P::α, k));
        }
    }
    template <class X, class E> void rep(X &d, const E &e)
    {
        if constexpr (std::is_same_v<X, E>) d = e;
        else for (auto &x : d) rep(x, e);
    }
    template <class X, class E> void rep(std::shared_ptr<X> &d, const E &e) { d.reset(new X); rep(*d, e); }
    template <class X, class E> void rep(std::unique_ptr<X> &d, const E &e) { d.reset(new X); rep(*d, e); }
World::World(bool b, uint64_t salt, bool rings2, bool lite) : ek(sk), big(b)
    {
        Rng r(4000 + salt);
        if (lite) {
            inputs(r, rings2);
            // few non-zero words: a blind rotation skips the others
            auto thin = [](auto &v) { for (auto &c : v) for (size_t i = 0; i + 1 < c.size(); i++) if (i % 29 && i + 2 != c.size()) c[i] = 0; };
            thin(l0); thin(lh);
            rep(ek.bkfftlvl01, g1[0]); rep(ek.bkfftlvlh1, g1[1]); rep(ek.bknttlvl01, gn1[0]); rep(bkrai, gr1[0]);
            rep(ek.iksklvl10, l0[0]); rep(ek.iksklvl1h, lh[0]); rep(ahk1, g1[0][0]); rep(auto1, g1[1][0]); rep(relin1, g1[2][0]);
            if (rings2) { rep(ahk2, g2[0][0]); rep(auto2, g2[1][0]); rep(relin2, g2[2][0]); }
            if (big) {
                rep(ek.bkfftlvl02, g2[0]); rep(ek.bkfftlvlh2, g2[1]); rep(ek.iksklvl20, l0[1]); rep(ek.iksklvl2h, lh[1]); rep(ek.iksklvl21, l1[0]); rep(iksk11, l1[1]);
                rep(ek.subiksklvl21, l1[2]); rep(ek.subprivksklvl21["subprivksk4cb_0"], r1[0]); rep(ek.subprivksklvl21["subprivksk4cb_1"], r1[1]);
                rep(ek.privksklvl21["privksk4cb_0"], r1[0]); rep(ek.privksklvl21["privksk4cb_1"], r1[1]); rep(ek.privksklvl11["identity"], r1[2]); rep(t2t, r1[0]);
            }
            return;
        }
        std::vector<std::function<void()>> t = {
            [&] { ek.emplacebkfft<lvl01param>(sk); }, [&] { ek.emplacebkfft<lvlh1param>(sk); }, [&] { ek.emplacebkntt<lvl01param>(sk); },
            [&] { bkrainttgen<lvl01param>(*bkrai, sk); }, [&] { ek.emplaceiksk<lvl10param>(sk); }, [&] { ek.emplaceiksk<lvl1hparam>(sk); },
            [&] { annihilatekeygen<lvl1param>(*ahk1, sk); evalautokeygen<lvl1param>(*auto1, 2 * 77 + 1, sk.key.lvl1); relin1.reset(new relinKeyFFT<lvl1param>(relinKeyFFTgen<lvl1param>(sk.key.lvl1))); },
        };
        if (rings2) t.push_back([&] { annihilatekeygen<lvl2param>(*ahk2, sk); evalautokeygen<lvl2param>(*auto2, 2 * 277 + 1, sk.key.lvl2); relin2.reset(new relinKeyFFT<lvl2param>(relinKeyFFTgen<lvl2param>(sk.key.lvl2))); });
        if (big) {
            subsk = sk;
            for (size_t i = 0; i < lvl1param::k * lvl1param::n; i++) subsk.key.lvl2[i] = (lvl2param::T)(std::make_signed_t<lvl1param::T>)subsk.key.lvl1[i];
            t.push_back([&] { ek.emplacebkfft<lvl02param>(sk); });
            t.push_back([&] { ek.emplacebkfft<lvlh2param>(sk); });
            t.push_back([&] { ek.emplaceiksk<lvl20param>(sk); });
            t.push_back([&] { ek.emplaceiksk<lvl2hparam>(sk); });
            t.push_back([&] { ek.emplaceiksk<lvl21param>(sk); });
            t.push_back([&] { iksk11 = std::make_unique<KeySwitchingKey<lvl11param>>(); ikskgen<lvl11param>(*iksk11, sk); });
            t.push_back([&] { ek.emplacesubiksk<lvl21param>(subsk); ek.emplacesubprivksk4cb<lvl21param>(subsk); });
            t.push_back([&] { ek.emplaceprivksk4cb<lvl21param>(sk); });
            t.push_back([&] { Polynomial<lvl1param> f = {}; f[0] = 1; ek.emplaceprivksk<lvl11param>("identity", f, sk); });
            t.push_back([&] { t2t = std::make_unique<TLWE2TRLWEIKSKey<lvl11param>>(); tlwe2trlweikskgen<lvl11param>(*t2t, sk); });
        }
        // the container's slots are distinct objects, but maps are not filled concurrently
        vh::parallel(t.size(), 8, [&](size_t i) { t[i](); });
        inputs(r, rings2);
    }
void World::inputs(Rng &r, bool rings2)
    {
        lwe<lvl0param>(l0, sk.key.lvl0, r); lwe<lvlhalfparam>(lh, sk.key.lvlhalf, r); lwe<lvl1param>(l1, sk.key.lvl1, r); lwe<lvl2param>(l2, sk.key.lvl2, r);
        rlwe<lvl1param>(r1, p1, s1, g1, sk.key.lvl1, r);
        if (rings2) rlwe<lvl2param>(r2, p2, s2, g2, sk.key.lvl2, r);
        for (int i = 0; i < NI; i++) {
            if (i >= NB) { gn1.push_back(gn1[i - NB]); gr1.push_back(gr1[i - NB]); hg1.push_back(hg1[i - NB]); continue; }
            Polynomial<lvl1param> d = {};
            d[0] = i & 1;
            gn1.push_back(trgswnttSymEncrypt<lvl1param>(d, lvl1param::α, sk.key.lvl1));
            gr1.push_back(trgswrainttSymEncrypt<lvl1param>(d, lvl1param::α, sk.key.lvl1));
            d[i] = 1;
            hg1.push_back(halftrgswfftSymEncrypt<lvl1param>(d, lvl1param::α, sk.key.lvl1));
        }
    }
uint64_t World::digest() const
    {
        std::vector<uint64_t> h(40);
        std::vector<std::function<uint64_t()>> f;
#define F(x) f.push_back([&] { return ek.x ? content(*ek.x) : 1; });
        F(bkfftlvl01) F(bkfftlvlh1) F(bkfftlvl02) F(bkfftlvlh2) F(bknttlvl01) F(iksklvl10) F(iksklvl1h) F(iksklvl20) F(iksklvl2h) F(iksklvl21) F(subiksklvl21)
#undef F
#define F(x) f.push_back([&] { uint64_t s = 0; for (auto &[n, p] : ek.x) s += vh::mix(vh::hash_str(n), p ? content(*p) : 1); return s; });
        F(privksklvl11) F(privksklvl21) F(subprivksklvl21)
#undef F
#define F(x) f.push_back([&] { return x ? content(*x) : 1; });
        F(bkrai) F(ahk1) F(ahk2) F(auto1) F(auto2) F(relin1) F(relin2) F(t2t) F(iksk11)
#undef F
        f.push_back([&] { return content(l0) ^ content(lh) ^ content(l1) ^ content(l2) ^ content(r1) ^ content(r2) ^ content(p1) ^ content(p2) ^ content(s1) ^ content(s2); });
        f.push_back([&] { return content(g1) ^ content(g2) ^ content(gn1) ^ content(gr1) ^ content(hg1); });
        vh::parallel(f.size(), 8, [&](size_t i) { h[i] = f[i](); });
        uint64_t d = 0;
        for (auto x : h) d = vh::mix(d, x);
        return d;
    }
}  // namespace ops
