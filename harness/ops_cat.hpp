// How each operation is called (shared by the parts of the catalogue).
#pragma once
#include "ops.hpp"
namespace ops {
#define OP(nm, wt, ...) v.push_back({nm, wt, [=](V &x, const World &w) -> uint64_t { Rng r(x.salt * 7919 + 13); forced = x.salt >= 1000 ? x.salt - 1000 : -1; auto ix = [&] { return forced >= 0 ? (uint64_t)forced : r.below(NI); }; (void)ix; __VA_ARGS__ }})
template <class P> const auto &pick(const std::vector<P> &v, Rng &r) { return v[forced >= 0 ? forced % v.size() : r.below(v.size())]; }

template <class brP, class iksP> void gates(std::vector<Op> &v, const std::string &lv, int wt)
{
    constexpr auto μ = brP::targetP::μ;
#define ALL G(NAND) G(NOR) G(XNOR) G(AND) G(OR) G(XOR) G(ANDNY) G(ANDYN) G(ORNY) G(ORYN)
#define G(N) \
    OP("Hom" #N " " + lv + " out of bootstrapping", wt, { using Q = typename brP::domainP; auto &a = x.in(pick(w.tl<Q>(), r)); auto &b = x.in(pick(w.tl<Q>(), r)); \
        auto &o = x.res<TLWE<typename iksP::targetP>>({&a, &b}); Hom##N<brP, μ, iksP>(o, a, b, w.ek); return x.done(o); });
    if constexpr (!std::is_same_v<typename brP::domainP, lvlhalfparam>) { ALL }
#undef G
#define G(N) \
    OP("Hom" #N " " + lv + " out of switching", wt, { using Q = typename iksP::domainP; auto &a = x.in(pick(w.tl<Q>(), r)); auto &b = x.in(pick(w.tl<Q>(), r)); \
        auto &o = x.res<TLWE<typename brP::targetP>>({&a, &b}); Hom##N<iksP, brP, μ>(o, a, b, w.ek); return x.done(o); });
    ALL
#undef G
#undef ALL
}
template <class P> void unary(std::vector<Op> &v, const std::string &lv)
{
    OP("HomNOT " + lv, 0, { auto &a = x.in(pick(w.tl<P>(), r)); auto &o = x.res<TLWE<P>>({&a}); HomNOT<P>(o, a); return x.done(o); });
    OP("HomCOPY " + lv, 0, { auto &a = x.in(pick(w.tl<P>(), r)); auto &o = x.res<TLWE<P>>({&a}); HomCOPY<P>(o, a); return x.done(o); });
    OP("HomCONSTANTONE " + lv, 0, { auto &o = x.res<TLWE<P>>(); HomCONSTANTONE<P>(o); return x.done(o); });
    OP("HomCONSTANTZERO " + lv, 0, { auto &o = x.res<TLWE<P>>(); HomCONSTANTZERO<P>(o); return x.done(o); });
}
template <class K> void iks(std::vector<Op> &v, const std::string &lv, std::function<const KeySwitchingKey<K> &(const World &)> key)
{
    using D = typename K::domainP; using Q = typename K::targetP;
    OP("IdentityKeySwitch " + lv, 0, { auto &a = x.in(pick(w.tl<D>(), r));
        if constexpr (std::is_same_v<D, Q>) { auto &o = x.res<TLWE<Q>>({&a}); IdentityKeySwitch<K>(o, a, key(w)); return x.done(o); }
        else { auto &o = x.res<TLWE<Q>>(); IdentityKeySwitch<K>(o, a, key(w)); return x.done(o); } });
    OP("CatIdentityKeySwitch " + lv, 1, { std::array<TLWE<D>, 3> s{pick(w.tl<D>(), r), pick(w.tl<D>(), r), pick(w.tl<D>(), r)}; auto &a = x.in(s);
        if constexpr (std::is_same_v<D, Q>) { auto &o = x.res<std::array<TLWE<Q>, 3>>({&a}); CatIdentityKeySwitch<K, 3>(o, a, key(w)); return x.done(o); }
        else { auto &o = x.res<std::array<TLWE<Q>, 3>>(); CatIdentityKeySwitch<K, 3>(o, a, key(w)); return x.done(o); } });
}
template <class P> struct Ring;
template <> struct Ring<lvl1param> { static auto &r(const World &w) { return w.r1; } static auto &p(const World &w) { return w.p1; } static auto &s(const World &w) { return w.s1; } static auto &g(const World &w) { return w.g1; } static auto &ahk(const World &w) { return *w.ahk1; } static auto &au(const World &w) { return *w.auto1; } static auto &rel(const World &w) { return *w.relin1; } static constexpr uint d = 155; };
template <> struct Ring<lvl2param> { static auto &r(const World &w) { return w.r2; } static auto &p(const World &w) { return w.p2; } static auto &s(const World &w) { return w.s2; } static auto &g(const World &w) { return w.g2; } static auto &ahk(const World &w) { return *w.ahk2; } static auto &au(const World &w) { return *w.auto2; } static auto &rel(const World &w) { return *w.relin2; } static constexpr uint d = 555; };
template <class P, uint32_t B> std::array<TRGSWFFT<P>, B> address(const World &w, Rng &r)
{
    std::array<TRGSWFFT<P>, B> a;
    for (auto &g : a) g = pick(Ring<P>::g(w), r);
    return a;
}
template <class P> void rings(std::vector<Op> &v, const std::string &lv)
{
    using R = Ring<P>;
    OP("trgswfftExternalProduct " + lv, 0, { auto &c = x.in(pick(R::r(w), r)); auto &g = x.in(pick(R::g(w), r)); auto &o = x.res<TRLWE<P>>({&c}); trgswfftExternalProduct<P>(o, c, g); return x.done(o); });
    OP("CMUXFFT " + lv, 0, { auto &a = x.in(pick(R::r(w), r)); auto &b = x.in(pick(R::r(w), r)); auto &g = x.in(pick(R::g(w), r)); auto &o = x.res<TRLWE<P>>({&a, &b}); CMUXFFT<P>(o, g, a, b); return x.done(o); });
    OP("SampleExtractIndex " + lv, 0, { auto &a = x.in(pick(R::r(w), r)); auto &o = x.res<TLWE<P>>(); SampleExtractIndex<P>(o, a, r.below(P::n)); return x.done(o); });
    OP("InvSampleExtractIndex " + lv, 0, { auto &a = x.in(pick(w.tl<P>(), r)); auto &o = x.res<TRLWE<P>>(); InvSampleExtractIndex<P>(o, a, r.below(P::n)); return x.done(o); });
    OP("PolyMul " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &b = x.in(pick(R::s(w), r)); auto &o = x.res<Polynomial<P>>({&a, &b}); PolyMul<P>(o, a, b); return x.done(o); });
    OP("PolynomialMulByXai " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &o = x.res<Polynomial<P>>(); PolynomialMulByXai<P>(o, a, r.below(2 * P::n)); return x.done(o); });
    OP("PolynomialMulByXaiMinusOne " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &o = x.res<Polynomial<P>>(); PolynomialMulByXaiMinusOne<P>(o, a, r.below(2 * P::n)); return x.done(o); });
    OP("Automorphism " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &o = x.res<Polynomial<P>>(); Automorphism<P>(o, a, 2 * r.below(P::n) + 1); return x.done(o); });
    OP("Decomposition " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &o = x.res<DecomposedPolynomial<P>>(); Decomposition<P>(o, a); return x.done(o); });
    OP("TwistIFFT " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &o = x.res<PolynomialInFD<P>>(); TwistIFFT<P>(o, a); return x.done(o); });
    OP("TwistFFT " + lv, 0, { auto &a = x.in(pick(R::p(w), r)); auto &f = x.res<PolynomialInFD<P>>(); TwistIFFT<P>(f, a); auto &o = x.res<Polynomial<P>>(); TwistFFT<P>(o, f); return x.done(o); });
    OP("EvalAuto " + lv, 1, { auto &a = x.in(pick(R::r(w), r)); auto &o = x.res<TRLWE<P>>({&a}); EvalAuto<P>(o, a, R::d, R::au(w)); return x.done(o); });
    OP("AnnihilateKeySwitching " + lv, 1, { auto &a = x.in(pick(R::r(w), r)); auto &o = x.res<TRLWE<P>>({&a}); AnnihilateKeySwitching<P>(o, a, R::ahk(w)); return x.done(o); });
    OP("TLWE2TRLWEPacking " + lv, 2, { std::vector<TLWE<P>> s; for (int i = 0, n = 1 + r.below(6); i < n; i++) s.push_back(pick(w.tl<P>(), r)); auto &a = x.in(s); auto &o = x.res<TRLWE<P>>(); TLWE2TRLWEPacking<P>(o, const_cast<std::vector<TLWE<P>> &>(a), R::ahk(w)); return x.done(o); });
    OP("TLWE2TRLWEChengsPacking " + lv, 2, { std::vector<TLWE<P>> s; for (int i = 0, n = 1 + r.below(6); i < n; i++) s.push_back(pick(w.tl<P>(), r)); auto &a = x.in(s); auto &o = x.res<TRLWE<P>>(); TLWE2TRLWEChengsPacking<P>(o, const_cast<std::vector<TLWE<P>> &>(a), R::ahk(w)); return x.done(o); });
    OP("TRLWEMultWithoutRelinerization " + lv, 1, { auto &a = x.in(pick(R::r(w), r)); auto &b = x.in(pick(R::r(w), r)); auto &o = x.res<TRLWE3<P>>(); if constexpr (std::is_same_v<P, lvl1param>) TRLWEMultWithoutRelinerization<P>(o, a, b); else o = {}; return x.done(o); });
    OP("Relinearization " + lv, 1, { TRLWE3<P> m; for (int i = 0; i < 3; i++) m[i] = pick(R::p(w), r); auto &a = x.in(m); auto &o = x.res<TRLWE<P>>(); Relinearization<P>(o, a, R::rel(w)); return x.done(o); });
    OP("RAMUX " + lv, 2, { auto ad = address<P, 3>(w, r); auto &a = x.in(ad, "address"); std::array<TRLWE<P>, 8> m; for (auto &c : m) c = pick(R::r(w), r); auto &d = x.in(m, "memory"); auto &o = x.res<TRLWE<P>>(); RAMUX<P, 3>(o, a, d); return x.done(o); });
    OP("RAMwriteBar " + lv, 2, { std::array<std::array<TRGSWFFT<P>, 3>, 2> ad{address<P, 3>(w, r), address<P, 3>(w, r)}; auto &a = x.in(ad, "address"); auto &d = x.in(pick(R::r(w), r), "written"); auto &m = x.in(pick(R::r(w), r), "cell"); auto &o = x.res<TRLWE<P>>({&d, &m}); RAMwriteBar<P, 3>(o, d, m, r.below(8), a); return x.done(o); });
}
}  // namespace ops
