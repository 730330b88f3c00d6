#include "ops_cat.hpp"
namespace ops {
void catalogue_base(std::vector<Op> &v)
{
    using L1 = lvl1param; using L2 = lvl2param; using L0 = lvl0param;
    gates<lvl01param, lvl10param>(v, "lvl01", 1);
    unary<lvl0param>(v, "lvl0"); unary<lvl1param>(v, "lvl1"); unary<lvl2param>(v, "lvl2");
    OP("HomMUX lvl1", 2, { auto &s = x.in(pick(w.l1, r)); auto &a = x.in(pick(w.l1, r)); auto &b = x.in(pick(w.l1, r)); auto &o = x.res<TLWE<L1>>({&s, &a, &b}); HomMUX<L1>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomNMUX lvl1", 2, { auto &s = x.in(pick(w.l1, r)); auto &a = x.in(pick(w.l1, r)); auto &b = x.in(pick(w.l1, r)); auto &o = x.res<TLWE<L1>>({&s, &a, &b}); HomNMUX<L1>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomMUX lvl0", 2, { auto &s = x.in(pick(w.l0, r)); auto &a = x.in(pick(w.l0, r)); auto &b = x.in(pick(w.l0, r)); auto &o = x.res<TLWE<L0>>({&s, &a, &b}); HomMUX<L0>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomNMUX lvl0", 2, { auto &s = x.in(pick(w.l0, r)); auto &a = x.in(pick(w.l0, r)); auto &b = x.in(pick(w.l0, r)); auto &o = x.res<TLWE<L0>>({&s, &a, &b}); HomNMUX<L0>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomMUXwoIKSandSE lvl01", 2, { auto &s = x.in(pick(w.l0, r)); auto &a = x.in(pick(w.l0, r)); auto &b = x.in(pick(w.l0, r)); auto &o = x.res<TRLWE<L1>>(); HomMUXwoIKSandSE<lvl01param>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomMUXwoSE lvl01", 2, { auto &s = x.in(pick(w.l0, r)); auto &a = x.in(pick(w.l0, r)); auto &b = x.in(pick(w.l0, r)); auto &o = x.res<TRLWE<L1>>(); HomMUXwoSE<lvl01param>(o, s, a, b, w.ek); return x.done(o); });
    OP("HomMUXwoSE lvl10 lvl01", 2, { auto &s = x.in(pick(w.l1, r)); auto &a = x.in(pick(w.l1, r)); auto &b = x.in(pick(w.l1, r)); auto &o = x.res<TRLWE<L1>>(); HomMUXwoSE<lvl10param, lvl01param>(o, s, a, b, w.ek); return x.done(o); });
    OP("ExtractSwitchAndHomMUX", 2, { auto &s = x.in(pick(w.r1, r)); auto &a = x.in(pick(w.r1, r)); auto &b = x.in(pick(w.r1, r)); auto &o = x.res<TRLWE<L1>>({&s, &a, &b}); ExtractSwitchAndHomMUX(o, s, a, b, w.ek); return x.done(o); });
    OP("GateBootstrapping lvl1", 1, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TLWE<L1>>({&a}); GateBootstrapping<lvl10param, lvl01param, L1::μ>(o, a, w.ek); return x.done(o); });
    OP("GateBootstrapping lvl0", 1, { auto &a = x.in(pick(w.l0, r)); auto &o = x.res<TLWE<L0>>({&a}); GateBootstrapping<lvl01param, L1::μ, lvl10param>(o, a, w.ek); return x.done(o); });
    OP("GateBootstrappingNTT lvl1", 2, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TLWE<L1>>({&a}); GateBootstrappingNTT<lvl10param, lvl01param, L1::μ>(o, a, w.ek); return x.done(o); });
    OP("GateBootstrappingTLWE2TLWEFFT lvl01", 1, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.p1, r), "table"); auto &o = x.res<TLWE<L1>>(); GateBootstrappingTLWE2TLWEFFT<lvl01param>(o, a, *w.ek.bkfftlvl01, t); return x.done(o); });
    OP("GateBootstrappingTLWE2TLWEFFT lvlh1", 1, { auto &a = x.in(pick(w.lh, r)); auto &t = x.in(pick(w.p1, r), "table"); auto &o = x.res<TLWE<L1>>(); GateBootstrappingTLWE2TLWEFFT<lvlh1param>(o, a, *w.ek.bkfftlvlh1, t); return x.done(o); });
    OP("GateBootstrappingTLWE2TLWENTT lvl01", 2, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.p1, r), "table"); auto &o = x.res<TLWE<L1>>(); GateBootstrappingTLWE2TLWENTT<lvl01param>(o, a, *w.ek.bknttlvl01, t); return x.done(o); });
    OP("GateBootstrappingTLWE2TLWERAINTT lvl01", 2, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.p1, r), "table"); auto &o = x.res<TLWE<L1>>(); GateBootstrappingTLWE2TLWERAINTT<lvl01param>(o, a, *w.bkrai, t); return x.done(o); });
    OP("GateBootstrappingManyLUT lvl01", 1, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.p1, r), "table"); auto &o = x.res<std::array<TLWE<L1>, 4>>(); GateBootstrappingManyLUT<lvl01param, 4>(o, a, *w.ek.bkfftlvl01, t); return x.done(o); });
    OP("BlindRotate lvl01 encrypted table", 1, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.r1, r), "table"); auto &o = x.res<TRLWE<L1>>({&t}); BlindRotate<lvl01param>(o, a, *w.ek.bkfftlvl01, t); return x.done(o); });
    iks<lvl10param>(v, "lvl10", [](const World &w) -> auto & { return *w.ek.iksklvl10; });
    iks<lvl1hparam>(v, "lvl1h", [](const World &w) -> auto & { return *w.ek.iksklvl1h; });
    OP("halftrgswfftExternalProduct", 0, { auto &a = x.in(pick(w.p1, r)); auto &g = x.in(pick(w.hg1, r)); auto &o = x.res<TRLWE<L1>>(); halftrgswfftExternalProduct<L1>(o, a, g); return x.done(o); });
    OP("trgswnttExternalProduct", 0, { auto &c = x.in(pick(w.r1, r)); auto &g = x.in(pick(w.gn1, r)); auto &o = x.res<TRLWE<L1>>({&c}); trgswnttExternalProduct<L1>(o, c, g); return x.done(o); });
    OP("trgswrainttExternalProduct", 0, { auto &c = x.in(pick(w.r1, r)); auto &g = x.in(pick(w.gr1, r)); auto &o = x.res<TRLWE<L1>>({&c}); trgswrainttExternalProduct<L1>(o, c, g); return x.done(o); });
    OP("TRLWEMult", 1, { auto &a = x.in(pick(w.r1, r)); auto &b = x.in(pick(w.r1, r)); auto &o = x.res<TRLWE<L1>>({&a, &b}); TRLWEMult<L1>(o, a, b, *w.relin1); return x.done(o); });
    OP("UROMUX LROMUX", 6, { std::array<TRLWE<L1>, 4> m; for (auto &c : m) c = pick(w.r1, r); auto ad = address<L1, 12>(w, r); auto &a = x.in(ad, "address"); auto &d = x.in(m, "memory"); auto &t = x.res<TRLWE<L1>>(); UROMUX<L1, 12, 10>(t, a, d); auto &o = x.res<std::vector<TLWE<L1>>>(); if (o.size() < 1) o.resize(1); LROMUX<L1, 12, 10>(o, a, t); o.resize(1); return x.done(o); });
}
}  // namespace ops
