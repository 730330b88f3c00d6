#include "ops_cat.hpp"
namespace ops {
void catalogue_big(std::vector<Op> &v)
{
    using L1 = lvl1param; using L2 = lvl2param; using L0 = lvl0param;
    iks<lvl20param>(v, "lvl20", [](const World &w) -> auto & { return *w.ek.iksklvl20; });
    iks<lvl2hparam>(v, "lvl2h", [](const World &w) -> auto & { return *w.ek.iksklvl2h; });
    iks<lvl21param>(v, "lvl21", [](const World &w) -> auto & { return *w.ek.iksklvl21; });
    iks<lvl11param>(v, "lvl11", [](const World &w) -> auto & { return *w.iksk11; });
    OP("GateBootstrappingTLWE2TLWEFFT lvl02", 4, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.p2, r), "table"); auto &o = x.res<TLWE<L2>>(); GateBootstrappingTLWE2TLWEFFT<lvl02param>(o, a, *w.ek.bkfftlvl02, t); return x.done(o); });
    OP("BlindRotate lvl02 encrypted table", 4, { auto &a = x.in(pick(w.l0, r)); auto &t = x.in(pick(w.r2, r), "table"); auto &o = x.res<TRLWE<L2>>({&t}); BlindRotate<lvl02param>(o, a, *w.ek.bkfftlvl02, t); return x.done(o); });
    OP("HomMUXwoSE lvl20 lvl02", 8, { auto &s = x.in(pick(w.l2, r)); auto &a = x.in(pick(w.l2, r)); auto &b = x.in(pick(w.l2, r)); auto &o = x.res<TRLWE<L2>>(); HomMUXwoSE<lvl20param, lvl02param>(o, s, a, b, w.ek); return x.done(o); });
    OP("SubsetIdentityKeySwitch lvl21", 1, { auto &a = x.in(pick(w.l2, r)); auto &o = x.res<TLWE<L1>>(); SubsetIdentityKeySwitch<lvl21param>(o, a, *w.ek.subiksklvl21); return x.done(o); });
    OP("SubsetPrivKeySwitch lvl21", 2, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRLWE<L1>>(); SubsetPrivKeySwitch<lvl21param>(o, a, w.ek.getsubprivksk<lvl21param>("subprivksk4cb_0")); return x.done(o); });
    OP("PrivKeySwitch lvl21", 2, { auto &a = x.in(pick(w.l2, r)); auto &o = x.res<TRLWE<L1>>(); PrivKeySwitch<lvl21param>(o, a, w.ek.getprivksk<lvl21param>("privksk4cb_1")); return x.done(o); });
    OP("PrivKeySwitch lvl11", 2, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRLWE<L1>>(); PrivKeySwitch<lvl11param>(o, a, w.ek.getprivksk<lvl11param>("identity")); return x.done(o); });
    OP("TLWE2TRLWEIKS lvl11", 2, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRLWE<L1>>(); TLWE2TRLWEIKS<lvl11param>(o, a, *w.t2t); return x.done(o); });
    OP("TLWEMult lvl11", 4, { auto &a = x.in(pick(w.l1, r)); auto &b = x.in(pick(w.l1, r)); auto &o = x.res<TLWE<L1>>({&a, &b}); TLWEMult<lvl11param>(o, a, b, *w.relin1, w.ek.getprivksk<lvl11param>("identity")); return x.done(o); });
    OP("CircuitBootstrapping lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSW<L1>>(); CircuitBootstrapping<lvl10param, lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrapping lvl02 lvl21", 20, { auto &a = x.in(pick(w.l0, r)); auto &o = x.res<TRGSW<L1>>(); CircuitBootstrapping<lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingFFT lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingFFT lvl02 lvl21", 20, { auto &a = x.in(pick(w.l0, r)); auto &o = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFT<lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingFFTInv lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingFFTInv lvl02 lvl21", 20, { auto &a = x.in(pick(w.l0, r)); auto &o = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFTInv<lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingFFTwithInv lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSWFFT<L1>>(); auto &i = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>(o, i, a, w.ek); return vh::mix(x.done(o), content(i)); });
    OP("CircuitBootstrappingFFTwithInv lvl02 lvl21", 20, { auto &a = x.in(pick(w.l0, r)); auto &o = x.res<TRGSWFFT<L1>>(); auto &i = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingFFTwithInv<lvl02param, lvl21param>(o, i, a, w.ek); return vh::mix(x.done(o), content(i)); });
    OP("CircuitBootstrappingSub lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSW<L1>>(); CircuitBootstrappingSub<lvl10param, lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("CircuitBootstrappingSubFFT lvl10 lvl02 lvl21", 20, { auto &a = x.in(pick(w.l1, r)); auto &o = x.res<TRGSWFFT<L1>>(); CircuitBootstrappingSubFFT<lvl10param, lvl02param, lvl21param>(o, a, w.ek); return x.done(o); });
    OP("HomDecomp lvl21 lvl1h lvlh1", 4, { auto &a = x.in(pick(w.l2, r)); auto &o = x.res<std::array<TLWE<L1>, 3>>(); HomDecomp<lvl21param, lvl1hparam, lvlh1param, 4, 3>(o, a, *w.ek.iksklvl21, *w.ek.iksklvl1h, *w.ek.bkfftlvlh1); return x.done(o); });
    OP("HomDecomp lvl21 lvl10 lvl01", 4, { auto &a = x.in(pick(w.l2, r)); auto &o = x.res<std::array<TLWE<L1>, 5>>(); HomDecomp<lvl21param, lvl10param, lvl01param, 2, 5>(o, a, *w.ek.iksklvl21, *w.ek.iksklvl10, *w.ek.bkfftlvl01); return x.done(o); });
}
}  // namespace ops
