// C14: homomorphic digit decomposition.
#include "model.hpp"
#include <mutex>
#include <omp.h>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

static std::mutex mu;
template <class h2m, class m2l, class br, uint b, uint nd>
void run(const SecretKey &sk, const EvalKey &ek, const std::string &L0, int reps, uint64_t salt)
{
    using H = typename h2m::domainP;
    using M = typename h2m::targetP;
    using T = typename H::T;
    constexpr int w = std::numeric_limits<T>::digits;
    constexpr uint total = b * nd;
    const std::string L = L0 + " base 2^" + std::to_string(b) + " x " + std::to_string(nd);
    const auto kh = sk.key.get<H>();
    const auto km = sk.key.get<M>();
    const double B = 1 << b;
    const double vks = vh::ksvar<h2m>(), vout = vks + vh::brvar<br>();
    const double sdec = std::sqrt(vh::ksvar<m2l>() + vh::msvar<br>());   // noise between a digit and the decision on it
    metric(L + " decision margin in standard deviations", 0.25 / B / std::sqrt(sdec * sdec + vout));
    Stat st;
    uint64_t near = 0, wrong_near = 0;
    for (int t = 0; t < reps; t++) {
        Rng r(salt * 1000 + t);
        auto c = std::make_unique<TLWE<H>>();
        std::string how;
        T msg = 0;
        for (uint d = 0; d < nd; d++) {
            T v;
            switch (t % 10) {
            case 0: v = 0; break;
            case 1: v = (1u << b) - 1; break;
            case 2: v = 1u << (b - 1); break;
            case 3: v = (1u << (b - 1)) - 1; break;
            case 4: v = d & 1 ? 0 : (1u << b) - 1; break;
            case 5: v = d == (uint)(t / 10) % nd ? 1 + r.below((1 << b) - 1) : 0; break;
            case 6: v = d == (uint)(t / 10) % nd ? r.below((1 << b) - 1) : (1u << b) - 1; break;
            default: v = r.below(1 << b);
            }
            msg |= v << (d * b);
        }
        how = "digits of " + std::to_string((unsigned long long)msg);
        const T enc = total == (uint)w ? msg : (T)(msg << (w - total));
        if (t % 3 == 0) { for (auto &x : *c) x = vh::edge<T>(r); (*c)[H::k * H::n] += (T)(enc - vh::ref_phase<H>(*c, kh)); how += " under an extreme mask"; }
        else if (t % 3 == 1) { for (auto &x : *c) x = (T)r.next(); (*c)[H::k * H::n] += (T)(enc - vh::ref_phase<H>(*c, kh)); }
        else *c = tlweSymEncrypt<H>(enc, kh), how += " freshly encrypted";
        const T phase = vh::ref_phase<H>(*c, kh);
        // digits: every bit of the phase when the digits cover the word, otherwise the message bits
        const T msgd = total == (uint)w ? phase : (T)((T)(phase + (T(1) << (w - total - 1))) >> (w - total));
        auto out = std::make_unique<std::array<TLWE<M>, nd>>();
        for (auto &x : *out) x.fill((typename M::T)0x4321);
        const auto before = vh::hash_bytes(*c);
        HomDecomp<h2m, m2l, br, b, nd>(*out, *c, ek.getiksk<h2m>(), ek.getiksk<m2l>(), ek.getbkfft<br>());
        if (vh::hash_bytes(*c) != before) fail("input-changed:" + L, "the input ciphertext changed");
        double prev = 0;
        bool exempt = false;
        for (uint d = 0; d < nd; d++) {
            const double got = vh::tor<typename M::T>(vh::ref_phase<M>((*out)[d], km));
            const double x = vh::tor<T>((T)(phase << (total - b * (d + 1))));
            double want = x;
            if (d) {
                double q = prev + 0.5 / B;  // the decision on the digit below
                q -= std::floor(q);
                const double dist = std::min({q, std::fabs(q - 0.5), 1 - q});
                exempt = dist < 7.5 * sdec;
                if (exempt) near++;
                want += (q < 0.5 ? 0.25 : -0.25) / B - 0.5 / B;
            }
            double dv = got - want;
            dv -= std::floor(dv + 0.5);
            const double sg = std::sqrt(d ? vout : vks);
            const uint digit = (msgd >> (b * d)) & ((1u << b) - 1);
            if (std::fabs(dv) > 8.5 * sg) {
                if (exempt) wrong_near++;
                else fail("phase:" + L, "%s: digit %u (%u) has phase %.5f, expected %.5f (%.1f predicted standard deviations off)", how.c_str(), d, digit, got, want, dv / sg);
            } else {
                st.add(dv / sg);
                const int dec = ((int)tlweSymIntDecrypt<M, 1u << b>((*out)[d], km) + (1 << b)) % (1 << b);
                if (dec != (int)digit && !exempt) fail("digit:" + L, "%s: digit %u decrypts to %d, expected %u (phase %.5f)", how.c_str(), d, dec, digit, got);
            }
            prev = got;
            eval(); tally("digits " + L);
        }
        distinct(vh::mix(vh::hash_bytes(*c), nd));
        tally("ciphertexts " + L);
    }
    if (wrong_near > 1 + near / 50) fail("decision:" + L, "%llu of %llu decisions with a thin margin went wrong", (unsigned long long)wrong_near, (unsigned long long)near);
    metric(L + " rms/predicted", st.rms()); metric(L + " thin decisions", near); metric(L + " thin decisions gone wrong", wrong_near);
    note("%s: noise rms %.2f max %.1f of predicted; %llu thin decisions, %llu wrong", L.c_str(), st.rms(), st.mx, (unsigned long long)near, (unsigned long long)wrong_near);
    if (st.n > 100 && st.rms() > 1.4) fail("noise:" + L, "digit noise is %.2f of the predicted", st.rms());
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const int R = vh::thorough ? 12 : 1;
    auto sk = std::make_unique<SecretKey>();
    EvalKey ek(*sk);
    vh::parallel(6, 6, [&](size_t i) {
        switch (i) {
        case 0: ek.emplaceiksk<lvl31param>(*sk); break;
        case 1: ek.emplacebkfft<lvlh1param>(*sk); break;
        case 2: ek.emplaceiksk<lvl21param>(*sk); break;
        case 3: ek.emplacebkfft<lvl01param>(*sk); break;
        case 4: ek.emplaceiksk<lvl10param>(*sk); break;
        default: ek.emplaceiksk<lvl1hparam>(*sk);
        }
    });
    vh::parallel(7, 7, [&](size_t i) {
        omp_set_num_threads(3);
        switch (i) {
        case 0: run<lvl31param, lvl1hparam, lvlh1param, 4, 16>(*sk, ek, "lvl31 lvl1h lvlh1", 20 * R, 1); break;
        case 1: run<lvl31param, lvl1hparam, lvlh1param, 4, 8>(*sk, ek, "lvl31 lvl1h lvlh1", 20 * R, 2); break;
        case 2: run<lvl31param, lvl1hparam, lvlh1param, 2, 16>(*sk, ek, "lvl31 lvl1h lvlh1", 10 * R, 3); break;
        case 3: run<lvl21param, lvl1hparam, lvlh1param, 4, 10>(*sk, ek, "lvl21 lvl1h lvlh1", 20 * R, 4); break;
        case 4: run<lvl21param, lvl1hparam, lvlh1param, 3, 5>(*sk, ek, "lvl21 lvl1h lvlh1", 20 * R, 5); break;
        case 5: run<lvl21param, lvl10param, lvl01param, 2, 6>(*sk, ek, "lvl21 lvl10 lvl01", 20 * R, 6); break;
        case 6: run<lvl31param, lvl1hparam, lvlh1param, 4, 1>(*sk, ek, "lvl31 lvl1h lvlh1", 10 * R, 7); break;
        }
    });
    return vh::finish();
}
