// C04: scalar arithmetic of the two prime fields against 128-bit integer arithmetic.
#include <cuhe++.hpp>
#include <raintt.hpp>
#include "vh.hpp"
using namespace vh;
using cuHEpp::INTorus;
using u128 = unsigned __int128;
using i128 = __int128;
static constexpr uint64_t P64 = 0xFFFFFFFF00000001ull;

static uint64_t canon(Rng &r)
{
    static const uint64_t e[] = {0, 1, 2, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 0xFFFFFFFEull, 0x80000000ull,
                                 P64 - 1, P64 - 2, P64 / 2, P64 / 2 + 1, P64 - 0xFFFFFFFFull, P64 - 0x100000000ull,
                                 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFE00000001ull, 0xFFFFFFFEFFFFFFFFull};
    switch (r.below(6)) {
    case 0: return e[r.below(sizeof(e) / 8)];
    case 1: { uint64_t v = (uint64_t(1) << r.below(64)); return (r.bit() ? v : v - 1) % P64; }
    case 2: return (uint64_t(uint32_t(0) - uint32_t(r.below(3))) << 32 | uint32_t(r.next())) % P64;  // high word extreme
    case 3: return (r.next() << 32) % P64;                                                            // low word zero
    case 4: return uint32_t(r.next());                                                                // high word zero
    default: return r.next() % P64;
    }
}
static void ck(const char *op, uint64_t got, u128 want, uint64_t a, uint64_t b)
{
    const uint64_t w = uint64_t(want % P64);
    if (got != w) {
        if (got % P64 == w) fail(std::string("p64-canonical:") + op, "%s(%llx,%llx) = %llx is not reduced", op, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got);
        else fail(std::string("p64:") + op, "%s(%llx,%llx) = %llx, expected %llx", op, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got, (unsigned long long)w);
    }
}
static void field64(Rng &r)
{
    const uint64_t n = thorough ? 60000000 : 3000000;
    for (uint64_t it = 0; it < n; it++) {
        const uint64_t a = canon(r), b = canon(r);
        INTorus x(a, false), y(b, false);
        ck("add", (x + y).value, u128(a) + b, a, b);
        ck("sub", (x - y).value, u128(a) + P64 - b, a, b);
        ck("mul", (x * y).value, u128(a) * b, a, b);
        if ((it & 3) == 0) {
            INTorus z = x; z += y; ck("add-assign", z.value, u128(a) + b, a, b);
            z = x; z -= y; ck("sub-assign", z.value, u128(a) + P64 - b, a, b);
            z = x; z *= y; ck("mul-assign", z.value, u128(a) * b, a, b);
            z = x; z += z; ck("add-self", z.value, u128(a) + a, a, a);
            z = x; z *= z; ck("mul-self", z.value, u128(a) * a, a, a);
            z = x; z -= z; ck("sub-self", z.value, 0, a, a);
            const uint64_t d = r.below(3) ? edge<uint64_t>(r) : P64 + r.below(0x100000000ull - 1);
            ck("construct", INTorus(d).value, d, d, 0);
        }
        if ((it & 1023) == 0) distinct(mix(a, b));
        if (x.value != a || y.value != b) fail("p64:operand-modified", "operand changed");
    }
    eval(3 * n);
    // every shift amount
    uint64_t pw = 1;
    std::array<uint64_t, 192> p2;
    for (int l = 0; l < 192; l++) { p2[l] = pw; pw = uint64_t(u128(pw) * 2 % P64); }
    const int m = thorough ? 200000 : 12000;
    for (int l = 0; l < 192; l++)
        for (int i = 0; i < m; i++) {
            uint64_t a = canon(r);
            if (i < 64) a = (uint64_t(1) << i) % P64;
            else if (i < 128) a = ((uint64_t(1) << (i - 64)) - 1) % P64;
            else if (i < 192) a = (P64 - (uint64_t(1) << (i - 128))) % P64;
            ck("shift", (INTorus(a, false) << l).value, u128(a) * p2[l], a, l);
            if (i < 200) distinct(mix(mix(3, l), a));
        }
    eval(192ull * m);
    for (int nb = 1; nb <= 31; nb++) {
        const INTorus v = cuHEpp::InvPow2(nb);
        ck("invpow2", uint64_t(u128(v.value) * p2[nb] % P64), 1, v.value, nb);
        if (v.value >= P64) fail("p64-canonical:invpow2", "InvPow2(%d) not reduced", nb);
        distinct(mix(4, nb)); eval();
    }
    for (int i = 0; i < 400; i++) {
        const uint64_t a = canon(r), e = i < 70 ? i : r.below(3000);
        uint64_t w = 1 % P64;
        for (uint64_t k = 0; k < e; k++) w = uint64_t(u128(w) * a % P64);
        ck("pow", INTorus(a, false).Pow(e).value, w, a, e);
        distinct(mix(mix(5, a), e)); eval();
    }
    // the root of unity the transforms start from: order exactly 2^32
    u128 w = cuHEpp::W;
    for (int i = 0; i < 31; i++) w = w * w % P64;
    if (uint64_t(w) != P64 - 1) fail("p64:root", "W is not a primitive 2^32-th root of unity");
    // a radix-64 butterfly turns multiplication by a 64th root into a shift by 3: 2^3 has order 64
    if (uint64_t(u128(p2[96]) + 1) % P64 != 0) fail("p64:two", "2^96 != -1");
}

namespace rt = raintt;
static constexpr int64_t PR = (int64_t(rt::K) << rt::shiftamount) + 1;
static int64_t md(i128 v) { v %= PR; if (v < 0) v += PR; return int64_t(v); }
static int64_t Rinv;
static void ckr(const char *op, int64_t got, i128 want, i128 a, i128 b, int64_t lo, int64_t hi)
{
    if (md(got) != md(want)) fail(std::string("rain:") + op, "%s(%lld,%lld) = %lld, expected residue %lld", op, (long long)a, (long long)b, (long long)got, (long long)md(want));
    if (got < lo || got > hi) fail(std::string("rain-range:") + op, "%s(%lld,%lld) = %lld outside [%lld,%lld]", op, (long long)a, (long long)b, (long long)got, (long long)lo, (long long)hi);
}
static int64_t sres(Rng &r)  // in (-P,P)
{
    switch (r.below(5)) {
    case 0: { static const int64_t e[] = {0, 1, -1, PR - 1, 1 - PR, PR / 2, -PR / 2, PR - 2, 2 - PR, 1 << 20, -(1 << 20)}; return e[r.below(11)]; }
    case 1: { int64_t v = int64_t(1) << r.below(29); return r.bit() ? v : -v; }
    default: return int64_t(r.next() % (2 * PR - 1)) - (PR - 1);
    }
}
static void rain(Rng &r)
{
    static_assert(PR == rt::P);
    // R^-1 by Fermat
    auto pw = [](int64_t b, int64_t e) { i128 x = 1, y = md(b); while (e) { if (e & 1) x = x * y % PR; y = y * y % PR; e >>= 1; } return int64_t(x); };
    const int64_t R = md(i128(1) << rt::wordbits);
    Rinv = pw(R, PR - 2);
    for (int64_t p = 2; p * p <= PR; p++) if (PR % p == 0) { fail("rain:prime", "modulus has factor %lld", (long long)p); break; }
    if (rt::R != R || rt::R2 != md(i128(R) * R) || rt::R3 != md(i128(md(i128(R) * R)) * R) || rt::R4 != md(i128(md(i128(R) * R)) * md(i128(R) * R)))
        fail("rain:constants", "Montgomery constants wrong");
    // order of W: 2^shiftamount
    i128 w = rt::W;
    for (unsigned i = 0; i + 1 < rt::shiftamount; i++) w = w * w % PR;
    if (md(w) != PR - 1) fail("rain:root", "W is not a primitive 2^%u-th root of unity", rt::shiftamount);
    const uint64_t n = thorough ? 60000000 : 3000000;
    for (uint64_t it = 0; it < n; it++) {
        const int64_t a = sres(r), b = sres(r);
        ckr("AddMod", rt::AddMod(a, b), i128(a) + b, a, b, 1 - PR, PR - 1);
        ckr("SubMod", rt::SubMod(a, b), i128(a) - b, a, b, 1 - PR, PR - 1);
        ckr("MulSREDC", rt::MulSREDC(rt::SWord(a), rt::SWord(b)), i128(a) * b % PR * Rinv, a, b, 1 - PR, PR - 1);
        const int64_t ua = md(a), ub = md(b);
        ckr("MulREDC", rt::MulREDC(rt::Word(ua), rt::Word(ub)), i128(ua) * ub % PR * Rinv, ua, ub, 0, PR);
        // double-word reductions over their whole input range
        const i128 lim = i128(PR) << (rt::wordbits - 1);  // |a| < R/2 P
        int64_t s;
        switch (it & 7) {
        case 0: s = int64_t(lim - 1 - i128(r.below(1000))); break;
        case 1: s = -int64_t(lim - 1 - i128(r.below(1000))); break;
        case 2: s = int64_t(a) << rt::wordbits >> 1; break;
        case 3: { int64_t v = int64_t(1) << r.below(60); s = (r.bit() ? v : -v) + int64_t(r.below(3)) - 1; break; }
        default: s = int64_t(r.next()) % int64_t(lim);
        }
        ckr("SREDC", rt::SREDC(s), i128(s) % PR * Rinv, s, 0, 1 - PR, PR - 1);
        const i128 ulim = i128(PR) << rt::wordbits;
        uint64_t t;
        switch (it & 3) {
        case 0: t = uint64_t(ulim - 1 - i128(r.below(1000))); break;
        case 1: t = uint64_t(1) << r.below(61); break;
        default: t = uint64_t(i128(r.next()) % ulim);
        }
        if (i128(t) < ulim) ckr("REDC", rt::REDC(t), i128(t) % PR * Rinv, t, 0, 0, PR);
        if ((it & 1023) == 0) distinct(mix(mix(9, a), b));
    }
    eval(6 * n);
    // wider sums, as the butterflies form before reducing: same residue
    for (int i = 0; i < 200000; i++) {
        const int64_t s = int64_t(r.next()) >> (2 + r.below(20));
        ckr("SREDC-wide", rt::SREDC(s), i128(s) % PR * Rinv, s, 0, INT32_MIN, INT32_MAX);
    }
    for (int i = 0; i < 3000; i++) {
        const int64_t a = md(sres(r));
        const unsigned e = i < 40 ? i : r.below(5000);
        ckr("PowREDC", rt::PowREDC(rt::Word(a), e), pw(a, e), a, e, 0, PR);
        distinct(mix(mix(11, a), e));
    }
    ckr("inv2^9", rt::inv_mod<512>(), pw(512, PR - 2), 0, 0, 0, PR - 1);
    ckr("inv2^10", rt::inv_mod<1024>(), pw(1024, PR - 2), 0, 0, 0, PR - 1);
    ckr("inv2^11", rt::inv_mod<2048>(), pw(2048, PR - 2), 0, 0, 0, PR - 1);
    ckr("inv3", rt::inv_mod<3>(), pw(3, PR - 2), 0, 0, 0, PR - 1);
    eval(203004);
    // shift-form twiddles equal multiplication by powers of 5*2^5
    for (int i = 0; i < 20000; i++) {
        const int64_t a = sres(r);
        ckr("ConstTwiddle<3,1>", 0, i128(rt::ConstTwiddleMul<3, 1>(a)) - i128(a) * rt::ipow<int64_t>(rt::k, 1) * (1 << (rt::shiftamount >> 2)), a, 0, 0, 0);
        ckr("ConstTwiddle<3,2>", 0, i128(rt::ConstTwiddleMul<3, 2>(a)) - i128(a) * rt::ipow<int64_t>(rt::k, 2) * (1 << (2 * (rt::shiftamount >> 2))), a, 0, 0, 0);
        ckr("ConstTwiddle<2,1>", 0, i128(rt::ConstTwiddleMul<2, 1>(a)) - i128(a) * rt::ipow<int64_t>(rt::k, 2) * (1 << (rt::shiftamount >> 1)), a, 0, 0, 0);
    }
}
template <uint8_t bit, class F>
static void bitrev(F f, const char *nm)
{
    std::vector<uint8_t> seen(1u << bit);
    for (uint32_t i = 0; i < (1u << bit); i++) {
        uint32_t w = 0;
        for (int j = 0; j < bit; j++) w |= ((i >> j) & 1) << (bit - 1 - j);
        if (f(i) != w) { fail(std::string("bitreverse:") + nm, "BitReverse<%d>(%u)", bit, i); return; }
    }
    eval(1u << bit);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    Rng r(404);
    field64(r);
    rain(r);
    bitrev<1>(cuHEpp::BitReverse<1>, "cu"); bitrev<3>(cuHEpp::BitReverse<3>, "cu"); bitrev<5>(cuHEpp::BitReverse<5>, "cu");
    bitrev<6>(cuHEpp::BitReverse<6>, "cu"); bitrev<10>(cuHEpp::BitReverse<10>, "cu"); bitrev<11>(cuHEpp::BitReverse<11>, "cu");
    bitrev<2>(raintt::BitReverse<2>, "rain"); bitrev<3>(raintt::BitReverse<3>, "rain"); bitrev<10>(raintt::BitReverse<10>, "rain");
    note("64-bit prime: operands at word, half-word and modulus boundaries; every shift 0..191; small prime: reductions over their whole input range");
    return finish();
}
