// C05: monomial multiplication, automorphisms and coefficient extraction are exact maps.
#include <tfhe++.hpp>
#include "vh.hpp"
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note;

struct Small1 { static constexpr uint32_t nbit = 4, n = 16, k = 1; using T = uint32_t; static constexpr int key_value_max = 1, key_value_min = -1; };
struct Small3 { static constexpr uint32_t nbit = 5, n = 32, k = 3; using T = uint64_t; static constexpr int key_value_max = 1, key_value_min = 0; };
struct Mid2 { static constexpr uint32_t nbit = 9, n = 512, k = 2; using T = uint32_t; static constexpr int key_value_max = 1, key_value_min = 0; };

template <class P> void randpoly(Polynomial<P> &p, Rng &r) { const bool e = r.below(3) == 0; for (auto &x : p) x = e ? vh::edge<typename P::T>(r) : (typename P::T)r.next(); }
template <class P> typename P::T refxai(const Polynomial<P> &p, uint64_t a, uint32_t j)
{
    const uint32_t src = (uint32_t)((j + 2ull * P::n - a % (2 * P::n)) % (2 * P::n));
    return src < P::n ? p[src] : (typename P::T)-p[src - P::n];
}
template <class P>
void mono(Rng &r, const char *L, uint32_t step)
{
    using T = typename P::T;
    auto p = std::make_unique<Polynomial<P>>(), q = std::make_unique<Polynomial<P>>(), s = std::make_unique<Polynomial<P>>();
    randpoly<P>(*p, r);
    for (uint32_t a = 0; a <= 2 * P::n; a += (a < 3 || a + 4 > 2 * P::n || (a + 3 > P::n && a < P::n + 3)) ? 1 : std::min<uint32_t>(step, (a < P::n ? P::n - 2 : 2 * P::n - 2) > a ? (a < P::n ? P::n - 2 : 2 * P::n - 2) - a : 1)) {
        PolynomialMulByXai<P>(*q, *p, a);
        for (uint32_t j = 0; j < P::n; j++) if ((*q)[j] != refxai<P>(*p, a, j)) { fail(std::string("xai:") + L, "X^%u: coefficient %u is %llx expected %llx", a, j, (unsigned long long)(*q)[j], (unsigned long long)refxai<P>(*p, a, j)); break; }
        PolynomialMulByXaiMinusOne<P>(*s, *p, a);
        for (uint32_t j = 0; j < P::n; j++) { T w = refxai<P>(*p, a, j) - (*p)[j]; if ((*s)[j] != w) { fail(std::string("xai-minus-one:") + L, "X^%u-1: coefficient %u is %llx expected %llx", a, j, (unsigned long long)(*s)[j], (unsigned long long)w); break; } }
        eval(2); distinct(vh::mix(vh::hash_str(L), a));
        tally(std::string("exponents ") + L);
    }
    // algebra of the implementation itself
    auto t = std::make_unique<Polynomial<P>>();
    for (int i = 0; i < 60; i++) {
        uint32_t a = r.below(2 * P::n + 1), b = r.below(2 * P::n + 1);
        randpoly<P>(*p, r);
        PolynomialMulByXai<P>(*q, *p, a); PolynomialMulByXai<P>(*s, *q, b);
        PolynomialMulByXai<P>(*t, *p, (a + b) % (2 * P::n));
        if (*s != *t) fail(std::string("xai-sum:") + L, "X^%u X^%u differs from X^%u", a, b, (a + b) % (2 * P::n));
        PolynomialMulByXai<P>(*q, *p, P::n);
        for (uint32_t j = 0; j < P::n; j++) if ((*q)[j] != (T)-(*p)[j]) { fail(std::string("xai-negate:") + L, "coefficient %u", j); break; }
        eval(2);
    }
}
template <class P>
void autom(Rng &r, const char *L, uint32_t step)
{
    using T = typename P::T;
    auto p = std::make_unique<Polynomial<P>>(), q = std::make_unique<Polynomial<P>>(), e = std::make_unique<Polynomial<P>>(), s = std::make_unique<Polynomial<P>>();
    auto one = [&](uint32_t d) {
        randpoly<P>(*p, r);
        randpoly<P>(*q, r);
        Automorphism<P>(*q, *p, d);
        for (auto &x : *e) x = 0;
        for (uint64_t i = 0; i < P::n; i++) {
            uint64_t k = i * d % (2 * P::n);
            if (k < P::n) (*e)[k] = (*p)[i]; else (*e)[k - P::n] = (T)-(*p)[i];
        }
        if (*e != *q) { uint32_t j = 0; while ((*e)[j] == (*q)[j]) j++; fail(std::string("automorphism:") + L, "index %u: coefficient %u is %llx expected %llx", d, j, (unsigned long long)(*q)[j], (unsigned long long)(*e)[j]); }
        eval(); distinct(vh::mix(vh::hash_str(L), 7777777 + d)); tally(std::string("automorphisms ") + L);
    };
    for (uint32_t d = 1; d < 2 * P::n; d += 2 * step) one(d);
    for (int l = 1; l <= (int)P::nbit; l++) one((1u << l) + 1);
    one(2 * P::n - 1); one(2 * P::n + 1); one(4 * P::n - 1); one(3);
    // indices beyond one period
    for (int i = 0; i < 60; i++) one((uint32_t)r.next() | 1);
    for (int i = 0; i < 20; i++) { one(2 * r.below(8 * P::n) + 1); one((uint32_t)-(int)(2 * r.below(P::n) + 1)); }
    for (int i = 0; i < 40; i++) {
        uint32_t a = 2 * r.below(P::n) + 1, b = 2 * r.below(P::n) + 1;
        Automorphism<P>(*q, *p, a); Automorphism<P>(*s, *q, b);
        Automorphism<P>(*e, *p, (uint32_t)((uint64_t)a * b % (2 * P::n)));
        if (*e != *s) fail(std::string("automorphism-compose:") + L, "%u then %u", a, b);
        eval();
    }
}
template <class P>
void extract(Rng &r, const char *L, uint32_t step)
{
    using T = typename P::T;
    auto c = std::make_unique<TRLWE<P>>(), back = std::make_unique<TRLWE<P>>();
    std::vector<T> key(P::k * P::n);
    auto t = std::make_unique<TLWE<P>>(), u = std::make_unique<TLWE<P>>();
    for (int kc = 0; kc < 3; kc++) {
        for (auto &x : key) x = (T)(kc == 0 ? P::key_value_max : kc == 1 ? P::key_value_min : P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1));
        for (auto &p : *c) randpoly<P>(p, r);
        const auto ph = vh::ref_trlwe_phase<P>(*c, key);
        for (uint32_t i = 0; i < P::n; i += (i == 0 || i + 2 >= P::n) ? 1 : std::min<uint32_t>(step, P::n - 2 - i + 0u ? P::n - 2 - i : 1)) {
            for (auto &x : *t) x = vh::edge<T>(r);
            SampleExtractIndex<P>(*t, *c, i);
            const T got = vh::ref_phase<P>(*t, key);
            if (got != ph[i]) fail(std::string("extract:") + L, "index %u: phase %llx, coefficient of the polynomial phase %llx", i, (unsigned long long)got, (unsigned long long)ph[i]);
            // embedding back
            for (auto &p : *back) randpoly<P>(p, r);
            InvSampleExtractIndex<P>(*back, *t, i);
            const auto bp = vh::ref_trlwe_phase<P>(*back, key);
            if (bp[i] != got) fail(std::string("embed:") + L, "index %u: phase %llx expected %llx", i, (unsigned long long)bp[i], (unsigned long long)got);
            for (uint32_t j = 0; j < P::n; j++) if (j != i && (*back)[P::k][j] != 0) { fail(std::string("embed-body:") + L, "index %u: body coefficient %u is not zero", i, j); break; }
            SampleExtractIndex<P>(*u, *back, i);
            if (*u != *t) fail(std::string("extract-embed:") + L, "index %u does not return the scalar ciphertext", i);
            eval(3); distinct(vh::mix(vh::hash_str(L), 99000000 + i)); tally(std::string("indices ") + L);
        }
    }
}
template <class P> void all(Rng &r, const char *L, uint32_t step) { mono<P>(r, L, step); autom<P>(r, L, step); extract<P>(r, L, step * 4); }
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    Rng r(505);
    all<Small1>(r, "n16", 1); extract<Small1>(r, "n16", 1);
    all<Small3>(r, "n32k3", 1); extract<Small3>(r, "n32k3", 1);
    all<Mid2>(r, "n512k2", 1);
    all<lvl1param>(r, "lvl1", 1);
    all<lvl2param>(r, "lvl2", vh::thorough ? 1 : 3);
    note("every exponent 0..2N and every odd index at n=16,32,512,1024");
    return vh::finish();
}
