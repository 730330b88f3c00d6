// C13: encrypted memory: reads and writes at encrypted addresses, over histories.
#include "model.hpp"
#include <mutex>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric; using vh::Stat;

static std::mutex mu;
static std::map<std::string, Stat> pop;
template <class P> const char *ln() { return std::is_same_v<P, lvl1param> ? "lvl1" : "lvl2"; }
template <class P, class A, class B>
void cmp(const std::string &key, const A &got, const B &want, double var, const std::string &how, size_t n = P::n)
{
    const double sg = std::sqrt(var);
    Stat s; double w = 0; size_t at = 0;
    for (size_t j = 0; j < n; j++) {
        const double d = vh::tdist<typename P::T>(got[j], want[j]) / sg;
        s.add(d);
        if (std::fabs(d) > w) { w = std::fabs(d); at = j; }
    }
    std::lock_guard<std::mutex> g(mu);
    pop[key].add(s);
    if (w > 8.5) fail(key, "%s: coefficient %zu is %.1f predicted standard deviations (2^%.1f) off", how.c_str(), at, w, std::log2(sg));
}
template <class P> void randring(TRLWE<P> &c, Rng &r, int cls, const Key<P> &key)
{
    for (auto &p : c) for (auto &x : p) x = cls == 1 ? vh::edge<typename P::T>(r) : (typename P::T)r.next();
    if (cls == 2) {
        Polynomial<P> m;
        for (auto &x : m) x = r.bit() ? (typename P::T)P::μ : (typename P::T)-P::μ;
        c = trlweSymEncrypt<P>(m, key);
    }
}
template <class P, uint32_t ab>
struct Addr {
    std::array<std::array<TRGSWFFT<P>, ab>, 2> sel;  // [1]: the bits, [0]: their complements
};
template <class P, uint32_t ab>
void address(Addr<P, ab> &a, uint32_t v, const Key<P> &key)
{
    Polynomial<P> one = {}, zero = {};
    one[0] = 1;
    for (uint32_t i = 0; i < ab; i++) {
        const bool b = v >> i & 1;
        a.sel[1][i] = trgswfftSymEncrypt<P>(b ? one : zero, key);
        a.sel[0][i] = trgswfftSymEncrypt<P>(b ? zero : one, key);
    }
}
// every address, arbitrary contents
template <class P, uint32_t ab>
void ram(uint64_t salt, int rounds)
{
    Rng r(salt);
    const std::string L = std::string(ln<P>()) + " " + std::to_string(ab) + " address bits";
    auto key = std::make_unique<Key<P>>();
    for (auto &x : *key) x = (typename P::T)(P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1));
    const double ep = vh::epvar<P>(2, P::α * P::α);
    auto mem = std::make_unique<std::array<TRLWE<P>, 1u << ab>>();
    auto a = std::make_unique<Addr<P, ab>>();
    auto res = std::make_unique<TRLWE<P>>(), w = std::make_unique<TRLWE<P>>();
    for (int it = 0; it < rounds; it++) {
        for (auto &c : *mem) if (ab <= 6 || !it || r.below(8) == 0) randring<P>(c, r, (it + (ab > 6)) % 3, *key);
        const uint32_t v = ab > 6 && it ? (it <= (int)ab ? (1u << (ab - it)) + r.below(1u << (ab - it)) : r.below(1u << ab)) : it < (1 << ab) ? it : r.below(1 << ab);
        address<P, ab>(*a, v, *key);
        for (auto &p : *res) p.fill((typename P::T)0x5a);
        const auto before = vh::hash_bytes(*mem);
        RAMUX<P, ab>(*res, a->sel[0], *mem);
        if (vh::hash_bytes(*mem) != before) fail("read-writes:" + L, "reading changed the memory");
        cmp<P>("read:" + L, vh::ref_trlwe_phase<P>(*res, *key), vh::ref_trlwe_phase<P>((*mem)[v], *key), ab * ep, "reading address " + std::to_string(v));
        eval(); distinct(vh::hash_bytes(*res)); tally("reads");
        // a write visits every cell
        randring<P>(*w, r, (it + 1) % 3, *key);
        const auto ph = vh::ref_trlwe_phase<P>(*w, *key);
        for (uint32_t i = 0; i < (1u << ab); i++) {
            if (ab > 6 ? i != v && (i ^ v) != 1u << (it % ab) && r.below((1u << ab) / 6) : (1u << ab) > 16 && i != v && r.below(4)) continue;
            for (auto &p : *res) p.fill((typename P::T)0x5a);
            RAMwriteBar<P, ab>(*res, *w, (*mem)[i], i, a->sel);
            const auto got = vh::ref_trlwe_phase<P>(*res, *key);
            if (i == v) cmp<P>("write:" + L, got, ph, ab * ep, "writing address " + std::to_string(v));
            else cmp<P>("write-other:" + L, got, vh::ref_trlwe_phase<P>((*mem)[i], *key), ab * ep, "cell " + std::to_string(i) + " while writing address " + std::to_string(v));
            eval(); tally("cell updates");
        }
    }
}
template <class P, uint32_t ab, uint32_t wb>
void rom(uint64_t salt, int rounds)
{
    Rng r(salt);
    const std::string L = std::string(ln<P>()) + " " + std::to_string(ab) + " address bits, " + std::to_string(wb) + " in the ring";
    auto key = std::make_unique<Key<P>>();
    for (auto &x : *key) x = (typename P::T)(P::key_value_min + (int)r.below(P::key_value_max - P::key_value_min + 1));
    const double ep = vh::epvar<P>(2, P::α * P::α);
    auto a = std::make_unique<Addr<P, ab>>();
    auto res = std::make_unique<TRLWE<P>>();
    constexpr uint32_t word = 1u << (P::nbit - wb);
    std::vector<TLWE<P>> out(word);
    for (int it = 0; it < rounds; it++) {
        const uint32_t v = it == 0 ? 0 : it == 1 ? (1u << ab) - 1 : it < 2 + (int)ab ? 1u << (it - 2) : r.below(1u << ab);
        address<P, ab>(*a, v, *key);
        double depth = 0;
        uint32_t cell = 0;
        if constexpr (ab > wb) {
            auto mem = std::make_unique<std::array<TRLWE<P>, 1u << (ab - wb)>>();
            for (auto &c : *mem) randring<P>(c, r, it % 3, *key);
            for (auto &p : *res) p.fill((typename P::T)0x5a);
            cell = v >> wb;
            const auto before = vh::hash_bytes(*mem);
            UROMUX<P, ab, wb>(*res, a->sel[0], *mem);
            if (vh::hash_bytes(*mem) != before) fail("rom-read-writes:" + L, "reading changed the memory");
            cmp<P>("rom-vertical:" + L, vh::ref_trlwe_phase<P>(*res, *key), vh::ref_trlwe_phase<P>((*mem)[cell], *key), (ab - wb) * ep, "address " + std::to_string(v));
            eval(); distinct(vh::hash_bytes(*res)); tally("vertical reads");
        } else
            randring<P>(*res, r, it % 3, *key);
        const auto ph = vh::ref_trlwe_phase<P>(*res, *key);
        for (auto &c : out) c.fill((typename P::T)0x99);
        LROMUX<P, ab, wb>(out, a->sel[1], *res);
        std::vector<typename P::T> got(word);
        for (uint32_t i = 0; i < word; i++) got[i] = vh::ref_phase<P>(out[i], *key);
        const uint32_t low = v & ((1u << wb) - 1);
        cmp<P>("rom-horizontal:" + L, got, &ph[low * word], wb * ep, "address " + std::to_string(v), word);
        eval(); distinct(vh::hash_bytes(out[0])); tally("horizontal reads"); (void)depth;
    }
}
// a memory of bits, used through bootstrapped addresses, compared with an array
template <uint32_t ab>
void history(const SecretKey &sk, const EvalKey &ek, uint64_t salt, int ops)
{
    using P = lvl1param;
    Rng r(salt);
    const auto z = sk.key.get<P>();
    const std::string L = "history of " + std::to_string(ab) + " address bits";
    constexpr uint32_t size = 1u << ab;
    auto mem = std::make_unique<std::array<TRLWE<P>, size>>();
    std::vector<bool> model(size);
    const P::T m = (P::T)P::μ;
    for (uint32_t i = 0; i < size; i++) {
        model[i] = r.bit();
        Polynomial<P> p;
        p.fill(model[i] ? m : -m);
        (*mem)[i] = trlweSymEncrypt<P>(p, z);
    }
    auto a = std::make_unique<Addr<P, ab>>();
    auto res = std::make_unique<TRLWE<P>>(), w = std::make_unique<TRLWE<P>>();
    auto enc = [&](bool b) { return tlweSymEncrypt<P>(b ? m : -m, z); };
    // noise of one selection with a bootstrapped selector
    const double pv = vh::privksvar<lvl21param>(1), bv = vh::brvar<lvl02param>();
    const double ep = P::k * P::l * P::n * vh::digit2<P>() * (pv + bv * vh::key_var<P>()) + P::l * P::n * vh::digit2<P>() * pv + P::l * vh::digit2<P>() * bv + 2 * vh::dropvar<P>();
    const double cellvar = vh::brvar<lvl01param>();
    uint32_t last = 0;
    for (int it = 0; it < ops; it++) {
        const uint32_t v = r.below(3) == 0 ? last : r.below(size);
        last = v;
        const bool wr = r.bit(), data = r.bit();
        vh::parallel(ab, 4, [&](size_t i) { CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>(a->sel[1][i], a->sel[0][i], enc(v >> i & 1), ek); });
        RAMUX<P, ab>(*res, a->sel[0], *mem);
        TLWE<P> out;
        SampleExtractIndex<P>(out, *res, 0);
        const double ph = vh::tor<P::T>(vh::ref_phase<P>(out, z));
        const double d = (ph - (model[v] ? 0.125 : -0.125)) / std::sqrt(ab * ep + cellvar);
        { std::lock_guard<std::mutex> g(mu); pop["history:" + L].add(d); }
        if (std::fabs(d) > 8.5 || tlweSymDecrypt<P>(out, z) != model[v]) fail("history-read:" + L, "operation %d: address %u holds %d, read phase %.4f (%.1f predicted standard deviations off)", it, v, (int)model[v], ph, d);
        eval(); distinct(vh::hash_bytes(out)); tally("history reads");
        // writes only when the encrypted flag says so; the read value goes back otherwise
        HomMUXwoSE<lvl10param, lvl01param>(*w, enc(wr), enc(data), out, ek);
        vh::parallel(size, 8, [&](size_t i) {
            auto t = std::make_unique<TRLWE<P>>();
            RAMwriteBar<P, ab>(*t, *w, (*mem)[i], i, a->sel);
            TLWE<P> e; SampleExtractIndex<P>(e, *t, 0);
            TLWE<lvl0param> s; IdentityKeySwitch<lvl10param>(s, e, ek.getiksk<lvl10param>());
            BlindRotate<lvl01param>((*mem)[i], s, ek.getbkfft<lvl01param>(), μpolygen<P, P::μ>());
        });
        if (wr) model[v] = data;
        for (uint32_t i = 0; i < size; i++)
            if (trlweSymDecrypt<P>((*mem)[i], z)[0] != model[i]) fail("history-cell:" + L, "after operation %d (%s %d at %u) cell %u is not %d", it, wr ? "write" : "keep", data, v, i, (int)model[i]);
        eval(size); tally("history cell states", size);
    }
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const int R = vh::thorough ? 12 : 1;
    std::vector<std::function<void(uint64_t)>> w;
    w.push_back([R](uint64_t i) { ram<lvl1param, 11>(i, 12 * R); });
    w.push_back([R](uint64_t i) { ram<lvl1param, 10>(i, 10 * R); });
    w.push_back([R](uint64_t i) { ram<lvl1param, 6>(i, 8 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 18, 8>(i, 6 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 16, 7>(i, 8 * R); });
    w.push_back([R](uint64_t i) { ram<lvl2param, 3>(i, 8 * R); });
    w.push_back([R](uint64_t i) { ram<lvl1param, 4>(i, 20 * R); });
    w.push_back([R](uint64_t i) { ram<lvl1param, 2>(i, 24 * R); });
    w.push_back([R](uint64_t i) { ram<lvl1param, 3>(i, 24 * R); });
    w.push_back([R](uint64_t i) { ram<lvl2param, 2>(i, 8 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 7, 4>(i, 20 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 10, lvl1param::nbit - 3>(i, 16 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, lvl1param::nbit, lvl1param::nbit>(i, 40 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 5, 1>(i, 16 * R); });
    w.push_back([R](uint64_t i) { rom<lvl1param, 4, 2>(i, 16 * R); });
    w.push_back([R](uint64_t i) { rom<lvl2param, 8, 6>(i, 12 * R); });
    w.push_back([R](uint64_t i) { rom<lvl2param, lvl2param::nbit, lvl2param::nbit>(i, 24 * R); });
    if (vh::thorough) {
        w.push_back([](uint64_t i) { ram<lvl1param, 9>(i, 40); });
        w.push_back([](uint64_t i) { ram<lvl2param, 9>(i, 20); });
        w.push_back([](uint64_t i) { rom<lvl2param, 12, 8>(i, 40); });
        w.push_back([](uint64_t i) { rom<lvl1param, 14, 8>(i, 40); });
    }
    vh::parallel(w.size(), 8, [&](size_t i) { w[i](i + 1); });
    auto sk = std::make_unique<SecretKey>();
    EvalKey ek(*sk);
    vh::parallel(4, 4, [&](size_t i) {
        if (i == 0) ek.emplaceprivksk4cb<lvl21param>(*sk);
        else if (i == 1) ek.emplacebkfft<lvl02param>(*sk);
        else if (i == 2) ek.emplaceiksk<lvl10param>(*sk);
        else ek.emplacebkfft<lvl01param>(*sk);
    });
    history<4>(*sk, ek, 100, 14 * R);
    history<2>(*sk, ek, 101, 8 * R);
    if (vh::thorough) history<6>(*sk, ek, 102, 60);
    for (auto &[k, s] : pop) {
        metric(k + " rms/predicted", s.rms()); metric(k + " max/predicted", s.mx);
        if (s.n > 2000 && s.rms() > 1.3) fail("noise:" + k, "error rms is %.2f of the predicted noise", s.rms());
    }
    return vh::finish();
}
