// C18: concurrent use gives the sequential bits and has no race (the same program is built with the race detector).
#include "ops.hpp"
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/unordered_map.hpp>
#include <cereal/types/vector.hpp>
#include <chrono>
#include <pthread.h>
#include <sstream>
#include <unistd.h>
extern "C" void omp_set_num_threads(int);
using namespace TFHEpp;
using namespace ops;
using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric;

static std::vector<Op> all;
static std::vector<std::vector<uint64_t>> base;
static std::unique_ptr<World> w;
static int SETS;
static std::atomic<uint64_t> running{0}, peak{0}, overlaps{0};
struct Busy {
    Busy() { const uint64_t n = ++running; if (n > 1) overlaps++; uint64_t p = peak; while (n > p && !peak.compare_exchange_weak(p, n)) {} }
    ~Busy() { running--; }
};
struct Task { std::function<void()> f; };
static void *run(void *p) { (*(std::function<void()> *)p)(); return nullptr; }
static void threads(std::vector<std::function<void()>> &f)
{
    std::vector<pthread_t> t(f.size());
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 96u << 20);
    for (size_t i = 0; i < f.size(); i++) if (pthread_create(&t[i], &a, run, &f[i])) abort();
    for (auto &x : t) pthread_join(x, nullptr);
    pthread_attr_destroy(&a);
}
static void one(size_t op, int set, const char *where, Rng &r)
{
    V x; x.salt = set; x.pr = Rng(r.next()); x.poison = r.below(3); x.verify = r.below(4) == 0;
    uint64_t h;
    { Busy b; h = all[op].run(x, *w); }
    eval(); tally("concurrent evaluations");
    if (h != base[op][set]) fail("result:" + all[op].name, "%s gives another result %s than alone", all[op].name.c_str(), where);
    if (x.touched) fail("modified:" + all[op].name, "an operand changed during concurrent evaluation");
}
template <class P> void encdec(const Key<P> &key, Rng &r, std::mutex &m, std::unordered_set<uint64_t> &masks)
{
    const bool b = r.bit();
    const auto c = tlweSymEncrypt<P>(b ? P::μ : -P::μ, P::α, key);
    for (int i = 0; i < 40; i++) if (std::abs((std::make_signed_t<typename P::T>)CenteredBinomial<P>(3)) > 3) fail("noise", "concurrent centred binomial noise out of range");
    const bool d = tlweSymDecrypt<P>(c, key);
    const auto pv = bootsSymEncrypt<P>({1, 0, 1, 1, 0}, key);
    const auto dv = bootsSymDecrypt<P>(pv, key);
    eval(6); tally("concurrent encryptions", 6);
    if (d != b) fail("encrypt", "a concurrent encryption decrypts to the other bit");
    if (dv != std::vector<uint8_t>{1, 0, 1, 1, 0}) fail("encrypt-vector", "a concurrent vector encryption decrypts wrongly");
    uint64_t h[6];
    for (int i = 0; i < 6; i++) { const auto &e = i ? pv[i - 1] : c; h[i] = 9; for (int j = 0; j < 8; j++) h[i] = vh::mix(h[i], e[j]); }
    std::lock_guard<std::mutex> g(m);
    for (auto x : h) { distinct(x); if (!masks.insert(x).second) fail("freshness", "two concurrent encryptions share their mask"); }
}
template <class P> void encring(const Key<P> &key, Rng &r)
{
    Polynomial<P> m;
    for (auto &x : m) x = r.bit() ? P::μ : -P::μ;
    const auto c = trlweSymEncrypt<P>(m, P::α, key);
    const auto d = trlweSymDecrypt<P>(c, key);
    for (uint32_t i = 0; i < P::n; i++) if (d[i] != (m[i] == (typename P::T)P::μ)) { fail("encrypt-ring", "a concurrent ring encryption decrypts wrongly"); break; }
    Polynomial<P> one = {};
    one[0] = 1;
    TRLWE<P> o;
    trgswfftExternalProduct<P>(o, c, trgswfftSymEncrypt<P>(one, P::α, key));
    const auto e = trlweSymDecrypt<P>(o, key);
    for (uint32_t i = 0; i < P::n; i++) if (e[i] != d[i]) { fail("encrypt-gadget", "a product with a concurrently encrypted 1 decrypts wrongly"); break; }
    eval(2); tally("concurrent encryptions", 2);
}
// a sample of the elements of a generated switching key
template <class K> void check_iksk(const KeySwitchingKey<K> &k, const Key<typename K::domainP> &d, const Key<typename K::targetP> &z, Rng &r, const char *name)
{
    using Q = typename K::targetP;
    for (int i = 0; i < 60; i++) {
        const size_t a = i < 2 ? (i ? k.size() - 1 : 0) : r.below(k.size()), j = r.below(K::t), u = r.below(k[0][0].size());
        const auto want = (typename Q::T)((uint64_t)((int64_t)(std::make_signed_t<typename K::domainP::T>)d[a] * (int64_t)(u + 1)) << (std::numeric_limits<typename Q::T>::digits - (j + 1) * K::basebit));
        if (std::fabs(vh::tdist<typename Q::T>(vh::ref_phase<Q>(k[a][j][u], z), want)) > 8 * Q::α + std::ldexp(2.0, -std::numeric_limits<typename Q::T>::digits)) fail(std::string("keygen:") + name, "element %zu,%zu,%zu of a concurrently generated key is wrong", a, j, u);
    }
    eval(60);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const std::string mode = argc > 1 ? argv[1] : "small";  // small | big | race
    const bool big = mode == "big", race = mode == "race";
    w = std::make_unique<World>(big, 0, !race || vh::thorough);
    all = catalogue(big, !race || vh::thorough);
    if (big) std::erase_if(all, [](auto &o) { return o.weight < 2 && o.name.find("lvlh") == std::string::npos && o.name.find("lvl2") == std::string::npos; });
    SETS = race ? 1 : 2;
    base.assign(all.size(), std::vector<uint64_t>(SETS));
    // alone (the small catalogue strictly one after another)
    vh::parallel(mode == "small" ? 1 : 8, 8, [&](size_t t) {
        for (size_t i = t; i < all.size(); i += mode == "small" ? 1 : 8) for (int s = 0; s < SETS; s++) { V x; x.salt = s; x.verify = false; base[i][s] = all[i].run(x, *w); }
    });
    for (auto &b : base) for (auto x : b) distinct(x);
    const uint64_t keys = w->digest();
    std::mutex m;
    std::unordered_set<uint64_t> masks;
    const auto t0 = std::chrono::steady_clock::now();
    auto lap = [&](const char *what) { note("%s after %.1f s", what, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); };
    const double T = vh::thorough ? 20 : 1;
    // every operation from several threads at once
    {
        const size_t n = race ? 4 : 12;
        std::vector<std::function<void()>> f;
        for (size_t t = 0; t < n; t++) f.push_back([&, t] {
            vh::thread(5000 + t);
            Rng r(600 + t);
            for (size_t i = 0; i < all.size(); i++) {
                const size_t o = (i + (race ? 0 : t % 3)) % all.size();
                if (all[o].weight >= 4 && t >= 4 && !vh::thorough) continue;
                if (race && !vh::thorough && o % 2 != t / 2) continue;  // two threads each
                if (r.below(8) == 0) usleep(r.below(300));
                one(o, r.below(SETS), "beside the same operation", r);
            }
        });
        threads(f);
    }
    lap("same operation done");
    // mixed: evaluation, encryption, key generation, serialisation
    {
        std::vector<std::function<void()>> f;
        const size_t n = race ? 4 : 10;
        std::vector<size_t> cheap;
        for (size_t i = 0; i < all.size(); i++) if (all[i].weight < 4) cheap.push_back(i);
        const double limit = (race ? 6 : 4) * T;
        const auto deadline = std::chrono::steady_clock::now() + std::chrono::duration<double>(limit);
        for (size_t t = 0; t < n; t++) f.push_back([&, t, deadline] {
            vh::thread(6000 + t);
            Rng r(700 + t);
            while (std::chrono::steady_clock::now() < deadline) {
                switch (r.below(8)) {
                case 0: encdec<lvl0param>(w->sk.key.lvl0, r, m, masks); break;
                case 1: encdec<lvl1param>(w->sk.key.lvl1, r, m, masks); break;
                case 2: encdec<lvl2param>(w->sk.key.lvl2, r, m, masks); break;
                case 3: if (r.bit()) encring<lvl1param>(w->sk.key.lvl1, r); else encring<lvl2param>(w->sk.key.lvl2, r); break;
                default: { Busy b; one(cheap[r.below(cheap.size())], r.below(SETS), "beside other operations", r); }
                }
                if (r.below(16) == 0) usleep(r.below(500));
            }
        });
        // generators of further keys on shared secret keys
        f.push_back([&] {
            vh::thread(6900); Rng r(80);
            auto e = std::make_unique<EvalKey>(w->sk);
            e->emplaceiksk<lvl10param>(w->sk);
            check_iksk<lvl10param>(*e->iksklvl10, w->sk.key.lvl1, w->sk.key.lvl0, r, "iksklvl10");
            tally("concurrent key generations");
        });
        f.push_back([&] {
            vh::thread(6901); Rng r(81);
            auto e = std::make_unique<EvalKey>(w->sk);
            e->emplacebkfft<lvl01param>(w->sk);
            for (int i = 0; i < 4; i++) {
                const bool a = r.bit(), b = r.bit();
                TLWE<lvl0param> ca = tlweSymEncrypt<lvl0param>(a ? lvl0param::μ : -lvl0param::μ, lvl0param::α, w->sk.key.lvl0), cb = tlweSymEncrypt<lvl0param>(b ? lvl0param::μ : -lvl0param::μ, lvl0param::α, w->sk.key.lvl0), c;
                e->iksklvl10 = w->ek.iksklvl10;
                HomNAND<lvl01param, lvl1param::μ, lvl10param>(c, ca, cb, *e);
                if (tlweSymDecrypt<lvl0param>(c, w->sk.key.lvl0) != !(a && b)) fail("keygen:bkfftlvl01", "a gate with a concurrently generated key is wrong");
                eval();
            }
            tally("concurrent key generations");
        });
        f.push_back([&] {
            vh::thread(6902);
            for (int i = 0; i < 2; i++) {
                auto s = std::make_unique<SecretKey>();
                for (auto x : s->key.lvl0) if (x > 1) { fail("keygen:SecretKey", "element outside the key alphabet"); break; }
                auto r1 = std::make_unique<relinKeyFFT<lvl1param>>(relinKeyFFTgen<lvl1param>(s->key.lvl1));
                tally("concurrent key generations", 2);
            }
            // a container that shares keys in use is saved meanwhile
            EvalKey e;
            e.iksklvl10 = w->ek.iksklvl10;
            std::ostringstream o;
            { cereal::PortableBinaryOutputArchive ar(o); ar(e); }
            EvalKey g;
            std::istringstream is(o.str());
            { cereal::PortableBinaryInputArchive ar(is); ar(g); }
            if (content(*g.iksklvl10) != content(*w->ek.iksklvl10)) fail("serialise", "a key saved during use differs");
            tally("concurrent saves");
        });
        threads(f);
    }
    lap("mixed done");
    // threads that come and go, also below others
    {
        const double limit = race ? 4 : 3;
        const auto deadline = std::chrono::steady_clock::now() + std::chrono::duration<double>(limit * T);
        std::vector<std::function<void()>> f;
        for (size_t t = 0; t < (race ? 3 : 8); t++) f.push_back([&, t, deadline] {
            Rng r(800 + t);
            for (int gen = 0; std::chrono::steady_clock::now() < deadline; gen++) {
                std::vector<std::function<void()>> g;
                for (size_t u = 0, n = 1 + r.below(3); u < n; u++) {
                    const uint64_t s = r.next();
                    g.push_back([&, s] {
                        Rng q(s);
                        vh::thread(100000 + (s & 0xffffff));
                        for (int k = 1 + q.below(3); k--;) {
                            size_t o = q.below(all.size());
                            if (all[o].weight >= 4) o = q.below(all.size());
                            one(o, q.below(SETS), "on a short-lived thread", q);
                        }
                    });
                }
                threads(g);
                tally("threads created and ended", g.size());
            }
        });
        threads(f);
    }
    lap("short-lived done");
    // parallel regions with any number of threads
    if (!race) {
        for (int n : {1, 2, 3, 5, 8, 16}) {
            std::vector<std::function<void()>> f = {[&, n] {
                omp_set_num_threads(n);
                Rng r(900 + n);
                for (size_t i = 0; i < all.size(); i++)
                    if (all[i].name.find("HomDecomp") == 0 || r.below(12) == 0) one(i, r.below(SETS), "with another number of threads in parallel regions", r);
                encdec<lvl1param>(w->sk.key.lvl1, r, m, masks);
                if (mode == "small") {
                    auto e = std::make_unique<EvalKey>(w->sk);
                    e->emplaceiksk<lvl10param>(w->sk);
                    check_iksk<lvl10param>(*e->iksklvl10, w->sk.key.lvl1, w->sk.key.lvl0, r, "iksklvl10");
                    std::vector<uint8_t> p(997);
                    for (auto &x : p) x = r.bit();
                    if (bootsSymDecrypt<lvl0param>(bootsSymEncrypt<lvl0param>(p, w->sk.key.lvl0), w->sk.key.lvl0) != p) fail("encrypt-vector", "with %d threads", n);
                    eval();
                }
                tally("thread counts of parallel regions");
            }};
            threads(f);
        }
    }
    lap("regions done");
    if (w->digest() != keys) fail("keys", "a shared key or input changed");
    tally("evaluations that overlapped another", overlaps);
    metric("evaluations in progress at once (most)", (double)peak);
    tally("operations", all.size());
    return vh::finish();
}
