// C16: every serialisable type, every optional part, every truncation.
#include "model.hpp"
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/unordered_map.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/string.hpp>
#include <atomic>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
using namespace TFHEpp;
using vh::Rng; using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric;

// ---------------------------------------------------------------- streams
struct OutBuf : std::streambuf {
    std::vector<char> b;
    int_type overflow(int_type c) override { b.push_back((char)c); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { b.insert(b.end(), s, s + n); return n; }
};
struct InBuf : std::streambuf {
    InBuf(const char *p, size_t n) { setg((char *)p, (char *)p, (char *)p + n); }
};
template <class X> std::vector<char> save(const X &x, size_t hint = 0)
{
    OutBuf o;
    o.b.reserve(hint);
    std::ostream os(&o);
    cereal::PortableBinaryOutputArchive ar(os);
    const_cast<X &>(x).serialize(ar);
    return std::move(o.b);
}
template <class X> concept Member = requires(X x, cereal::PortableBinaryOutputArchive &a) { x.serialize(a); };
template <class X> std::vector<char> save_any(const X &x, size_t hint = 0)
{
    OutBuf o;
    o.b.reserve(hint);
    std::ostream os(&o);
    { cereal::PortableBinaryOutputArchive ar(os); ar(x); }
    return std::move(o.b);
}
template <class X> size_t load_any(X &x, const std::vector<char> &b, size_t len)
{
    InBuf i(b.data(), len);
    std::istream is(&i);
    cereal::PortableBinaryInputArchive ar(is);
    ar(x);
    return i.in_avail() > 0 ? i.in_avail() : 0;
}
template <class X> void truncate(const std::string &key, const std::vector<char> &b, Rng &r, int random)
{
    std::vector<size_t> cuts;
    const size_t n = b.size();
    for (size_t i = 0; i < std::min<size_t>(n, 48); i++) cuts.push_back(i);
    for (size_t i = 1; i <= 24 && i <= n; i++) cuts.push_back(n - i);
    for (int i = 0; i < random; i++) cuts.push_back(r.below(n));
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    for (size_t c : cuts) {
        auto y = std::make_unique<X>();
        bool threw = false;
        try { load_any(*y, b, c); } catch (const std::exception &) { threw = true; }
        eval(); tally("truncations");
        if (!threw) fail("truncated:" + key, "loading the first %zu of %zu bytes reported no error", c, n);
    }
}
// plain data: std::array nests
template <class X> void fill(X &x, Rng &r)
{
    unsigned char *p = (unsigned char *)&x;
    if (r.below(8) == 0) { memset(p, r.bit() ? 0xff : 0, sizeof(X)); return; }
    for (size_t i = 0; i + 8 <= sizeof(X); i += 8) { const uint64_t v = r.next(); memcpy(p + i, &v, 8); }
    for (size_t i = sizeof(X) & ~7ull; i < sizeof(X); i++) p[i] = r.next();
}
// leaves of nested arrays (ciphertext types may have padding bytes, which carry nothing)
template <class X> uint64_t content(const X &x)
{
    if constexpr (std::is_floating_point_v<X>) { uint64_t v = 0; memcpy(&v, &x, sizeof x); return v; }
    else if constexpr (std::is_integral_v<X>) return (uint64_t)x;
    else if constexpr (requires { x.value; }) return x.value;
    else { uint64_t h = x.size(); for (auto &e : x) h = vh::mix(h, content(e)); return h; }
}
template <class X> bool same_content(const X &x, const X &y)
{
    if constexpr (std::is_arithmetic_v<X>) return !memcmp(&x, &y, sizeof x);
    else if constexpr (requires { x.value; }) return x.value == y.value;
    else {
        using E = std::remove_cvref_t<decltype(x[0])>;
        if constexpr (std::is_arithmetic_v<E>) return x.size() == y.size() && !memcmp(x.data(), y.data(), x.size() * sizeof(E));
        else { for (size_t i = 0; i < x.size(); i++) if (!same_content(x[i], y[i])) return false; return true; }
    }
}
template <class X> void flip(X &x, Rng &r, int where)
{
    if constexpr (std::is_arithmetic_v<X>) ((unsigned char *)&x)[r.below(sizeof x)] ^= 1 << r.below(7);
    else if constexpr (requires { x.value; }) x.value ^= 1ull << r.below(64);
    else flip(x[where == 0 ? 0 : where == 1 ? x.size() - 1 : r.below(x.size())], r, where);
}
template <class X> void fill_fd(X &x, Rng &r)  // doubles: finite
{
    fill(x, r);
    uint64_t *p = (uint64_t *)&x;
    for (size_t i = 0; i < sizeof(X) / 8; i++) p[i] = (p[i] & 0xbfffffffffffffffull);
}
template <class X> void pod(const std::string &key, Rng &r, bool fd = false)
{
    for (int it = 0; it < 3; it++) {
        auto x = std::make_unique<X>(), y = std::make_unique<X>();
        fd ? fill_fd(*x, r) : fill(*x, r);
        fill_fd(*y, r);
        const auto b = save_any(*x);
        if (b != save_any(*x)) fail("bytes:" + key, "two saves of one object differ");
        size_t left = 0;
        try { left = load_any(*y, b, b.size()); } catch (const std::exception &e) { fail("load:" + key, "%s", e.what()); continue; }
        eval(); distinct(content(*x)); tally("round trips");
        if (left) fail("load:" + key, "loading leaves %zu bytes", left);
        if (!same_content(*x, *y)) fail("equal:" + key, "the loaded object differs");
        if (save_any(*y) != b) fail("resave:" + key, "saving the loaded object gives other bytes");
        for (int k = 0; k < 6; k++) {
            auto z = std::make_unique<X>(*x);
            flip(*z, r, k);
            if (save_any(*z) == b) fail("lossy:" + key, "a change of an element is not saved");
        }
        if (!it) truncate<X>(key, b, r, 30);
    }
}
// vectors of plain data
template <class X> void vec(const std::string &key, Rng &r, size_t n)
{
    std::vector<X> x(n), y(3);
    for (auto &e : x) fill(e, r);
    const auto b = save_any(x);
    load_any(y, b, b.size());
    eval(); tally("round trips"); distinct(vh::hash_str(key) + n + r.s);
    if (x != y) fail("equal:" + key, "the loaded vector of %zu differs", n);
    if (save_any(y) != b || save_any(x) != b) fail("resave:" + key, "saving again gives other bytes");
    if (n) truncate<std::vector<X>>(key, b, r, 20);
}

// ---------------------------------------------------------------- parameters
// each field of a parameter description, by name
#define FIELDS(F) F(lvl0.n) F(lvl0.α) F(lvl0.approx_bit) F(lvl1.nbit) F(lvl1.n) F(lvl1.l) F(lvl1.Bgbit) F(lvl1.Bg) F(lvl1.α) F(lvl1.approx_bit) \
    F(lvl2.nbit) F(lvl2.n) F(lvl2.l) F(lvl2.Bgbit) F(lvl2.Bg) F(lvl2.approx_bit) F(lvl10.t) F(lvl10.basebit) F(lvl10.α) F(lvl20.t) F(lvl20.basebit) F(lvl20.α) \
    F(lvl21.t) F(lvl21.basebit) F(lvl22.t) F(lvl22.basebit)
template <class V> V other(V v, int how, Rng &r)
{
    if constexpr (std::is_floating_point_v<V>) return how == 0 ? std::nextafter(v, V(2)) : how == 1 ? -v : how == 2 ? 0 : r.unit() * (r.bit() ? 1 : 1e-300);
    else return how == 0 ? v + 1 : how == 1 ? v - 1 : how == 2 ? v ^ (V(1) << (sizeof(V) * 8 - 1)) : (V)r.next() ^ 1 ^ ((V)r.next() & 1);
}
static std::string fields(const lweParams &p)
{
    std::string s;
    char b[64];
#define F(x) snprintf(b, 64, "%a ", (double)p.x); s += b;
    FIELDS(F)
#undef F
    return s;
}
static void roundtrip_params(const std::string &key, const lweParams &p, Rng &r)
{
    const auto b = save_any(p);
    lweParams q;
    // start from different contents
#define F(x) q.x = other(q.x, 3, r);
    FIELDS(F)
#undef F
    if (load_any(q, b, b.size())) fail("load:lweParams", "bytes are left");
    if (fields(p) != fields(q)) fail("equal:lweParams", "%s is not restored:\n %s\n %s", key.c_str(), fields(p).c_str(), fields(q).c_str());
    if (!(p == q) || p != q) fail("compare:lweParams", "the loaded description with changed %s does not compare equal to the saved one", key.c_str());
    if (save_any(q) != b) fail("resave:lweParams", "other bytes");
    eval(); tally("round trips"); distinct(vh::hash_str(fields(p)));
    // and inside the objects that carry it
    auto sk = std::make_unique<SecretKey>(), sk2 = std::make_unique<SecretKey>();
    sk->params = p;
    const auto c = save_any(*sk);
    load_any(*sk2, c, c.size());
    if (fields(sk2->params) != fields(p) || !(sk2->params == p)) fail("equal:SecretKey.params", "%s", key.c_str());
    EvalKey e, e2;
    e.params = p;
    const auto d = save_any(e);
    load_any(e2, d, d.size());
    if (fields(e2.params) != fields(p)) fail("equal:EvalKey.params", "%s", key.c_str());
    EvalKey e3(*sk);
    if (fields(e3.params) != fields(p)) fail("equal:EvalKey(SecretKey).params", "%s", key.c_str());
}
template <class X> void portable(const char *key, const X &cur, Rng &r)
{
    if constexpr (Member<X>) {
        X a = cur, b = cur;
        const auto x = save_any(a);
        load_any(b, x, x.size());
        if (!(a == b)) fail(std::string("equal:") + key, "not restored");
        truncate<X>(key, x, r, 0);
    }
}
static void params(Rng &r)
{
    const lweParams cur;
    // the description records the parameters in force
#define W(x, v) if (cur.x != (v)) fail("current:" #x, "recorded as %g, configured %g", (double)cur.x, (double)(v)); eval();
    W(lvl0.n, lvl0param::n) W(lvl0.α, lvl0param::α) W(lvl0.approx_bit, std::numeric_limits<lvl0param::T>::digits)
    W(lvl1.nbit, lvl1param::nbit) W(lvl1.n, lvl1param::n) W(lvl1.l, lvl1param::l) W(lvl1.Bgbit, lvl1param::Bgbit) W(lvl1.Bg, lvl1param::Bg) W(lvl1.α, lvl1param::α)
    W(lvl1.approx_bit, std::numeric_limits<lvl1param::T>::digits)
    W(lvl2.nbit, lvl2param::nbit) W(lvl2.n, lvl2param::n) W(lvl2.l, lvl2param::l) W(lvl2.Bgbit, lvl2param::Bgbit) W(lvl2.Bg, lvl2param::Bg)
    W(lvl2.approx_bit, std::numeric_limits<lvl2param::T>::digits)
    W(lvl10.t, lvl10param::t) W(lvl10.basebit, lvl10param::basebit) W(lvl10.α, lvl0param::α) W(lvl20.t, lvl20param::t) W(lvl20.basebit, lvl20param::basebit) W(lvl20.α, lvl0param::α)
    W(lvl21.t, lvl21param::t) W(lvl21.basebit, lvl21param::basebit) W(lvl22.t, lvl22param::t) W(lvl22.basebit, lvl22param::basebit)
#undef W
    if (!(cur == lweParams())) fail("compare:lweParams", "two descriptions of the current parameters differ");
    roundtrip_params("nothing", cur, r);
    const auto b = save_any(cur);
    for (int how = 0; how < 4; how++) {
#define F(x) { lweParams p = cur; p.x = other(p.x, how, r); if (p.x != cur.x) { \
        if (p == cur || cur == p || !(p != cur)) fail("compare:" #x, "descriptions that differ in it compare equal"); \
        if (save_any(p) == b) fail("lossy:" #x, "a change is not saved"); tally("parameter changes"); \
        roundtrip_params(#x, p, r); } }
        FIELDS(F)
#undef F
    }
    for (int i = 0; i < 20; i++) {
        lweParams p;
#define F(x) p.x = other(p.x, 3, r);
        FIELDS(F)
#undef F
        roundtrip_params("everything", p, r);
    }
    truncate<lweParams>("lweParams", b, r, 60);
    portable("lvl0", cur.lvl0, r); portable("lvl1", cur.lvl1, r); portable("lvl2", cur.lvl2, r);
    portable("lvl10", cur.lvl10, r); portable("lvl20", cur.lvl20, r); portable("lvl21", cur.lvl21, r); portable("lvl22", cur.lvl22, r);
}
// ---------------------------------------------------------------- secret key
static bool same(const SecretKey &a, const SecretKey &b)
{
    return a.key.lvl0 == b.key.lvl0 && a.key.lvlhalf == b.key.lvlhalf && a.key.lvl1 == b.key.lvl1 && a.key.lvl2 == b.key.lvl2 && a.key.lvl3 == b.key.lvl3 && fields(a.params) == fields(b.params);
}
static void secret(Rng &r)
{
    for (int it = 0; it < 12; it++) {
        auto a = std::make_unique<SecretKey>(), b = std::make_unique<SecretKey>();
        if (it >= 3) { fill(a->key.lvl0, r); fill(a->key.lvlhalf, r); fill(a->key.lvl1, r); fill(a->key.lvl2, r); fill(a->key.lvl3, r); }
        const auto x = save_any(*a);
        if (load_any(*b, x, x.size())) fail("load:SecretKey", "bytes are left");
        eval(); tally("round trips"); distinct(vh::hash_bytes(a->key));
        if (!same(*a, *b)) fail("equal:SecretKey", "the loaded key differs");
        if (save_any(*b) != x || save_any(*a) != x) fail("resave:SecretKey", "other bytes");
        if (b->key.get<lvl0param>() != a->key.lvl0 || b->key.get<lvlhalfparam>() != a->key.lvlhalf || b->key.get<lvl1param>() != a->key.lvl1 || b->key.get<lvl2param>() != a->key.lvl2 || b->key.get<lvl3param>() != a->key.lvl3)
            fail("get:SecretKey", "get<P>() of the loaded key is another level's");
        for (int k = 0; k < 10; k++) {
            auto c = std::make_unique<SecretKey>(*a);
            const size_t i = r.next();
            switch (k % 5) {
            case 0: c->key.lvl0[k < 5 ? lvl0param::n - 1 : i % lvl0param::n] ^= 1; break;
            case 1: c->key.lvlhalf[k < 5 ? lvlhalfparam::n - 1 : i % lvlhalfparam::n] ^= 1; break;
            case 2: c->key.lvl1[k < 5 ? c->key.lvl1.size() - 1 : i % c->key.lvl1.size()] ^= 1; break;
            case 3: c->key.lvl2[k < 5 ? c->key.lvl2.size() - 1 : i % c->key.lvl2.size()] ^= 1; break;
            case 4: c->key.lvl3[k < 5 ? c->key.lvl3.size() - 1 : i % c->key.lvl3.size()] ^= 1; break;
            }
            if (save_any(*c) == x) fail("lossy:SecretKey", "a changed element of key %d is not saved", k % 5);
        }
        if (it == 0 || it == 5) truncate<SecretKey>("SecretKey", x, r, 200);
    }
}
// ---------------------------------------------------------------- packets
static std::string name(Rng &r)
{
    switch (r.below(6)) {
    case 0: return "";
    case 1: return std::string("a\0b", 3) + std::to_string(r.below(9));
    case 2: return "ポート" + std::to_string(r.below(99));
    case 3: return std::string(300 + r.below(4000), 'x') + std::to_string(r.below(9));
    default: return "port" + std::to_string(r.below(1000));
    }
}
template <class M> void ports(M &m, Rng &r, size_t entries, size_t len)
{
    for (size_t i = 0; i < entries; i++) {
        auto &v = m[name(r)];
        v.resize(r.below(len + 1));
        for (auto &e : v) fill(e, r);
    }
}
static bool same(const IOpacket &a, const IOpacket &b)
{
    return a.tlwelvl0ports == b.tlwelvl0ports && a.tlwelvl1ports == b.tlwelvl1ports && a.trlwelvl2ports == b.trlwelvl2ports && a.trgswlvl2ports == b.trgswlvl2ports && a.numCycles == b.numCycles;
}
static void packets(Rng &r)
{
    for (int it = 0; it < (vh::thorough ? 300 : 80); it++) {
        auto a = std::make_unique<IOpacket>(), b = std::make_unique<IOpacket>();
        const int parts = it < 16 ? it : r.below(16);  // which kinds are present
        const size_t ent = it < 32 ? 1 : 1 + r.below(5);
        if (parts & 1) ports(a->tlwelvl0ports, r, ent, 5);
        if (parts & 2) ports(a->tlwelvl1ports, r, ent, 5);
        if (parts & 4) ports(a->trlwelvl2ports, r, ent, 3);
        if (parts & 8) ports(a->trgswlvl2ports, r, ent, 2);
        if (it) a->numCycles = it % 3 ? r.next() : it % 2 ? 0 : 0xffffffffu;
        if (it % 2) { ports(b->tlwelvl0ports, r, 2, 3); ports(b->tlwelvl1ports, r, 2, 3); ports(b->trlwelvl2ports, r, 1, 1); ports(b->trgswlvl2ports, r, 1, 1); b->numCycles = r.next(); }
        const auto x = save_any(*a);
        if (load_any(*b, x, x.size())) fail("load:IOpacket", "bytes are left");
        eval(); tally("round trips"); tally("packets"); distinct(vh::mix(x.size(), r.s));
        if (!same(*a, *b)) fail("equal:IOpacket", "parts %d: the loaded packet differs", parts);
        if (save_any(*a) != x) fail("bytes:IOpacket", "two saves of one packet differ");
        const auto y = save_any(*b);
        if (y.size() != x.size() || (ent == 1 && y != x)) fail("resave:IOpacket", "saving the loaded packet gives other bytes");
        // any change shows
        IOpacket c = *a;
        switch (it % 5) {
        case 0: c.numCycles ^= 1u << r.below(32); break;
        case 1: c.tlwelvl0ports["new"]; break;
        case 2: c.tlwelvl1ports["new"]; break;
        case 3: c.trlwelvl2ports["new"]; break;
        case 4: c.trgswlvl2ports["new"]; break;
        }
        if (save_any(c) == x) fail("lossy:IOpacket", "change %d is not saved", it % 5);
        if (it < 16 || it % 10 == 0) truncate<IOpacket>("IOpacket", x, r, 40);
    }
}
// ---------------------------------------------------------------- evaluation keys
#define PTRS(F) F(bklvl01) F(bklvlh1) F(bklvl02) F(bklvlh2) F(bkfftlvl01) F(bkfftlvlh1) F(bkfftlvl02) F(bkfftlvlh2) F(bknttlvl01) F(bknttlvlh1) F(bknttlvl02) F(bknttlvlh2) \
    F(iksklvl10) F(iksklvl1h) F(iksklvl20) F(iksklvl2h) F(iksklvl21) F(iksklvl22) F(iksklvl31) F(subiksklvl21)
#define MAPS(F) F(privksklvl11) F(privksklvl21) F(privksklvl22) F(subprivksklvl21)
template <class X> void *raw(size_t &n) { n = sizeof(X); return nullptr; }
// large objects are filled by several threads with words that depend on their place
static void bigfill(void *p, size_t n, uint64_t salt)
{
    vh::parallel(8, 8, [&](size_t t) {
        uint64_t *w = (uint64_t *)p;
        const size_t m = n / 8;
        for (size_t i = t * m / 8; i < (t + 1) * m / 8; i++) w[i] = ((i + 1) * 0x9E3779B97F4A7C15ull ^ (salt * 0xD1B54A32D192ED03ull)) & 0xbfffffffffffffffull;
    });
    for (size_t i = n & ~7ull; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(salt + i);
}
template <class X> bool bigsame(const X &a, const X &b)
{
    std::atomic<bool> ok{true};
    const size_t n = a.size();
    vh::parallel(8, 8, [&](size_t t) { for (size_t i = n * t / 8; i < n * (t + 1) / 8; i++) if (!same_content(a[i], b[i])) ok = false; });
    return ok;
}
template <class X> std::shared_ptr<X> fresh(uint64_t salt)
{
    std::shared_ptr<X> p(std::make_unique_for_overwrite<X>());
    bigfill(p.get(), sizeof(X), salt);
    return p;
}
struct Part { std::string name; size_t size; std::function<void(EvalKey &, uint64_t)> put; };
static std::vector<Part> parts()
{
    std::vector<Part> v;
#define F(x) v.push_back({#x, sizeof(*EvalKey().x), [](EvalKey &e, uint64_t s) { e.x = fresh<std::remove_cvref_t<decltype(*e.x)>>(s); }});
    PTRS(F)
#undef F
#define F(x) v.push_back({#x, sizeof(*EvalKey().x[""]), [](EvalKey &e, uint64_t s) { e.x["f" + std::to_string(s)] = fresh<std::remove_cvref_t<decltype(*e.x[""])>>(s); }});
    MAPS(F)
#undef F
    return v;
}
// field by field comparison; sharing between fields included
static std::string diff(const EvalKey &a, const EvalKey &b)
{
    if (fields(a.params) != fields(b.params)) return "params";
    std::vector<std::pair<const void *, const void *>> seen;
    auto cmp = [&](const auto &p, const auto &q) {
        if (!p != !q) return false;
        if (!p) return true;
        seen.emplace_back(p.get(), q.get());
        return bigsame(*p, *q);
    };
#define F(x) if (!cmp(a.x, b.x)) return #x + std::string(!a.x ? " (absent before)" : !b.x ? " (absent after)" : "");
    PTRS(F)
#undef F
#define F(x) if (a.x.size() != b.x.size()) return #x " (number of entries)"; \
    for (auto &[n, p] : a.x) { auto it = b.x.find(n); if (it == b.x.end()) return #x "/" + n + " (absent after)"; if (!cmp(p, it->second)) return #x "/" + n; }
    MAPS(F)
#undef F
    for (auto &s : seen) for (auto &t : seen) if ((s.first == t.first) != (s.second == t.second)) return "sharing";
    return "";
}
// destination object already holding something in every light part
static void occupy(EvalKey &e)
{
    e.iksklvl10 = fresh<KeySwitchingKey<lvl10param>>(77);
    e.bklvl01 = fresh<BootstrappingKey<lvl01param>>(78);
    e.privksklvl21["old"];
    e.subprivksklvl21["old"];
    e.privksklvl11["old"];
    e.privksklvl22["old"];
    e.params.lvl0.n = 9;
}
static void evalkey_one(const Part &p, Rng &r, bool occupied)
{
    EvalKey a, b;
    const uint64_t salt = r.below(1000000);
    p.put(a, salt);
    if (occupied) occupy(b);
    const auto x = save_any(a, p.size + 4096);
    size_t left = 0;
    try { left = load_any(b, x, x.size()); } catch (const std::exception &e) { fail("load:EvalKey." + p.name, "%s", e.what()); return; }
    eval(); tally("round trips"); tally("evaluation key megabytes", p.size >> 20); distinct(vh::hash_str(p.name) + salt);
    if (left) fail("load:EvalKey." + p.name, "loading leaves %zu bytes", left);
    if (x.size() < p.size * 9 / 10) fail("lossy:EvalKey." + p.name, "%zu bytes saved of %zu", x.size(), p.size);
    const auto d = diff(a, b);
    if (!d.empty()) fail("equal:EvalKey." + p.name, "after loading a key holding only %s, %s differs", p.name.c_str(), d.c_str());
    if (p.size < (600u << 20) || vh::thorough) { if (save_any(b, x.size()) != x) fail("resave:EvalKey." + p.name, "saving again gives other bytes"); }
    a = EvalKey(); b = EvalKey();
    std::vector<size_t> cuts = {x.size() - 1, x.size() - 8, r.below(x.size()), x.size() / 2, 4};
    if (p.size < (40u << 20)) for (int i = 0; i < 20; i++) cuts.push_back(r.below(x.size()));
    if (p.size > (300u << 20)) cuts = {x.size() - 1, 100 + r.below(1u << 20)};
    for (size_t c : cuts) {
        EvalKey t;
        bool threw = false;
        try { load_any(t, x, c); } catch (const std::exception &) { threw = true; }
        eval(); tally("truncations");
        if (!threw) fail("truncated:EvalKey." + p.name, "loading the first %zu of %zu bytes reported no error", c, x.size());
    }
}
static void evalkeys(Rng &r, int shard)
{
    auto all = parts();
    // the heavy ones side by side
    std::vector<Part> mine;
    size_t load[4] = {};
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.size > b.size; });
    for (auto &p : all) {
        const int s = std::min_element(load, load + 4) - load;
        load[s] += p.size;
        if (shard < 0 || s == shard) mine.push_back(p);
    }
    if (shard <= 0) {
        EvalKey a, b;
        occupy(b);
        const auto x = save_any(a);
        if (load_any(b, x, x.size())) fail("load:EvalKey", "bytes are left");
        const auto d = diff(a, b);
        if (!d.empty()) fail("equal:EvalKey", "loading an empty key over another leaves %s", d.c_str());
        truncate<EvalKey>("EvalKey", x, r, 100);
    }
    int n = 0;
    for (auto &p : mine) evalkey_one(p, r, (n++ + shard) % 2);
    if (shard >= 0) return;
}
static void combinations(Rng &r)
{
    auto all = parts();
    // null entries, several names, shared objects, combinations
    for (int it = 0; it < (vh::thorough ? 30 : 6); it++) {
        EvalKey a, b;
        size_t total = 0;
        for (auto &p : all)
            if (r.below(3) == 0 && p.size < (200u << 20)) { p.put(a, r.below(100000)); total += p.size; }
        if (it % 2) { a.privksklvl21["nothing"]; a.privksklvl11[""]; a.subprivksklvl21["nothing"]; a.privksklvl22["n"]; }
        if (it % 3 == 1 && a.bklvl01) a.bklvlh1.reset();
        if (it == 0) {  // one object under two names, two objects under similar names
            a.subprivksklvl21["x"] = fresh<SubsetPrivateKeySwitchingKey<lvl21param>>(5);
            a.subprivksklvl21["y"] = a.subprivksklvl21["x"];
        }
        if (it == 1) {
            a.privksklvl11["privksk4cb_0"] = fresh<PrivateKeySwitchingKey<lvl11param>>(6);
            a.privksklvl11["privksk4cb_1"] = fresh<PrivateKeySwitchingKey<lvl11param>>(7);
        }
        a.params.lvl1.l = it + 2;
        if (it % 2) occupy(b);
        const auto x = save_any(a, total + (1u << 20));
        if (load_any(b, x, x.size())) fail("load:EvalKey combination", "bytes are left");
        const auto d = diff(a, b);
        if (!d.empty()) fail("equal:EvalKey combination", "%s differs after loading", d.c_str());
        if (save_any(a, x.size()) != x) fail("bytes:EvalKey", "two saves of one key differ");
        eval(); tally("round trips"); tally("combinations"); distinct(x.size() + r.s);
    }
}
// ---------------------------------------------------------------- another process, and use
static uint64_t digest(const EvalKey &e, const SecretKey &sk, const IOpacket &io)
{
    uint64_t h = vh::hash_str(fields(e.params));
#define F(x) h = vh::mix(h, e.x ? content(*e.x) : 11);
    PTRS(F)
#undef F
#define F(x) { uint64_t s = 0; for (auto &[n, p] : e.x) s += vh::mix(vh::hash_str(n), p ? content(*p) : 5); h = vh::mix(h, s + e.x.size()); }
    MAPS(F)
#undef F
    h = vh::mix(h, vh::hash_bytes(sk.key)); h = vh::mix(h, vh::hash_str(fields(sk.params)));
    for (auto *m : {&io.tlwelvl0ports}) for (auto &[n, v] : *m) for (auto &c : v) h += vh::mix(vh::hash_str(n), content(c));
    for (auto &[n, v] : io.tlwelvl1ports) for (auto &c : v) h += vh::mix(vh::hash_str(n) + 1, content(c));
    return vh::mix(h, io.numCycles);
}
static uint64_t use(const EvalKey &e, const SecretKey &sk, const IOpacket &io)
{
    uint64_t h = 0;
    const auto &a = io.tlwelvl1ports.at("a")[0], &b = io.tlwelvl1ports.at("a")[1];
    const auto &c = io.tlwelvl0ports.at("b")[0], &d = io.tlwelvl0ports.at("b")[1];
    TLWE<lvl1param> x; TLWE<lvl0param> y;
    HomNAND(x, a, b, e); h = vh::mix(h, content(x)); h = vh::mix(h, tlweSymDecrypt<lvl1param>(x, sk.key.lvl1));
    HomXOR(y, c, d, e); h = vh::mix(h, content(y)); h = vh::mix(h, tlweSymDecrypt<lvl0param>(y, sk.key.lvl0));
    GateBootstrappingTLWE2TLWENTT<lvl01param>(x, c, *e.bknttlvl01, μpolygen<lvl1param, lvl1param::μ>()); h = vh::mix(h, content(x));
    auto z = std::make_unique<TLWE<lvlhalfparam>>();
    IdentityKeySwitch<lvl1hparam>(*z, a, *e.iksklvl1h); h = vh::mix(h, content(*z));
    return h;
}
template <class X> void to_file(const std::string &f, const X &x) { std::ofstream o(f, std::ios::binary); cereal::PortableBinaryOutputArchive ar(o); ar(x); }
template <class X> void from_file(const std::string &f, X &x) { std::ifstream i(f, std::ios::binary); cereal::PortableBinaryInputArchive ar(i); ar(x); }
static void child(const std::string &dir)
{
    auto sk = std::make_unique<SecretKey>();
    EvalKey e; IOpacket io;
    from_file(dir + "/sk", *sk); from_file(dir + "/ek", e); from_file(dir + "/io", io);
    printf("DIGEST %016llx %016llx\n", (unsigned long long)digest(e, *sk, io), (unsigned long long)use(e, *sk, io));
    fflush(stdout);
}
static void process(const char *self, Rng &r)
{
    auto sk = std::make_unique<SecretKey>();
    EvalKey e(*sk), e2;
    e.emplacebkfft<lvl01param>(*sk); e.emplacebkntt<lvl01param>(*sk); e.emplaceiksk<lvl10param>(*sk); e.emplaceiksk<lvl1hparam>(*sk);
    IOpacket io, io2;
    for (int i = 0; i < 2; i++) {
        io.tlwelvl1ports["a"].push_back(tlweSymEncrypt<lvl1param>(r.bit() ? lvl1param::μ : -lvl1param::μ, lvl1param::α, sk->key.lvl1));
        io.tlwelvl0ports["b"].push_back(tlweSymEncrypt<lvl0param>(r.bit() ? lvl0param::μ : -lvl0param::μ, lvl0param::α, sk->key.lvl0));
    }
    io.numCycles = 77;
    const uint64_t d = digest(e, *sk, io), u = use(e, *sk, io);
    auto sk2 = std::make_unique<SecretKey>();
    { auto b = save_any(e); load_any(e2, b, b.size()); b = save_any(*sk); load_any(*sk2, b, b.size()); b = save_any(io); load_any(io2, b, b.size()); }
    if (digest(e2, *sk2, io2) != d) fail("use:digest", "the loaded objects differ");
    if (use(e2, *sk2, io2) != u) fail("use:results", "evaluation with the loaded objects gives other results");
    const std::string dir = "c16-files";
    if (system(("mkdir -p " + dir).c_str())) abort();
    to_file(dir + "/sk", *sk); to_file(dir + "/ek", e); to_file(dir + "/io", io);
    for (int round = 0; round < 2; round++) {
        FILE *f = popen((std::string(self) + " child " + dir + " --out /dev/null").c_str(), "r");
        char line[200]; unsigned long long cd = 0, cu = 0;
        while (fgets(line, 200, f)) sscanf(line, "DIGEST %llx %llx", &cd, &cu);
        const int rc = pclose(f);
        if (rc) fail("process:exit", "loading in another process ended with status %d", rc);
        else if (cd != d) fail("process:digest", "the objects loaded in another process differ");
        else if (cu != u) fail("process:results", "evaluation in another process gives other results");
        eval(2); tally("other processes");
    }
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    if (argc > 2 && std::string(argv[1]) == "child") { child(argv[2]); return 0; }
    Rng r(16);
    const std::string part = argc > 1 && argv[1][0] != '-' ? argv[1] : "";
    if (part.rfind("keys", 0)) {
        params(r);
        secret(r);
        packets(r);
        process(argv[0], r);
#define POD(X, ...) pod<X>(#X)
#define L(P) pod<Key<P>>("Key " #P, r); pod<TLWE<P>>("TLWE " #P, r);
        L(lvl0param) L(lvlhalfparam) L(lvl1param) L(lvl2param) L(lvl3param)
#undef L
#define L(P) pod<Polynomial<P>>("Polynomial " #P, r); pod<TRLWE<P>>("TRLWE " #P, r); pod<TRLWE3<P>>("TRLWE3 " #P, r); pod<TRGSW<P>>("TRGSW " #P, r); pod<HalfTRGSW<P>>("HalfTRGSW " #P, r); \
        pod<PolynomialInFD<P>>("PolynomialInFD " #P, r, true); pod<TRLWEInFD<P>>("TRLWEInFD " #P, r, true); pod<TRGSWFFT<P>>("TRGSWFFT " #P, r, true); pod<HalfTRGSWFFT<P>>("HalfTRGSWFFT " #P, r, true); \
        pod<TRLWENTT<P>>("TRLWENTT " #P, r); pod<TRGSWNTT<P>>("TRGSWNTT " #P, r); pod<relinKey<P>>("relinKey " #P, r); pod<relinKeyFFT<P>>("relinKeyFFT " #P, r, true); \
        pod<EvalAutoKey<P>>("EvalAutoKey " #P, r, true); pod<AnnihilateKey<P>>("AnnihilateKey " #P, r, true);
        L(lvl1param) L(lvl2param)
#undef L
        pod<TRGSWRAINTT<lvl1param>>("TRGSWRAINTT lvl1param", r); pod<cuHEpp::INTorus>("INTorus", r); pod<BootstrappingKeyElement<lvl01param>>("BootstrappingKeyElement", r); pod<BootstrappingKeyElementFFT<lvl01param>>("BootstrappingKeyElementFFT", r, true);
        for (size_t n : {0, 1, 2, 17}) {
            vec<TLWE<lvl0param>>("vector TLWE lvl0", r, n); vec<TLWE<lvl1param>>("vector TLWE lvl1", r, n); vec<TLWE<lvl2param>>("vector TLWE lvl2", r, n);
            vec<TLWE<lvlhalfparam>>("vector TLWE lvlhalf", r, n); vec<TRLWE<lvl1param>>("vector TRLWE lvl1", r, n); vec<TRGSW<lvl1param>>("vector TRGSW lvl1", r, n > 2 ? 3 : n);
        }
        combinations(r);
        if (part == "small") return vh::finish();
    }
    evalkeys(r, part.size() > 4 ? part[4] - '0' : -1);
    return vh::finish();
}
