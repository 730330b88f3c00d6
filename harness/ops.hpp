// Every homomorphic operation of the public interface, callable on prepared inputs with results and operands placed as the monitor likes.
#pragma once
#include "model.hpp"
#include <atomic>
#include <mutex>
#ifdef VH_MEMCHECK
#include <valgrind/memcheck.h>
#endif
namespace ops {
using namespace TFHEpp;
using vh::Rng;

// ---------------------------------------------------------------- contents (padding bytes carry nothing)
template <class X> uint64_t content(const X &x)
{
    if constexpr (std::is_floating_point_v<X>) { uint64_t v = 0; memcpy(&v, &x, sizeof x); return v; }
    else if constexpr (std::is_integral_v<X>) return (uint64_t)x;
    else if constexpr (requires { x.value; }) return x.value;
    else {
        uint64_t h = x.size() * 0x9E3779B97F4A7C15ull;
        using E = std::remove_cvref_t<decltype(x[0])>;
        if constexpr (std::is_arithmetic_v<E>) {
            const char *p = (const char *)x.data();
            size_t n = x.size() * sizeof(E);
            for (; n >= 8; n -= 8, p += 8) { uint64_t w; memcpy(&w, p, 8); h = vh::mix(h, w); }
            uint64_t w = 0; memcpy(&w, p, n); return vh::mix(h, w);
        } else { for (auto &e : x) h = vh::mix(h, content(e)); return h; }
    }
}
// ---------------------------------------------------------------- how one execution is set up
struct V {
    uint64_t salt = 0;      // which inputs
    int poison = 0;         // prior content of results: 0 zero, 1 ones, 2 random, 3 none (uninitialised)
    bool relocate = false;  // operands copied elsewhere
    bool exact = false;     // blocks of exactly the type's size and no more than its alignment
    int alias = -1;         // pass operand number alias as the result
    bool verify = true;     // check the operands afterwards
    Rng pr{1};              // places and poison
    // outcome
    int aliases = 0;
    bool touched = false;
    std::string which;
    std::vector<std::pair<void *, std::function<void(void *)>>> mem;
    struct Chk { const void *p; std::function<bool()> same; const char *name; };
    std::vector<Chk> chk;
    ~V() { for (auto &m : mem) m.second(m.first); }
    V() = default;
    V(const V &) = delete;
    template <class T> T *place()
    {
        // a block with a random offset, aligned for the type, kept until the end
        if (exact) {
            // the block starts at an odd multiple of the type's alignment and ends with the object
            const size_t off = alignof(T) < 64 ? alignof(T) : 0;
            char *b = (char *)::operator new(sizeof(T) + off, std::align_val_t(64));
            T *t = reinterpret_cast<T *>(b + off);
            mem.emplace_back(b, [t](void *q) { t->~T(); ::operator delete(q, std::align_val_t(64)); });
            return t;
        }
        const size_t slack = relocate ? 64 * pr.below(64) : 0;
        char *b = (char *)::operator new(sizeof(T) + slack + 64, std::align_val_t(64));
        if (poison == 1) memset(b, 0xff, sizeof(T) + slack);
        T *t = reinterpret_cast<T *>(b + slack / alignof(T) * alignof(T));
        mem.emplace_back(b, [t](void *q) { t->~T(); ::operator delete(q, std::align_val_t(64)); });
        return t;
    }
    template <class T> const T &in(const T &x, const char *name = "operand")
    {
        if (!verify && !relocate && !exact && alias < 0) return x;
        const T *p = &x;
        if (relocate || exact || alias >= 0) p = new (place<T>()) T(x);
        if (verify) {
            const uint64_t h = content(*p);
            chk.push_back({p, [p, h] { return content(*p) == h; }, name});
        }
        return *p;
    }
    template <class T> T &res(std::initializer_list<const T *> same = {})
    {
        aliases = std::max<int>(aliases, same.size());
        if (alias >= 0 && alias < (int)same.size()) {
            const T *p = *(same.begin() + alias);
            std::erase_if(chk, [&](auto &c) { return c.p == p; });
            return *const_cast<T *>(p);
        }
        T *t = place<T>();
        if constexpr (requires(T v) { v.resize(1); }) {
            new (t) T();
            if (poison) { t->resize(poison == 1 ? 1 : 3000); if (poison > 1) for (auto &e : *t) fillraw(&e, sizeof e); }
        } else {
            new (t) T;
            fillraw((void *)t, sizeof(T));
        }
        return *t;
    }
    static void raw_fresh(void *p, size_t n)
    {
#ifdef VH_MEMCHECK
        VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
    }
    void fillraw(void *p, size_t n)
    {
        if (poison == 3) { raw_fresh(p, n); return; }
        if (poison == 0) memset(p, 0, n);
        else if (poison == 1) memset(p, 0xff, n);
        else for (size_t i = 0; i + 2 <= n; i += 2) { const uint16_t w = pr.next() & 0xbfff; memcpy((char *)p + i, &w, 2); }
    }
    template <class T> uint64_t done(const T &r)
    {
        for (auto &c : chk) if (!c.same()) { touched = true; which = c.name; }
        return content(r);
    }
};
// ---------------------------------------------------------------- keys and inputs
constexpr int NB = 6, NI = NB + 5;  // inputs of each kind; the last five have a shape
extern thread_local int forced;      // which input every operand takes, or -1
struct World {
    SecretKey sk;
    EvalKey ek;
    std::unique_ptr<BootstrappingKeyRAINTT<lvl01param>> bkrai = std::make_unique<BootstrappingKeyRAINTT<lvl01param>>();
    std::unique_ptr<AnnihilateKey<lvl1param>> ahk1 = std::make_unique<AnnihilateKey<lvl1param>>();
    std::unique_ptr<AnnihilateKey<lvl2param>> ahk2 = std::make_unique<AnnihilateKey<lvl2param>>();
    std::unique_ptr<EvalAutoKey<lvl1param>> auto1 = std::make_unique<EvalAutoKey<lvl1param>>();
    std::unique_ptr<EvalAutoKey<lvl2param>> auto2 = std::make_unique<EvalAutoKey<lvl2param>>();
    std::unique_ptr<relinKeyFFT<lvl1param>> relin1;
    std::unique_ptr<relinKeyFFT<lvl2param>> relin2;
    std::unique_ptr<TLWE2TRLWEIKSKey<lvl11param>> t2t;
    std::unique_ptr<KeySwitchingKey<lvl11param>> iksk11;
    SecretKey subsk;
    bool big;
    std::vector<TLWE<lvl0param>> l0;
    std::vector<TLWE<lvlhalfparam>> lh;
    std::vector<TLWE<lvl1param>> l1;
    std::vector<TLWE<lvl2param>> l2;
    std::vector<TRLWE<lvl1param>> r1;
    std::vector<TRLWE<lvl2param>> r2;
    std::vector<Polynomial<lvl1param>> p1, s1;
    std::vector<Polynomial<lvl2param>> p2, s2;
    std::vector<TRGSWFFT<lvl1param>> g1;
    std::vector<TRGSWFFT<lvl2param>> g2;
    std::vector<TRGSWNTT<lvl1param>> gn1;
    std::vector<TRGSWRAINTT<lvl1param>> gr1;
    std::vector<HalfTRGSWFFT<lvl1param>> hg1;
    // lite: keys of the right shape and defined content that open nothing (for slow instruments that watch memory only)
    explicit World(bool b, uint64_t salt = 0, bool rings2 = true, bool lite = false);
    void inputs(Rng &r, bool rings2);
    uint64_t digest() const;  // every key and prepared input
    template <class P> const std::vector<TLWE<P>> &tl() const
    {
        if constexpr (std::is_same_v<P, lvl0param>) return l0; else if constexpr (std::is_same_v<P, lvlhalfparam>) return lh;
        else if constexpr (std::is_same_v<P, lvl1param>) return l1; else return l2;
    }
};
struct Op {
    std::string name;
    int weight;  // rough cost, 1 = a gate
    std::function<uint64_t(V &, const World &)> run;
};
void catalogue_base(std::vector<Op> &), catalogue_rings1(std::vector<Op> &), catalogue_rings2(std::vector<Op> &), catalogue_gates(std::vector<Op> &), catalogue_big(std::vector<Op> &);
inline std::vector<Op> catalogue(bool big, bool rings2 = true)
{
    std::vector<Op> v;
    catalogue_base(v); catalogue_rings1(v);
    if (rings2) catalogue_rings2(v);
    if (big) { catalogue_gates(v); catalogue_big(v); }
    return v;
}
}  // namespace ops
