// C19, client side: encryption, decryption, key generation, conversion and serialisation under the memory and undefined-behaviour instruments.
#include "model.hpp"
#include <cereal/archives/portable_binary.hpp>
#include <io-packet.hpp>
#include <sstream>
using namespace TFHEpp;
using vh::Rng; using vh::eval; using vh::distinct; using vh::tally; using vh::fail;
// heap objects that end where the block ends
template <class T> struct H {
    char *b; T *p;
    static constexpr size_t off = alignof(T) < 64 ? alignof(T) : 0;
    template <class... A> H(A &&...a) { b = (char *)::operator new(sizeof(T) + off, std::align_val_t(64)); p = new (b + off) T(std::forward<A>(a)...); }
    ~H() { p->~T(); ::operator delete(b, std::align_val_t(64)); }
    H(const H &) = delete;
    T &operator*() { return *p; }
};
template <class X> uint64_t sum(const X &x)
{
    if constexpr (std::is_arithmetic_v<X>) return (uint64_t)(int64_t)x;
    else if constexpr (requires { x.value; }) return x.value;
    else { uint64_t s = 0; for (auto &e : x) s += sum(e); return s; }
}
static uint64_t sink;
#define DO(...) { __VA_ARGS__; eval(); tally("client operations"); }
template <class P> void scalar(const Key<P> &k0, Rng &r)
{
    using T = typename P::T;
    H<Key<P>> k(k0);
    for (T m : {T(0), T(1), T(-1), std::numeric_limits<T>::max(), T(T(1) << (std::numeric_limits<T>::digits - 1)), (T)r.next()})
        for (double a : {P::α, 0.02, 1e-30}) {
            DO(H<TLWE<P>> c(tlweSymEncrypt<P>(m, a, *k)); sink += tlweSymPhase<P>(*c, *k) + tlweSymDecrypt<P>(*c, *k) + tlweSymIntDecrypt<P>(*c, *k))
            DO(H<TLWE<P>> c(tlweSymIntEncrypt<P>(m % (T)P::plain_modulus, a, *k)); sink += tlweSymIntDecrypt<P>(*c, *k))
            DO(sink += sum(tlweSymEncrypt<P>(m, *k)) + sum(tlweSymIntEncrypt<P>(m % (T)P::plain_modulus, *k)))
        }
    TLWE<P> e;
    for (auto &x : e) x = vh::edge<T>(r);
    DO(sink += tlweSymPhase<P>(e, *k) + tlweSymDecrypt<P>(e, *k) + tlweSymIntDecrypt<P>(e, *k))
    if constexpr (!std::is_same_v<P, lvl3param>) for (size_t n : {0, 1, 2, 33}) {
        std::vector<uint8_t> p(n);
        for (auto &x : p) x = r.below(256);
        DO(auto c = bootsSymEncrypt<P>(p, *k); c.shrink_to_fit(); sink += sum(bootsSymDecrypt<P>(c, *k)))
    }
}
template <class P> void ring(const Key<P> &k0, Rng &r)
{
    using T = typename P::T;
    H<Key<P>> k(k0);
    for (int it = 0; it < 3; it++) {
        H<Polynomial<P>> m;
        for (auto &x : *m) x = it == 0 ? vh::edge<T>(r) : it == 1 ? (T)r.next() : (T)-1;
        DO(H<TRLWE<P>> c(trlweSymEncrypt<P>(*m, P::α, *k)); sink += sum(trlwePhase<P>(*c, *k)) + sum(trlweSymDecrypt<P>(*c, *k)) + sum(trlweSymIntDecrypt<P>(*c, *k)))
        H<Polynomial<P>> mi(*m);
        for (auto &x : *mi) x %= (T)P::plain_modulus;
        DO(H<TRLWE<P>> c(trlweSymIntEncrypt<P>(*mi, 0.02, *k)); sink += sum(trlweSymIntDecrypt<P>(*c, *k)))
        DO(sink += sum(trlweSymEncrypt<P>(*m, *k)) + sum(trlweSymIntEncrypt<P>(*mi, *k)) + sum(trlweSymEncryptZero<P>(*k)) + sum(trlweSymEncryptZero<P>(0.02, *k)))
        H<TRLWE<P>> e;
        for (auto &q : *e) for (auto &x : q) x = vh::edge<T>(r);
        DO(sink += sum(trlwePhase<P>(*e, *k)) + sum(trlweSymDecrypt<P>(*e, *k)) + sum(trlweSymIntDecrypt<P>(*e, *k)))
        DO(sink += sum(trgswSymEncrypt<P>(*m, P::α, *k)) + sum(trgswSymEncrypt<P>(*m, *k)))
        DO(H<HalfTRGSW<P>> g(halftrgswSymEncrypt<P>(*m, P::α, *k)); H<HalfTRGSWFFT<P>> f(ApplyFFT2halftrgsw<P>(*g)))
        DO(H<TRGSW<P>> g(trgswSymEncrypt<P>(*m, 0.02, *k)); H<TRGSWFFT<P>> f(ApplyFFT2trgsw<P>(*g)))
        DO(H<TRGSWFFT<P>> f(trgswfftSymEncrypt<P>(*m, P::α, *k)); H<TRGSWFFT<P>> h(trgswfftSymEncrypt<P>(*m, *k)))
        DO(H<HalfTRGSWFFT<P>> f(halftrgswfftSymEncrypt<P>(*m, P::α, *k)); H<HalfTRGSWFFT<P>> h(halftrgswfftSymEncrypt<P>(*m, *k)))
        if constexpr (std::is_same_v<P, lvl1param>) {
            DO(H<TRGSW<P>> g(trgswSymEncrypt<P>(*m, P::α, *k)); H<TRGSWNTT<P>> n(ApplyNTT2trgsw<P>(*g)); H<TRGSWRAINTT<P>> q(ApplyRAINTT2trgsw<P>(*g)); sink += sum(*n))
            DO(H<TRGSWNTT<P>> n(trgswnttSymEncrypt<P>(*m, P::α, *k)); H<TRGSWRAINTT<P>> q(trgswrainttSymEncrypt<P>(*m, P::α, *k)); sink += sum(*n))
        }
        // transforms with operands at the ends of their blocks
        DO(H<PolynomialInFD<P>> f; TwistIFFT<P>(*f, *m); H<Polynomial<P>> o; TwistFFT<P>(*o, *f); if constexpr (sizeof(T) == 4) { TwistIFFTUInt<P>(*f, *m); TwistFFTrescale<P>(*o, *f); } sink += sum(*o))
        for (size_t i : {size_t(0), size_t(1), size_t(P::n / 2), size_t(P::n - 1)}) DO(H<TLWE<P>> c; SampleExtractIndex<P>(*c, *e, i); H<TRLWE<P>> o; InvSampleExtractIndex<P>(*o, *c, i); sink += sum(*o))
        for (T a : {T(0), T(1), T(P::n - 1), T(P::n), T(P::n + 1), T(2 * P::n - 1)}) DO(H<Polynomial<P>> o; PolynomialMulByXai<P>(*o, *m, a); PolynomialMulByXaiMinusOne<P>(*o, *m, a); Automorphism<P>(*o, *m, (a | 1) % (2 * P::n)); sink += sum(*o))
    }
}
template <class X> std::string save(const X &x)
{
    std::ostringstream o;
    { cereal::PortableBinaryOutputArchive a(o); const_cast<X &>(x).serialize(a); }
    return o.str();
}
template <class X> void load(X &x, const std::string &s)
{
    std::istringstream i(s);
    cereal::PortableBinaryInputArchive a(i);
    x.serialize(a);
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    Rng r(19);
    auto sk = std::make_unique<SecretKey>();
    std::vector<std::function<void()>> f = {
        [&] { Rng q(1); scalar<lvl0param>(sk->key.lvl0, q); scalar<lvlhalfparam>(sk->key.lvlhalf, q); },
        [&] { Rng q(2); scalar<lvl1param>(sk->key.lvl1, q); scalar<lvl2param>(sk->key.lvl2, q); },
        [&] { Rng q(3); scalar<lvl3param>(sk->key.lvl3, q); },
        [&] { Rng q(4); ring<lvl1param>(sk->key.lvl1, q); },
        [&] { Rng q(5); ring<lvl2param>(sk->key.lvl2, q); },
        [&] {  // secrets and containers: copies, moves, serialisation, damage
            for (int i = 0; i < 3; i++) DO(auto a = std::make_unique<SecretKey>(); auto b = std::make_unique<SecretKey>(*a); *a = *sk; SecretKey c(std::move(*b)); auto d = std::make_unique<SecretKey>(); load(*d, save(c)); sink += sum(d->key.lvl3) + sum(d->key.lvl1))
            const std::string s = save(*sk);
            for (size_t n : {size_t(0), size_t(1), s.size() / 2, s.size() - 1}) DO(SecretKey c; try { load(c, s.substr(0, n)); } catch (std::exception &) {})
            EvalKey e(*sk);
            e.emplaceiksk<lvl10param>(*sk); e.emplacebkfft<lvl01param>(*sk);
            e.emplacebk<lvl01param>(*sk); e.emplacebkntt<lvl01param>(*sk);
            DO(EvalKey c(e); EvalKey d; d = c; c = EvalKey(); EvalKey g(std::move(d)); sink += sum((*g.iksklvl10)[0][0][0]))
            EvalKey small; small.params = e.params; small.iksklvl10 = e.iksklvl10; small.bkfftlvl01 = e.bkfftlvl01;
            const std::string t = save(small);
            DO(EvalKey c; load(c, t); load(c, t); sink += sum((*c.iksklvl10)[1][0][0]))
            for (size_t n : {size_t(0), size_t(9), t.size() / 3, t.size() - 1}) DO(EvalKey c; try { load(c, t.substr(0, n)); } catch (std::exception &) {})
            IOpacket p;
            p.tlwelvl0ports["a"] = bootsSymEncrypt<lvl0param>({1, 0}, sk->key.lvl0); p.tlwelvl1ports["b"] = bootsSymEncrypt<lvl1param>({1, 0, 1}, sk->key.lvl1);
            p.trlwelvl2ports["c"].resize(1); p.trgswlvl2ports["d"].resize(1);
            for (auto &q : p.trlwelvl2ports["c"][0]) q.fill(3);
            for (auto &q : p.trgswlvl2ports["d"][0]) for (auto &z : q) z.fill(5);
            DO(IOpacket q; load(q, save(p)); load(q, save(q)); sink += sum(q.tlwelvl1ports["b"]))
            // encryption through the secret key object
            DO(auto c = bootsSymEncrypt({1, 0, 1}, *sk); sink += sum(bootsSymDecrypt(c, *sk)))
        },
        [&] {  // key generators on exactly placed objects
            DO(H<AnnihilateKey<lvl1param>> k; annihilatekeygen<lvl1param>(*k, *sk)) DO(H<EvalAutoKey<lvl1param>> k; evalautokeygen<lvl1param>(*k, 3, sk->key.lvl1))
            DO(auto k = std::make_unique<relinKeyFFT<lvl1param>>(relinKeyFFTgen<lvl1param>(sk->key.lvl1)); auto q = std::make_unique<relinKey<lvl1param>>(relinKeygen<lvl1param>(sk->key.lvl1)); sink += sum(*q))
            DO(H<EvalAutoKey<lvl2param>> k; evalautokeygen<lvl2param>(*k, 5, sk->key.lvl2))
            DO(auto k = std::make_unique<relinKeyFFT<lvl2param>>(relinKeyFFTgen<lvl2param>(sk->key.lvl2)))
            DO(H<KeySwitchingKey<lvl1hparam>> k; ikskgen<lvl1hparam>(*k, *sk); sink += sum((*k)[0]))
        },
        [&] { DO(H<BootstrappingKeyFFT<lvlh1param>> k; bkfftgen<lvlh1param>(*k, *sk)) DO(H<BootstrappingKeyNTT<lvl01param>> k; bknttgen<lvl01param>(*k, *sk)) },
        [&] { DO(H<BootstrappingKeyRAINTT<lvl01param>> k; bkrainttgen<lvl01param>(*k, *sk)) DO(H<BootstrappingKey<lvl01param>> k; bkgen<lvl01param>(*k, *sk)) },
        [&] { DO(H<KeySwitchingKey<lvl21param>> k; ikskgen<lvl21param>(*k, *sk); sink += sum((*k)[0])) },
        [&] { DO(H<SubsetKeySwitchingKey<lvl21param>> k; subikskgen<lvl21param>(*k, sk->key.lvl2); sink += sum((*k)[0])) },
    };
    if (vh::thorough) {
        f.push_back([&] { DO(H<TLWE2TRLWEIKSKey<lvl11param>> k; tlwe2trlweikskgen<lvl11param>(*k, *sk); sink += sum((*k)[0])) });
        f.push_back([&] { Polynomial<lvl1param> p = {}; p[0] = 1; DO(H<PrivateKeySwitchingKey<lvl11param>> k; privkskgen<lvl11param>(*k, p, *sk); sink += sum((*k)[0])) });
        f.push_back([&] { Polynomial<lvl1param> p = {}; p[0] = 1; DO(H<PrivateKeySwitchingKey<lvl21param>> k; privkskgen<lvl21param>(*k, p, *sk); sink += sum((*k)[0])) });
        f.push_back([&] { Polynomial<lvl1param> p = {}; p[0] = 1; DO(H<SubsetPrivateKeySwitchingKey<lvl21param>> k; subprivkskgen<lvl21param>(*k, p, *sk); sink += sum((*k)[0])) });
        f.push_back([&] { DO(H<BootstrappingKeyFFT<lvl02param>> k; bkfftgen<lvl02param>(*k, *sk)) });
        f.push_back([&] { DO(H<KeySwitchingKey<lvl31param>> k; ikskgen<lvl31param>(*k, *sk); sink += sum((*k)[0])) });
        f.push_back([&] { DO(H<KeySwitchingKey<lvl22param>> k; ikskgen<lvl22param>(*k, *sk); sink += sum((*k)[0])) });
    }
    vh::parallel(f.size(), 8, [&](size_t i) { f[i](); });
    distinct(sink);
    return vh::finish();
}
