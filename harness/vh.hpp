// Common runtime of the monitors: seeded choice, counters, violation records,
// exact reference models and noise statistics.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <limits>
#include <map>
#include <memory>
#include <functional>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vh {
extern uint64_t seed;
extern bool thorough, light;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t salt) { s = (seed + 1) * 0x9E3779B97F4A7C15ull ^ salt * 0xD1B54A32D192ED03ull; next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * 0x1.0p-53; }
    bool bit() { return next() >> 63; }
};

void init(int argc, char **argv);
void thread(uint64_t id);  // gives this thread its own reproducible entropy (call before anything random)
// runs f(0..n-1) on threads with large stacks
void parallel(size_t n, size_t width, const std::function<void(size_t)> &f);
// Records a violation. key identifies what fails (stable across runs).
void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed(const std::string &key);
void eval(uint64_t n = 1);                      // executions observed
void distinct(uint64_t hash);                   // a non-trivial case
void tally(const std::string &name, uint64_t n = 1);
void metric(const std::string &name, double v);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int finish();

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
template <class C>
uint64_t hash_bytes(const C &c)
{
    const unsigned char *p = reinterpret_cast<const unsigned char *>(&c);
    size_t n = sizeof(C);
    uint64_t h = 1469598103934665603ull ^ n;
    while (n >= 8) { uint64_t w; std::memcpy(&w, p, 8); h = mix(h, w); p += 8; n -= 8; }
    for (size_t i = 0; i < n; i++) h = mix(h, p[i]);
    return h;
}
inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 77;
    for (unsigned char c : s) h = mix(h, c);
    return h;
}

template <class T>
inline double tdist(T a, T b)  // signed torus difference a-b, in torus units
{
    using S = std::make_signed_t<T>;
    return std::ldexp(static_cast<double>(static_cast<S>(static_cast<T>(a - b))), -std::numeric_limits<T>::digits);
}
template <class T>
inline T dtot(double d)  // real to torus
{
    d -= std::floor(d);
    if constexpr (sizeof(T) == 8) {
        long double x = static_cast<long double>(d) * 18446744073709551616.0L;
        return static_cast<uint64_t>(x >= 18446744073709551615.0L ? 0 : x);
    } else
        return static_cast<T>(static_cast<uint64_t>(std::llround(std::ldexp(d, std::numeric_limits<T>::digits))));
}

struct Stat {
    uint64_t n = 0;
    double sum = 0, sq = 0, mx = 0, q4 = 0;
    void add(double x)
    {
        n++; sum += x; sq += x * x; q4 += x * x * x * x;
        if (std::fabs(x) > mx) mx = std::fabs(x);
    }
    void add(const Stat &o) { n += o.n; sum += o.sum; sq += o.sq; q4 += o.q4; mx = std::max(mx, o.mx); }
    double mean() const { return n ? sum / n : 0; }
    double rms() const { return n ? std::sqrt(sq / n) : 0; }
    double kurt() const { return sq > 0 ? q4 * n / (sq * sq) : 0; }
};

// Noise bound on a population: rms <= up*sigma, max <= maxs*sigma (+abs), and,
// when lo>0, rms >= lo*sigma.
bool check_noise(const std::string &key, const Stat &s, double sigma, double lo, double up, double maxs, double abs = 0);

// ---------------------------------------------------------------- exact ring
// c = a*b mod X^n+1 with b small (signed) coefficients, modulo 2^w of T.
template <class T>
void negacyclic(T *c, const T *a, const T *b, size_t n)
{
    using W = std::conditional_t<sizeof(T) < 4, uint32_t, T>;
    std::vector<T> ext(2 * n);  // ext[i] = coefficient i-n.. of X^.. a, so that inner loop is contiguous
    for (size_t i = 0; i < n; i++) { ext[i] = static_cast<T>(-static_cast<W>(a[i])); ext[n + i] = a[i]; }
    std::vector<W> acc(n, 0);
    for (size_t j = 0; j < n; j++) {
        const W bj = b[j];
        if (bj == 0) continue;
        const T *e = &ext[n - j];
        if (b[j] == static_cast<T>(1))
            for (size_t i = 0; i < n; i++) acc[i] += static_cast<W>(e[i]);
        else if (b[j] == static_cast<T>(-1))
            for (size_t i = 0; i < n; i++) acc[i] -= static_cast<W>(e[i]);
        else
            for (size_t i = 0; i < n; i++) acc[i] += static_cast<W>(e[i]) * bj;
    }
    for (size_t i = 0; i < n; i++) c[i] = static_cast<T>(acc[i]);
}

template <class P, class C, class K>
typename P::T ref_phase(const C &c, const K &key)
{
    using W = std::conditional_t<sizeof(typename P::T) < 4, uint32_t, typename P::T>;
    W ph = c[P::k * P::n];
    for (size_t i = 0; i < P::k * P::n; i++) ph -= static_cast<W>(c[i]) * static_cast<W>(key[i]);
    return static_cast<typename P::T>(ph);
}
template <class P, class C, class K>
std::array<typename P::T, P::n> ref_trlwe_phase(const C &c, const K &key)
{
    std::array<typename P::T, P::n> ph = c[P::k], t;
    for (size_t k = 0; k < P::k; k++) {
        negacyclic<typename P::T>(t.data(), c[k].data(), &key[k * P::n], P::n);
        for (size_t i = 0; i < P::n; i++) ph[i] -= t[i];
    }
    return ph;
}
template <class P>
int nb_sigma_key()  // second moment of a key coefficient times 1000
{
    double s = 0; int c = 0;
    for (int v = P::key_value_min; v <= P::key_value_max; v++) { s += v * v; c++; }
    return static_cast<int>(1000 * s / c);
}
template <class P> double key_var()
{
    double s = 0; int c = 0;
    for (int v = P::key_value_min; v <= P::key_value_max; v++) { s += double(v) * v; c++; }
    return s / c;
}
template <class P> double key_mean()
{
    double s = 0; int c = 0;
    for (int v = P::key_value_min; v <= P::key_value_max; v++) { s += v; c++; }
    return s / c;
}
// interesting torus words
template <class T>
T edge(Rng &r)
{
    constexpr int w = std::numeric_limits<T>::digits;
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return static_cast<T>(-1);
    case 2: return static_cast<T>(T(1) << (w - 1));
    case 3: return static_cast<T>((T(1) << (w - 1)) - 1);
    case 4: return static_cast<T>(T(1) << r.below(w));
    case 5: return static_cast<T>((T(1) << r.below(w)) - 1);
    case 6: return static_cast<T>(-(T(1) << r.below(w)));
    default: return static_cast<T>(r.next());
    }
}
}  // namespace vh
