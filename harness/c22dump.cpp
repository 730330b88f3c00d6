// Looks at one client run: secret.key, cloud.key, cloud.data (argv[1] = directory,
// argv[2] = the number typed in).  Prints one JSON object on standard output.
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/vector.hpp>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <sys/resource.h>
#include <tfhe++.hpp>
using namespace TFHEpp;
template <class A> void put(const char *n, const A &k)
{
    std::printf("\"%s\":[", n);
    for (size_t i = 0; i < k.size(); i++) std::printf("%s%lld", i ? "," : "", (long long)(std::make_signed_t<typename A::value_type>)k[i]);
    std::printf("],");
}
template <class P> double phase(const TLWE<P> &c, const Key<P> &k)
{
    typename P::T p = c[P::k * P::n];
    for (size_t i = 0; i < P::k * P::n; i++) p -= c[i] * k[i];
    return std::ldexp((double)(std::make_signed_t<typename P::T>)p, -std::numeric_limits<typename P::T>::digits);
}
int main(int argc, char **argv)
{
    const std::string d = argv[1];
    const unsigned v = std::atoi(argv[2]);
    auto sk = std::make_unique<SecretKey>();
    { std::ifstream f(d + "/secret.key", std::ios::binary); cereal::PortableBinaryInputArchive ar(f); sk->serialize(ar); }
    EvalKey ek;
    { std::ifstream f(d + "/cloud.key", std::ios::binary); cereal::PortableBinaryInputArchive ar(f); ek.serialize(ar); }
    std::vector<TLWE<lvl1param>> c;
    { std::ifstream f(d + "/cloud.data", std::ios::binary); cereal::PortableBinaryInputArchive ar(f); ar(c); }
    std::printf("{");
    put("lvl0", sk->key.lvl0); put("lvlhalf", sk->key.lvlhalf); put("lvl1", sk->key.lvl1); put("lvl2", sk->key.lvl2); put("lvl3", sk->key.lvl3);
    std::printf("\"count\":%zu,\"wrong\":[", c.size());
    int w = 0;
    for (size_t i = 0; i < c.size() && i < 16; i++) if ((phase<lvl1param>(c[i], sk->key.lvl1) > 0) != ((v >> i) & 1)) std::printf("%s%zu", w++ ? "," : "", i);
    std::printf("],\"noise\":[");
    for (size_t i = 0; i < c.size(); i++) { double p = phase<lvl1param>(c[i], sk->key.lvl1); std::printf("%s%.6g", i ? "," : "", (std::fabs(p) - 0.125) / lvl1param::α); }
    std::printf("],\"ksk\":[");
    // the key switching key: elements are multiples of the gadget plus noise
    auto &k = ek.getiksk<lvl10param>();
    bool first = true;
    for (size_t i = 0; i < k.size(); i += 17)
        for (size_t j = 0; j < lvl10param::t; j++) {
            double p = phase<lvl0param>(k[i][j][0], sk->key.lvl0) - std::ldexp((double)(std::make_signed_t<lvl1param::T>)sk->key.lvl1[i], -(int)((j + 1) * lvl10param::basebit));
            p -= std::round(p);
            std::printf("%s%.5g", first ? "" : ",", p / lvl0param::α); first = false;
        }
    std::printf("]}\n");
}
