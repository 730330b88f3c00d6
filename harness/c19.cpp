// C19: memory and undefined-behaviour instruments watch a workload that calls every homomorphic operation.
//   asan   : AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, checked std::array indices; operands in blocks that end with the object
//   digest : digests of every result, for builds that fill locals and heap blocks with different patterns
//   memcheck: valgrind sees the hand-written assembly as well; results are marked undefined before and must be defined afterwards
//   grow   : heap in use before and after repetitions and before and after threads
#include "ops.hpp"
#include <chrono>
#include <malloc.h>
using namespace TFHEpp;
using namespace ops;
using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric;

int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const std::string mode = argc > 1 ? argv[1] : "asan", size = argc > 2 ? argv[2] : "small";
    const bool big = size == "big", lite = mode == "memcheck" || mode == "grow" || ((mode == "asan" || mode == "digest") && big && !vh::thorough);
    auto w = std::make_unique<World>(big, 0, true, lite);
    auto all = catalogue(big);
    if (big) {  // the rest is done by the other job
        std::unordered_set<std::string> small;
        for (auto &o : catalogue(false)) small.insert(o.name);
        std::erase_if(all, [&](auto &o) { return small.count(o.name); });
    }
    if (mode == "memcheck" && !vh::thorough) std::erase_if(all, [&](auto &o) {
        // one gate of each family is enough for the shared code below it
        return (o.name.find("Hom") == 0 && o.name.find("HomMUXwo") != 0 && o.name.find("HomDecomp") != 0 && o.name.find("HomXNOR") != 0 && o.weight > 0) || o.weight >= 6;
    });
    if (mode == "asan") {
        const int sets = vh::thorough ? 12 : 2;
        if (!vh::thorough) std::erase_if(all, [](auto &o) { return o.weight == 4 && o.name.find("Hom") == 0 && o.name.find("HomDecomp") && o.name.find("XNOR") == std::string::npos && o.name.find("ORYN") == std::string::npos; });
        struct It { size_t op; int set, how; };
        std::vector<It> items;
        for (size_t i = 0; i < all.size(); i++)
            for (int s = 0; s < sets; s++) {
                if (s && all[i].weight >= 4 && !vh::thorough) continue;
                V x; x.salt = s;
                items.push_back({i, s, -1});
                if (all[i].weight < 4 || vh::thorough) items.push_back({i, s, -2});
            }
        // inputs of a special shape: zero, trivial, all ones, without body, half empty
        for (size_t i = 0; i < all.size(); i++)
            for (int s = NB; s < NI; s++) if (all[i].weight < (vh::thorough ? 6 : 3)) items.push_back({i, 1000 + s, -1});
        vh::parallel(items.size(), 8, [&](size_t j) {  // every item on a thread of its own: leaks at thread end show, too
            auto &[o, s, how] = items[j];
            V x; x.salt = s; x.exact = how == -1; x.poison = how == -1 ? 2 : 1; x.verify = false; x.pr = Rng(j);
            if (how == -2 && all[o].weight < 4) x.alias = s % 2;
            distinct(vh::mix(o, all[o].run(x, *w)));
            eval(); tally(s >= 1000 ? "operations on inputs of special shape" : how == -1 ? "operations on exact heap blocks" : "operations in place or on shared operands");
        });
    } else if (mode == "digest") {
        const int sets = vh::thorough ? 8 : 2;
        std::vector<std::vector<uint64_t>> d(all.size(), std::vector<uint64_t>(sets));
        vh::parallel(all.size() * sets, 8, [&](size_t j) {
            if (j % sets && all[j / sets].weight >= 4 && !vh::thorough) return;
            V x; x.salt = j % sets; x.verify = false; x.poison = j % sets ? 2 : 0; x.pr = Rng(j); x.exact = true;
            d[j / sets][j % sets] = all[j / sets].run(x, *w);
            eval(); distinct(d[j / sets][j % sets]);
        });
        note("digest keys %016llx", (unsigned long long)w->digest());
        const char *dir = getenv("VH_WORK");
        FILE *f = fopen((std::string(dir ? dir : ".") + "/" + argv[3] + "-" + size + ".digest").c_str(), "w");
        fprintf(f, "keys-and-inputs %016llx\n", (unsigned long long)w->digest());
        for (size_t i = 0; i < all.size(); i++) for (int s = 0; s < sets; s++) fprintf(f, "%s#%d %016llx\n", all[i].name.c_str(), s, (unsigned long long)d[i][s]);
        fclose(f);
        tally("results with filled locals", all.size() * sets);
    } else if (mode == "memcheck") {
#ifdef VH_MEMCHECK
        int part = argc > 3 ? atoi(argv[3]) : 0, parts = argc > 4 ? atoi(argv[4]) : 1;
        uint64_t undef = 0;
        std::vector<size_t> mine;
        for (size_t i = part; i < all.size(); i += parts) mine.push_back(i);
        auto one = [&](size_t i) {
            V x; x.poison = 3; x.exact = true; x.verify = false; x.salt = i;
            uint64_t h = all[i].run(x, *w);
            if (VALGRIND_CHECK_VALUE_IS_DEFINED(h)) { undef++; fail("undefined:" + all[i].name, "%s leaves or computes undefined data in its result", all[i].name.c_str()); VALGRIND_MAKE_MEM_DEFINED(&h, sizeof h); }
            distinct(vh::mix(i, h));
            eval(); tally("results checked for definedness");
        };
        for (size_t i : mine) { const auto t0 = std::chrono::steady_clock::now(); one(i); const double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (t > 2) printf("%s %.1f\n", all[i].name.c_str(), t); }
        vh::parallel(2, 2, [&](size_t t) { one(mine[t % mine.size()]); });
#endif
    } else {  // grow
        auto used = [] { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; };
        Rng r(3);
        for (size_t i = 0; i < all.size(); i++) {
            auto once = [&] { V x; x.verify = false; x.salt = 1; all[i].run(x, *w); };
            if ((all[i].weight > 6 || (all[i].weight == 4 && all[i].name.find("XNOR") == std::string::npos && all[i].name.find("HomDecomp"))) && !vh::thorough) continue;
            once();
            const size_t a = used();
            const int n = all[i].weight >= 4 ? 2 : 3;
            for (int k = 0; k < n; k++) once();
            const size_t b = used();
            eval(n);
            if (b > a + 64 * n / 2) fail("growth:" + all[i].name, "%d repetitions of %s left %zu bytes in use", n, all[i].name.c_str(), b - a);
        }
        for (int round = 0; round < 3; round++) {
            auto burst = [&] { vh::parallel(40, 4, [&](size_t t) { V x; x.verify = false; all[(t * 7 + round) % std::min<size_t>(all.size(), 60)].run(x, *w); }); };
            burst();
            const size_t a = used();
            burst(); burst();
            const size_t b = used();
            eval(80); tally("threads started and ended", 120);
            if (b > a + 65536) fail("growth:threads", "80 threads left %zu bytes in use", b - a);
        }
    }
    tally("operations", all.size());
    return vh::finish();
}
