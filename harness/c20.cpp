// C20: the same inputs give the same bits, whatever came before, wherever things lie, in place or not, and no operand is modified.
#include "ops.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace TFHEpp;
using namespace ops;
using vh::fail; using vh::eval; using vh::distinct; using vh::tally; using vh::note; using vh::metric;

// leaves a pattern where the next call's locals will be
__attribute__((noinline)) static void scribble(int pattern, Rng &r)
{
    constexpr size_t n = 24u << 20;
    volatile unsigned char *p = (volatile unsigned char *)__builtin_alloca(n);
    unsigned char c[4096];
    for (auto &x : c) x = pattern == 0 ? 0 : pattern == 1 ? 0xff : r.next();
    for (size_t i = 0; i < n; i += sizeof c) memcpy((void *)(p + i), c, std::min(sizeof c, n - i));
    asm volatile("" ::"r"(p) : "memory");
}
int main(int argc, char **argv)
{
    vh::init(argc, argv);
    const bool big = argc > 1 && std::string(argv[1]) == "big";
    auto w = std::make_unique<World>(big);
    auto all = catalogue(big);
    if (big) {  // the rest is done by the other job
        std::unordered_set<std::string> small;
        for (auto &o : catalogue(false)) small.insert(o.name);
        std::erase_if(all, [&](auto &o) { return small.count(o.name); });
    }
    const uint64_t before = w->digest();
    // a second set of keys and inputs: a process of its own computes every operation on it before anything else,
    // this one after everything was computed under the first keys
    auto other = std::make_unique<World>(big, 1, true, true);
    const int osets = 2;
    auto onother = [&](size_t j) { V x; x.salt = 100 + j % osets; x.verify = false; return all[j / osets].run(x, *other); };
    int fd[2];
    if (pipe(fd)) return 3;
    const pid_t child = fork();
    if (child == 0) {
        std::vector<uint64_t> h(all.size() * osets);
        vh::parallel(h.size(), 8, [&](size_t j) { h[j] = onother(j); });
        const char *p = (const char *)h.data();
        for (size_t n = h.size() * 8, k; n; n -= k, p += k) if ((ssize_t)(k = write(fd[1], p, n)) <= 0) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    std::vector<uint64_t> alone(all.size() * osets);
    {
        size_t got = 0;
        for (ssize_t k; got < alone.size() * 8 && (k = read(fd[0], (char *)alone.data() + got, alone.size() * 8 - got)) > 0;) got += k;
        int st = 0;
        waitpid(child, &st, 0);
        if (got != alone.size() * 8 || st) { fprintf(stderr, "the process with the second keys ended with %d\n", st); return 3; }
    }
    const int sets = vh::thorough ? 12 : 2;
    std::vector<std::vector<uint64_t>> base(all.size(), std::vector<uint64_t>(sets));
    std::vector<int> aliases(all.size());
    // the reference: first use on a thread of its own
    vh::parallel(all.size() * sets, 8, [&](size_t j) {
        V x; x.salt = j % sets; x.verify = false;
        base[j / sets][j % sets] = all[j / sets].run(x, *w);
        if (j % sets == 0) aliases[j / sets] = x.aliases;
        distinct(vh::mix(j, base[j / sets][j % sets]));
    });
    // each item: one operation under one arrangement, on a thread with a history of other operations
    struct Item { size_t op; int set, how; };
    std::vector<Item> items;
    enum { AGAIN, ONES, RANDOM, MOVED, SCRIB0, SCRIB1, SCRIBR, ALIAS };
    for (size_t i = 0; i < all.size(); i++)
        for (int s = 0; s < sets; s++) {
            std::vector<int> hows = {AGAIN, ONES, RANDOM, MOVED, SCRIB0, SCRIB1, SCRIBR};
            if (all[i].weight >= 4 && !vh::thorough) hows = s ? std::vector<int>{RANDOM, SCRIB1} : std::vector<int>{AGAIN, ONES, MOVED, SCRIBR};
            for (int h : hows) items.push_back({i, s, h});
            for (int a = 0; a < aliases[i]; a++) if (all[i].weight < 4 || s == 0 || vh::thorough) items.push_back({i, s, ALIAS + a});
        }
    Rng r(20);
    for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[r.below(i)]);
    const size_t lanes = 48;
    vh::parallel(lanes, 8, [&](size_t l) {
        for (size_t j = l; j < items.size(); j += lanes) {
            const Item &it = items[j];
            V x; x.salt = it.set; x.pr = Rng(j + 50);
            const char *how = "repeated";
            switch (it.how) {
            case AGAIN: break;
            case ONES: x.poison = 1; how = "with a result object full of ones"; break;
            case RANDOM: x.poison = 2; how = "with a result object holding something"; break;
            case MOVED: x.relocate = true; how = "with operands elsewhere in memory"; break;
            case SCRIB0: case SCRIB1: case SCRIBR: scribble(it.how - SCRIB0, x.pr); how = "with a used stack"; break;
            default: x.alias = it.how - ALIAS; how = "with the result in place of an operand";
            }
            const uint64_t h = all[it.op].run(x, *w);
            eval(); tally(it.how >= ALIAS ? "in place" : how);
            if (h != base[it.op][it.set]) fail((it.how >= ALIAS ? "alias" + std::to_string(it.how - ALIAS) : std::string("result")) + ":" + all[it.op].name, "%s %s gives another result", all[it.op].name.c_str(), how);
            if (x.touched) fail("modified:" + all[it.op].name, "%s changed its %s", all[it.op].name.c_str(), x.which.c_str());
        }
    });
    vh::parallel(alone.size(), 8, [&](size_t j) {
        const uint64_t h = onother(j);
        eval(); tally("under a second key"); distinct(vh::mix(77, h));
        if (h != alone[j]) fail("other-key:" + all[j / osets].name, "%s under a second key gives another result once the first key was used", all[j / osets].name.c_str());
    });
    if (w->digest() != before) fail("keys", "a key or shared input changed during evaluation");
    tally("operations", all.size());
    return vh::finish();
}
