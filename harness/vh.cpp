#include "vh.hpp"
#include <chrono>
#include <mutex>
#include <set>
#include <random>
#include <atomic>
#include <pthread.h>
#ifndef VH_REAL_ENTROPY
// Deterministic entropy: the library seeds its generators from std::random_device.
static std::atomic<uint64_t> vh_ent{0};
static thread_local uint64_t vh_base = 0, vh_cnt = 0;   // per-thread stream, see vh::thread()
std::random_device::result_type std::random_device::_M_getval()
{
    static const char *flip = getenv("VH_ENT_FLIP");
    static std::atomic<long> drawn{0};
    const bool fl = flip && drawn.fetch_add(1) == atol(flip);
    uint64_t z = (vh::seed + 12345) * 0x9E3779B97F4A7C15ull + (vh_base ? vh_base + vh_cnt++ : vh_ent.fetch_add(1)) * 0xD1B54A32D192ED03ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return static_cast<unsigned>(z >> 32) ^ (fl ? 0x10u : 0);
}
#endif
namespace vh {
#ifndef VH_REAL_ENTROPY
void thread(uint64_t id) { vh_base = (id + 1) << 32; vh_cnt = 0; }
#else
void thread(uint64_t) {}
#endif
struct ParArg { const std::function<void(size_t)> *f; std::atomic<size_t> *next; size_t n; };
struct OneArg { const std::function<void(size_t)> *f; size_t i; };
static void spawn(pthread_t &t, void *(*f)(void *), void *a)
{
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 256u << 20);
    if (pthread_create(&t, &at, f, a)) abort();
}
static void *one_main(void *a)
{
    auto *p = (OneArg *)a;
    thread(p->i + 1000);
    (*p->f)(p->i);
    return nullptr;
}
static void *par_main(void *a)
{
    auto *p = (ParArg *)a;
    for (size_t i; (i = p->next->fetch_add(1)) < p->n;) {
        // a thread of its own for each item: its randomness does not depend on the schedule
        OneArg o{p->f, i};
        pthread_t t;
        spawn(t, one_main, &o);
        pthread_join(t, nullptr);
    }
    return nullptr;
}
void parallel(size_t n, size_t width, const std::function<void(size_t)> &f)
{
    std::atomic<size_t> next{0};
    ParArg a{&f, &next, n};
    std::vector<pthread_t> t(std::min(n, width));
    for (auto &x : t) spawn(x, par_main, &a);
    for (auto &x : t) pthread_join(x, nullptr);
}
static uint64_t env_seed()
{
    const char *s = getenv("VERIF_SEED");
    return s ? strtoull(s, nullptr, 10) : 1;
}
uint64_t seed = env_seed();
bool thorough = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
bool light = getenv("VH_LIGHT") != nullptr;
static std::mutex mu;
static std::map<std::string, uint64_t> counts;
static std::map<std::string, double> metrics;
static std::map<std::string, std::pair<std::string, uint64_t>> fails;
static std::vector<std::string> samples;
static std::unordered_set<uint64_t> cases;
static uint64_t evals = 0;
static std::string outpath;
static std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

void init(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--out") outpath = argv[i + 1];
}
static std::string vfmt(const char *fmt, va_list ap)
{
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
void fail(const std::string &key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
    std::lock_guard<std::mutex> g(mu);
    auto it = fails.find(key);
    if (it == fails.end()) {
        fails[key] = {m, 1};
        fprintf(stdout, "FAIL %s: %s\n", key.c_str(), m.c_str());
        fflush(stdout);
    } else
        it->second.second++;
}
bool failed(const std::string &key) { std::lock_guard<std::mutex> g(mu); return fails.count(key); }
void eval(uint64_t n) { std::lock_guard<std::mutex> g(mu); evals += n; }
void distinct(uint64_t h) { std::lock_guard<std::mutex> g(mu); cases.insert(h); }
void tally(const std::string &name, uint64_t n) { std::lock_guard<std::mutex> g(mu); counts[name] += n; }
void metric(const std::string &name, double v) { std::lock_guard<std::mutex> g(mu); metrics[name] = v; }
void note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
    std::lock_guard<std::mutex> g(mu);
    if (samples.size() < 40) samples.push_back(m);
}
static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
bool check_noise(const std::string &key, const Stat &s, double sigma, double lo, double up, double maxs, double abs)
{
    metric(key + ".rms/bound", sigma > 0 ? s.rms() / sigma : s.rms());
    metric(key + ".max/bound", sigma > 0 ? s.mx / sigma : s.mx);
    tally("noise samples", s.n);
    bool ok = true;
    const double slack = s.n ? 1 + 5 / std::sqrt(2.0 * s.n) : 1;  // sampling error of an rms of n values
    up *= slack; lo /= slack;
    if (s.n && s.rms() > up * sigma + abs) {
        fail("noise:" + key, "rms %.4g (2^%.2f) over %llu samples exceeds %.3g x predicted %.4g (2^%.2f)", s.rms(), std::log2(s.rms()), (unsigned long long)s.n, up, sigma, std::log2(sigma));
        ok = false;
    }
    if (s.n && s.mx > maxs * sigma + abs) {
        fail("noise:" + key, "max %.4g (2^%.2f) over %llu samples exceeds %.3g x predicted sigma %.4g (2^%.2f)", s.mx, std::log2(s.mx), (unsigned long long)s.n, maxs, sigma, std::log2(sigma));
        ok = false;
    }
    if (s.n && lo > 0 && s.rms() < lo * sigma) {
        fail("noise-low:" + key, "rms %.4g over %llu samples is below %.3g x configured %.4g", s.rms(), (unsigned long long)s.n, lo, sigma);
        ok = false;
    }
    return ok;
}
int finish()
{
    double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    FILE *f = outpath.empty() ? stdout : fopen(outpath.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    fprintf(f, "{\"done\":true,\"wall\":%.2f,\"evals\":%llu,\"distinct\":%llu,\"counts\":{", w, (unsigned long long)evals, (unsigned long long)cases.size());
    bool first = true;
    for (auto &c : counts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"metrics\":{");
    first = true;
    for (auto &c : metrics) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", esc(c.first).c_str(), std::isfinite(c.second) ? c.second : -1.0); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &c : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(c).c_str()); first = false; }
    fprintf(f, "],\"fails\":[");
    first = true;
    for (auto &c : fails) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"times\":%llu}", first ? "" : ",", esc(c.first).c_str(), esc(c.second.first).c_str(), (unsigned long long)c.second.second); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    return 0;
}
}  // namespace vh
