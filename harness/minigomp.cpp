// A small OpenMP runtime on pthreads, so that the race detector sees every synchronisation.
#include <pthread.h>
#include <cstdlib>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <vector>
namespace {
struct Loop { long next, end, incr, chunk; int left; bool used = false; };
struct Team {
    unsigned n;
    std::mutex m;
    std::condition_variable cv;
    unsigned arrived = 0, phase = 0;
    std::vector<std::unique_ptr<Loop>> loops;
    std::vector<char> singles;
    explicit Team(unsigned k) : n(k) {}
    void barrier()
    {
        std::unique_lock<std::mutex> l(m);
        const unsigned p = phase;
        if (++arrived == n) { arrived = 0; phase++; cv.notify_all(); }
        else cv.wait(l, [&] { return phase != p; });
    }
};
thread_local Team *team = nullptr;
thread_local unsigned tid = 0;
thread_local size_t loopno = 0, singleno = 0;
thread_local int wanted = 0;
int dflt()
{
    static const int d = [] { const char *s = getenv("OMP_NUM_THREADS"); const int v = s ? atoi(s) : 0; return v > 0 ? v : 4; }();
    return wanted > 0 ? wanted : d;
}
struct Arg { void (*fn)(void *); void *data; Team *t; unsigned id; };
void *body(void *p)
{
    Arg *a = (Arg *)p;
    team = a->t; tid = a->id; loopno = 0; singleno = 0;
    a->fn(a->data);
    return nullptr;
}
void par(void (*fn)(void *), void *data, unsigned n, Loop *first)
{
    if (team) n = 1;
    if (!n) n = dflt();
    Team t(n);
    if (first) t.loops.emplace_back(first);
    std::vector<pthread_t> th(n - 1);
    std::vector<Arg> args;
    for (unsigned i = 0; i < n; i++) args.push_back({fn, data, &t, i});
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64u << 20);
    Team *so = team; const unsigned st = tid; const size_t sl = loopno, ss = singleno;
    for (unsigned i = 1; i < n; i++) if (pthread_create(&th[i - 1], &at, body, &args[i])) abort();
    body(&args[0]);
    for (auto &x : th) pthread_join(x, nullptr);
    pthread_attr_destroy(&at);
    team = so; tid = st; loopno = sl; singleno = ss;
}
std::recursive_mutex crit;
bool take(Loop *l, long *s, long *e)
{
    if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
    *s = l->next;
    l->next += l->incr * l->chunk;
    *e = (l->incr > 0 ? l->next > l->end : l->next < l->end) ? l->end : l->next;
    return true;
}
Team *cur() { static thread_local Team solo(1); return team ? team : &solo; }
thread_local Loop *active = nullptr;
bool start(long s, long e, long i, long c, long *ps, long *pe)
{
    Team *t = cur();
    std::lock_guard<std::mutex> l(t->m);
    if (t->loops.size() <= loopno) t->loops.emplace_back(new Loop{s, e, i, c > 0 ? c : 1, 0});
    active = t->loops[loopno++].get();
    return take(active, ps, pe);
}
bool next(long *ps, long *pe)
{
    Team *t = cur();
    std::lock_guard<std::mutex> l(t->m);
    if (!active) active = t->loops[loopno++].get();
    return take(active, ps, pe);
}
}  // namespace
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { par(fn, data, n, nullptr); }
#define PL(name) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { par(fn, data, n, new Loop{s, e, i, c > 0 ? c : 1, 0}); }
PL(GOMP_parallel_loop_static) PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_nonmonotonic_guided)
#define LS(name) bool name(long s, long e, long i, long c, long *ps, long *pe) { return start(s, e, i, c, ps, pe); }
LS(GOMP_loop_static_start) LS(GOMP_loop_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_nonmonotonic_guided_start)
#define LN(name) bool name(long *ps, long *pe) { return next(ps, pe); }
LN(GOMP_loop_static_next) LN(GOMP_loop_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_runtime_next)
LN(GOMP_loop_maybe_nonmonotonic_runtime_next)
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *ps, long *pe) { return start(s, e, i, 1, ps, pe); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *ps, long *pe) { return start(s, e, i, 1, ps, pe); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { par(fn, data, n, new Loop{s, e, i, 1, 0}); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { par(fn, data, n, new Loop{s, e, i, 1, 0}); }
void GOMP_barrier() { cur()->barrier(); }
void GOMP_loop_end() { active = nullptr; cur()->barrier(); }
void GOMP_loop_end_nowait() { active = nullptr; }
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void **) { crit.lock(); }
void GOMP_critical_name_end(void **) { crit.unlock(); }
void GOMP_atomic_start() { crit.lock(); }
void GOMP_atomic_end() { crit.unlock(); }
bool GOMP_single_start()
{
    Team *t = cur();
    std::lock_guard<std::mutex> l(t->m);
    const size_t k = singleno++;
    if (t->singles.size() <= k) t->singles.resize(k + 1);
    if (t->singles[k]) return false;
    return t->singles[k] = 1;
}
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return dflt(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { wanted = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}
