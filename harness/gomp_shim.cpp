// A small OpenMP runtime for what g++ emits, so that schedules are chosen by a seed and are visible to ThreadSanitizer.
//  mode 0 (free): real threads, seed-driven delays at scheduling points. Chunks are handed out with relaxed atomics only,
//                 so the runtime adds no happens-before edges that the OpenMP specification does not promise.
//  mode 1 (serial): one thread runs at a time; a seeded choice at every scheduling point (region start, chunk, critical
//                 section, barrier, and every n-th function entry when built with -finstrument-functions). Chunks of
//                 dynamic loops are handed out in a seeded order, teams may be smaller than requested.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <ctime>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <thread>
#include <vector>
#define NI __attribute__((no_instrument_function))
namespace {
struct Rnd { uint64_t s; NI uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } };
constexpr int kMax = 64, kShares = 128;
int g_mode = 0, g_threads = 1, g_preempt = 0;
uint64_t g_seed = 1;
std::atomic<uint64_t> g_region{ 0 };
struct Stats { uint64_t regions = 0, teams = 0, chunks = 0, criticals = 0, switches = 0, preemptions = 0, delays = 0; };
std::atomic<uint64_t> s_regions{ 0 }, s_teams{ 0 }, s_chunks{ 0 }, s_criticals{ 0 }, s_switches{ 0 }, s_preempt{ 0 }, s_delays{ 0 };
std::mutex g_hm;
std::set<uint64_t>* g_hashes;
struct Share { std::atomic<long> next{ 0 }; std::atomic<int> claimed{ 0 }; std::vector<long> order; bool shuffled = false; };
struct Team {
    int n = 1;
    uint64_t seed = 0;
    bool pre = false;// combined parallel loop: the runtime prepares the first loop
    long pa = 0, pb = 0, pi = 1, pc = 1;
    Share share[kShares];
    pthread_barrier_t bar;
    // serial mode
    std::mutex m;
    std::condition_variable cv[kMax];
    int cur = 0;
    char state[kMax] = {};// 0 runnable, 1 waits for a lock, 2 waits at a barrier, 3 finished
    void* wants[kMax] = {};
    int arrived = 0;
    uint64_t hash = 0;
    Rnd rnd{ 0 };
};
struct Local { Team* team = nullptr; int tid = 0; unsigned ws = 0; long base = 0, incr = 1, count = 0, chunk = 1; Share* cur = nullptr; Rnd rnd{ 0 }; long countdown = 0; bool inside = false; };
thread_local Local L;
struct CritSlot { std::atomic<void*> key{ nullptr }; std::mutex m; int owner = -1; };
CritSlot g_crit[256];
std::mutex g_atomic;
int g_anon_key;

NI CritSlot& slot(void* key) {
    size_t i = (reinterpret_cast<uintptr_t>(key) >> 3) % 256;
    for (;; i = (i + 1) % 256) {
        void* have = g_crit[i].key.load(std::memory_order_relaxed);
        if (have == key) return g_crit[i];
        if (!have) { void* none = nullptr; if (g_crit[i].key.compare_exchange_strong(none, key, std::memory_order_relaxed) || none == key) return g_crit[i]; }
    }
}
NI void choose(Team& t, int tag) {// with t.m held: picks the next thread to run
    int run[kMax], k = 0;
    for (int i = 0; i < t.n; ++i) if (t.state[i] == 0) run[k++] = i;
    if (k == 0) { bool done = true; for (int i = 0; i < t.n; ++i) done &= t.state[i] == 3; if (!done) { std::fputs("gomp_shim: deadlock\n", stderr); std::abort(); } t.cur = -1; return; }
    const int c = run[t.rnd.next() % uint64_t(k)];
    t.hash = (t.hash ^ uint64_t(c * 8 + tag + 1)) * 0x100000001B3ULL;
    if (c != t.cur) { s_switches.fetch_add(1, std::memory_order_relaxed); }
    t.cur = c;
    t.cv[c].notify_one();
}
NI void arm() { L.countdown = g_preempt > 0 ? 1 + long(L.rnd.next() % uint64_t(2 * g_preempt)) : 0; }
NI void point(int tag) {
    Team* t = L.team;
    if (!t || t->n == 1) return;
    if (g_mode == 0) {
        const uint64_t r = L.rnd.next();
        if (r % 4 == 0) { s_delays.fetch_add(1, std::memory_order_relaxed); if (r % 8 == 0) sched_yield(); else { timespec ts{ 0, long(r >> 40) % 60000 }; nanosleep(&ts, nullptr); } }
        return;
    }
    std::unique_lock<std::mutex> l(t->m);
    choose(*t, tag);
    const int me = L.tid;
    t->cv[me].wait(l, [&]() NI { return t->cur == me; });
    arm();
}
NI void setup(long start, long end, long incr, long chunk);
NI void body(Team* t, int tid, void (*fn)(void*), void* data) {
    Local save = L;
    L = Local{};
    L.team = t; L.tid = tid; L.rnd.s = t->seed * 31 + uint64_t(tid) * 7919 + 1;
    if (g_mode == 1 && t->n > 1) {
        std::unique_lock<std::mutex> l(t->m);
        t->cv[tid].wait(l, [&]() NI { return t->cur == tid; });
        arm();
    } else if (t->n > 1) point(0);
    if (t->pre) setup(t->pa, t->pb, t->pi, t->pc);
    L.inside = true;
    fn(data);
    L.inside = false;
    if (g_mode == 1 && t->n > 1) {
        std::lock_guard<std::mutex> l(t->m);
        t->state[tid] = 3;
        choose(*t, 1);
    }
    L = save;
}
NI void setup(long start, long end, long incr, long chunk) {
    static Share solo;
    L.base = start; L.incr = incr; L.chunk = chunk < 1 ? 1 : chunk;
    L.count = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end - incr - 1) / -incr : 0);
    if (!L.team) { L.cur = &solo; solo.next = 0; solo.shuffled = false; ++L.ws; return; }
    L.cur = &L.team->share[L.ws++ % kShares];
    if (g_mode == 1 && L.team->n > 1 && !L.cur->shuffled) {// only one thread runs at a time
        const long n = (L.count + L.chunk - 1) / L.chunk;
        L.cur->order.resize(size_t(n));
        for (long i = 0; i < n; ++i) L.cur->order[size_t(i)] = i;
        const uint64_t style = L.team->rnd.next() % 3;
        if (style == 1) for (long i = 0; i < n / 2; ++i) std::swap(L.cur->order[size_t(i)], L.cur->order[size_t(n - 1 - i)]);
        if (style == 2) for (long i = n - 1; i > 0; --i) std::swap(L.cur->order[size_t(i)], L.cur->order[L.team->rnd.next() % uint64_t(i + 1)]);
        L.cur->shuffled = true;
    }
}
NI void parallel(void (*fn)(void*), void* data, unsigned nthreads, const long* loop);
}// namespace

extern "C" {
NI void shim_config(int mode, uint64_t seed, int preempt) { g_mode = mode; g_seed = seed; g_region = 0; g_preempt = preempt; }
NI uint64_t shim_stat(int k) {
    switch (k) {
    case 0: return s_regions; case 1: return s_teams; case 2: return s_chunks; case 3: return s_criticals; case 4: return s_switches; case 5: return s_preempt; case 6: return s_delays;
    case 7: { std::lock_guard<std::mutex> l(g_hm); return g_hashes ? g_hashes->size() : 0; }
    }
    return 0;
}
NI int omp_get_thread_num() { return L.tid; }
NI int omp_get_num_threads() { return L.team ? L.team->n : 1; }
NI int omp_get_max_threads() { return g_threads; }
NI void omp_set_num_threads(int n) { g_threads = n < 1 ? 1 : n > kMax ? kMax : n; }
NI int omp_in_parallel() { return L.team && L.team->n > 1; }
NI int omp_get_num_procs() { return 8; }
NI int omp_get_level() { return L.team ? 1 : 0; }
NI int omp_get_thread_limit() { return kMax; }
NI int omp_get_dynamic() { return 1; }
NI void omp_set_dynamic(int) {}
NI double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
NI double omp_get_wtick() { return 1e-9; }
NI void omp_init_lock(void** l) { *l = new std::mutex; }
NI void omp_destroy_lock(void** l) { delete static_cast<std::mutex*>(*l); }

NI void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned) { parallel(fn, data, nthreads, nullptr); }
}
namespace {
NI void parallel(void (*fn)(void*), void* data, unsigned nthreads, const long* loop) {
    s_regions.fetch_add(1, std::memory_order_relaxed);
    int n = nthreads ? int(nthreads) : g_threads;
    if (L.team) n = 1;// nested regions are serialised (the default of OpenMP)
    if (n > kMax) n = kMax;
    Team* t = new Team;
    t->seed = g_seed * 1000003ULL + 1 + g_region.fetch_add(1, std::memory_order_relaxed);
    t->rnd.s = t->seed;
    if (g_mode == 1 && n > 2 && t->rnd.next() % 8 == 0) n = 2 + int(t->rnd.next() % uint64_t(n - 1));// the runtime may give fewer threads
    t->n = n;
    if (loop) { t->pre = true; t->pa = loop[0]; t->pb = loop[1]; t->pi = loop[2]; t->pc = loop[3]; }
    if (n > 1) {
        s_teams.fetch_add(1, std::memory_order_relaxed);
        pthread_barrier_init(&t->bar, nullptr, unsigned(n));
        t->cur = g_mode == 1 ? int(t->rnd.next() % uint64_t(n)) : 0;
    }
    std::vector<std::thread> th;
    for (int i = 1; i < n; ++i) th.emplace_back([=]() NI { body(t, i, fn, data); });
    body(t, 0, fn, data);
    for (auto& x : th) x.join();
    if (n > 1) {
        pthread_barrier_destroy(&t->bar);
        if (g_mode == 1) { std::lock_guard<std::mutex> l(g_hm); if (!g_hashes) g_hashes = new std::set<uint64_t>; if (g_hashes->size() < 1000000) g_hashes->insert(t->hash); }
    }
    delete t;
}
}// namespace
extern "C" {
#define COMBINED(kind) NI void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c, unsigned) { const long l[4] = { a, b, i, c }; parallel(fn, data, nt, l); }
COMBINED(static) COMBINED(dynamic) COMBINED(guided) COMBINED(nonmonotonic_dynamic) COMBINED(nonmonotonic_guided)
#define COMBINED_RT(kind) NI void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, unsigned) { const long l[4] = { a, b, i, 1 }; parallel(fn, data, nt, l); }
COMBINED_RT(runtime) COMBINED_RT(nonmonotonic_runtime) COMBINED_RT(maybe_nonmonotonic_runtime)

NI static bool take(long* s, long* e) {
    point(2);
    const long k = L.cur->next.fetch_add(1, std::memory_order_relaxed);
    const long nchunks = (L.count + L.chunk - 1) / L.chunk;
    if (k >= nchunks) return false;
    long c = k;
    if (g_mode == 1 && L.cur->shuffled) c = L.cur->order[size_t(k)];
    const long a = c * L.chunk, b = a + L.chunk < L.count ? a + L.chunk : L.count;
    *s = L.base + a * L.incr; *e = L.base + b * L.incr;
    s_chunks.fetch_add(1, std::memory_order_relaxed);
    return true;
}
NI bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long* s, long* e) { setup(a, b, i, c); return take(s, e); }
NI bool GOMP_loop_dynamic_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long* s, long* e) { setup(a, b, i, c); return take(s, e); }
NI bool GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_guided_start(long a, long b, long i, long c, long* s, long* e) { setup(a, b, i, c); return take(s, e); }
NI bool GOMP_loop_guided_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long* s, long* e) { setup(a, b, i, c); return take(s, e); }
NI bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { setup(a, b, i, 1); return take(s, e); }
NI bool GOMP_loop_runtime_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { setup(a, b, i, 1); return take(s, e); }
NI bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { setup(a, b, i, 1); return take(s, e); }
NI bool GOMP_loop_nonmonotonic_runtime_next(long* s, long* e) { return take(s, e); }
NI bool GOMP_loop_static_start(long a, long b, long i, long c, long* s, long* e) { setup(a, b, i, c); return take(s, e); }
NI bool GOMP_loop_static_next(long* s, long* e) { return take(s, e); }
// unsigned long long iteration space (IndexType loops)
typedef unsigned long long ull;
NI bool GOMP_loop_ull_dynamic_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { (void)up; setup(long(a), long(b), long(i), long(c)); return take(reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); }
NI bool GOMP_loop_ull_dynamic_next(ull* s, ull* e) { return take(reinterpret_cast<long*>(s), reinterpret_cast<long*>(e)); }
NI bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return GOMP_loop_ull_dynamic_start(up, a, b, i, c, s, e); }
NI bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }
NI bool GOMP_loop_ull_guided_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return GOMP_loop_ull_dynamic_start(up, a, b, i, c, s, e); }
NI bool GOMP_loop_ull_guided_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }
NI bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return GOMP_loop_ull_dynamic_start(up, a, b, i, c, s, e); }
NI bool GOMP_loop_ull_nonmonotonic_guided_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }

NI void GOMP_barrier() {
    Team* t = L.team;
    if (!t || t->n == 1) return;
    if (g_mode == 0) { pthread_barrier_wait(&t->bar); return; }
    std::unique_lock<std::mutex> l(t->m);
    if (++t->arrived == t->n) { t->arrived = 0; for (int i = 0; i < t->n; ++i) if (t->state[i] == 2) t->state[i] = 0; }
    else t->state[L.tid] = 2;
    choose(*t, 3);
    const int me = L.tid;
    t->cv[me].wait(l, [&]() NI { return t->cur == me; });
}
NI void GOMP_loop_end() { GOMP_barrier(); }
NI void GOMP_loop_end_nowait() {}
NI bool GOMP_single_start() {
    if (!L.team) return true;
    point(4);
    return L.team->share[L.ws++ % kShares].claimed.exchange(1, std::memory_order_relaxed) == 0;
}
NI bool GOMP_sections_next_helper(unsigned n, unsigned* out) { long s, e; (void)n; if (!take(&s, &e)) { *out = 0; return false; } *out = unsigned(s); return true; }
NI unsigned GOMP_sections_start(unsigned n) { setup(1, long(n) + 1, 1, 1); unsigned o; GOMP_sections_next_helper(n, &o); return o; }
NI unsigned GOMP_sections_next() { unsigned o; GOMP_sections_next_helper(0, &o); return o; }
NI void GOMP_sections_end() { GOMP_barrier(); }
NI void GOMP_sections_end_nowait() {}
NI void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned, unsigned flags) { GOMP_parallel(fn, data, nt, flags); }
NI static void crit_start(void* key) {
    s_criticals.fetch_add(1, std::memory_order_relaxed);
    CritSlot& c = slot(key);
    Team* t = L.team;
    if (g_mode == 0 || !t || t->n == 1) { point(5); c.m.lock(); return; }
    point(5);
    std::unique_lock<std::mutex> l(t->m);
    const int me = L.tid;
    while (c.owner != -1) {
        t->state[me] = 1; t->wants[me] = key;
        choose(*t, 6);
        t->cv[me].wait(l, [&]() NI { return t->cur == me; });
    }
    c.owner = me;
}
NI static void crit_end(void* key) {
    CritSlot& c = slot(key);
    Team* t = L.team;
    if (g_mode == 0 || !t || t->n == 1) { c.m.unlock(); point(7); return; }
    {
        std::lock_guard<std::mutex> l(t->m);
        c.owner = -1;
        for (int i = 0; i < t->n; ++i) if (t->state[i] == 1 && t->wants[i] == key) t->state[i] = 0;
    }
    point(7);
}
NI void GOMP_critical_start() { crit_start(&g_anon_key); }
NI void GOMP_critical_end() { crit_end(&g_anon_key); }
NI void GOMP_critical_name_start(void** p) { crit_start(p); }
NI void GOMP_critical_name_end(void** p) { crit_end(p); }
NI void GOMP_atomic_start() { crit_start(&g_atomic); }
NI void GOMP_atomic_end() { crit_end(&g_atomic); }
NI void omp_set_lock(void** l) { crit_start(l); }
NI void omp_unset_lock(void** l) { crit_end(l); }
NI void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpyfn) { fn(data); return; }
    std::vector<char> buf(size_t(size + align));
    char* p = buf.data(); p += (size_t(align) - reinterpret_cast<uintptr_t>(p) % size_t(align)) % size_t(align);
    cpyfn(p, data); fn(p);
}
NI void GOMP_taskwait() {}
// Function entries as preemption points (only in builds with -finstrument-functions).
NI void __cyg_profile_func_enter(void*, void*) {
    if (!L.inside || g_mode != 1 || L.countdown == 0 || --L.countdown > 0) return;
    s_preempt.fetch_add(1, std::memory_order_relaxed);
    point(8);
}
NI void __cyg_profile_func_exit(void*, void*) {}
}
