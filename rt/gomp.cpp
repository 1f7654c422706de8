// A small OpenMP runtime (the libgomp entry points gcc emits) on top of the fibers of mc.cpp.
// Threads of a team are fibers; barriers, criticals, dynamic loops and locks are scheduling points,
// so every order of the team's threads between synchronisation points can be enumerated.
#include "mc.h"
#include <pthread.h>
#include <map>
#include <cstdarg>

namespace {
struct Team
{
    int n; Team* parent; int parent_tid;
    int arrived = 0; unsigned gen = 0;
    unsigned single_done = 0;           // number of single constructs already claimed
    std::vector<unsigned> single_seen;  // per thread: single constructs met
    // work sharing
    std::vector<unsigned> ws_seen; unsigned ws_cur = 0;
    struct WS { long next, end, incr, chunk; bool up; int left; long sect_next, sect_n; };
    std::map<unsigned, WS> ws;
    void (*fn)(void*); void* data;
    void* copyprivate = nullptr;
};
struct TS { Team* team = nullptr; int tid = 0; };
TS ts[64];
int g_max_threads = 1;
int g_nested = 0, g_dynamic = 0;
struct Arg { Team* t; int tid; };
std::map<void*, bool> locks;

void barrier_(Team* t)
{
    if (!t || t->n == 1) return;
    mc::point();
    mc::hb_release(t);
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; }
    else mc::wait_until([t, g] { return t->gen != g; });
    mc::hb_acquire(t);
}
void* thread_main(void* p)
{
    Arg a = *(Arg*)p; delete (Arg*)p;
    ts[mc::self()].team = a.t; ts[mc::self()].tid = a.tid;
    a.t->fn(a.t->data);
    barrier_(a.t);
    ts[mc::self()] = TS();
    return nullptr;
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned)
{
    int me = mc::self();
    TS saved = ts[me];
    int n = nt ? (int)nt : g_max_threads;
    if (saved.team && saved.team->n > 1 && !g_nested) n = 1;
    Team t; t.n = n; t.parent = saved.team; t.parent_tid = saved.tid; t.fn = fn; t.data = data;
    t.single_seen.assign(n, 0); t.ws_seen.assign(n, 0);
    std::vector<pthread_t> th(n);
    ts[me].team = &t; ts[me].tid = 0;
    for (int i = 1; i < n; ++i) pthread_create(&th[i], nullptr, thread_main, new Arg { &t, i });
    fn(data);
    barrier_(&t);
    ts[me] = saved;
    for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
}
void GOMP_barrier() { barrier_(ts[mc::self()].team); }
bool GOMP_single_start()
{
    TS& s = ts[mc::self()];
    if (!s.team || s.team->n == 1) return true;
    mc::point();
    unsigned k = ++s.team->single_seen[s.tid];
    if (k > s.team->single_done) { s.team->single_done = k; return true; }
    return false;
}
void* GOMP_single_copy_start()
{
    TS& s = ts[mc::self()];
    if (GOMP_single_start()) return nullptr;
    barrier_(s.team);
    return s.team->copyprivate;
}
void GOMP_single_copy_end(void* p) { TS& s = ts[mc::self()]; if (s.team) { s.team->copyprivate = p; barrier_(s.team); } }

static void lock_(void* l)
{
    mc::point();
    while (locks[l]) mc::wait_until([l] { return !locks[l]; });
    locks[l] = true;
    mc::hb_acquire(l);
}
static void unlock_(void* l) { mc::hb_release(l); locks[l] = false; }
static int crit, atom;
void GOMP_critical_start() { lock_(&crit); }
void GOMP_critical_end() { unlock_(&crit); }
void GOMP_critical_name_start(void** p) { lock_(p); }
void GOMP_critical_name_end(void** p) { unlock_(p); }
void GOMP_atomic_start() { lock_(&atom); }
void GOMP_atomic_end() { unlock_(&atom); }

// ---- work sharing loops
static Team serial_team;
static Team* wteam(TS& s)
{
    if (s.team) return s.team;
    serial_team.n = 1; serial_team.single_seen.assign(1, 0); serial_team.ws_seen.resize(1);
    return &serial_team;
}
static bool loop_next(Team* t, unsigned k, long* is, long* ie)
{
    mc::point();
    Team::WS& w = t->ws[k];
    if (w.up ? w.next >= w.end : w.next <= w.end) return false;
    *is = w.next;
    long e = w.next + w.incr * w.chunk;
    if (w.up ? e > w.end : e < w.end) e = w.end;
    *ie = e; w.next = e;
    return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie)
{
    TS& s = ts[mc::self()]; Team* t = wteam(s);
    unsigned k = ++t->ws_seen[s.tid];
    if (!t->ws.count(k)) { Team::WS w; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk; w.up = incr > 0; w.left = t->n; w.sect_next = w.sect_n = 0; t->ws[k] = w; }
    return loop_next(t, k, is, ie);
}
static bool loop_next_cur(long* is, long* ie) { TS& s = ts[mc::self()]; Team* t = wteam(s); return loop_next(t, t->ws_seen[s.tid], is, ie); }
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long c, long d, long* is, long* ie) { return loop_start(a, b, c, d, is, ie); } \
    bool GOMP_loop_##kind##_next(long* is, long* ie) { return loop_next_cur(is, ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long a, long b, long c, long* is, long* ie) { return loop_start(a, b, c, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return loop_next_cur(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long* is, long* ie) { return loop_start(a, b, c, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loop_next_cur(is, ie); }
#define ULOOP(kind) \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long c, unsigned long long d, unsigned long long* is, unsigned long long* ie) \
    { (void)up; return loop_start((long)a, (long)b, (long)c, (long)d, (long*)is, (long*)ie); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) { return loop_next_cur((long*)is, (long*)ie); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
void GOMP_loop_end() { TS& s = ts[mc::self()]; if (s.team) barrier_(s.team); }
void GOMP_loop_end_nowait() { }
struct PL { void (*fn)(void*); void* data; long a, b, c, d; };
#define PLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned nt, long a, long b, long c, long d, unsigned fl) \
    { \
        /* all threads of the new team meet a work share prepared for them */ \
        static std::vector<PL*> st; PL p = { fn, data, a, b, c, d }; (void)st; \
        auto tramp = [](void* q) { PL* p = (PL*)q; TS& s = ts[mc::self()]; Team* t = wteam(s); unsigned k = t->ws_seen[s.tid] + 1; \
            if (!t->ws.count(k)) { Team::WS w; w.next = p->a; w.end = p->b; w.incr = p->c; w.chunk = p->d < 1 ? 1 : p->d; w.up = p->c > 0; w.left = t->n; t->ws[k] = w; } \
            t->ws_seen[s.tid] = k; p->fn(p->data); }; \
        GOMP_parallel(tramp, &p, nt, fl); \
    }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
unsigned GOMP_sections_start(unsigned n)
{
    TS& s = ts[mc::self()]; Team* t = wteam(s);
    unsigned k = ++t->ws_seen[s.tid];
    if (!t->ws.count(k)) { Team::WS w; memset(&w, 0, sizeof w); w.sect_next = 1; w.sect_n = n; t->ws[k] = w; }
    mc::point();
    Team::WS& w = t->ws[k];
    return w.sect_next <= w.sect_n ? (unsigned)w.sect_next++ : 0;
}
unsigned GOMP_sections_next()
{
    TS& s = ts[mc::self()]; Team* t = wteam(s);
    mc::point();
    Team::WS& w = t->ws[t->ws_seen[s.tid]];
    return w.sect_next <= w.sect_n ? (unsigned)w.sect_next++ : 0;
}
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned n, unsigned fl)
{
    struct PS { void (*fn)(void*); void* data; unsigned n; } p = { fn, data, n };
    auto tramp = [](void* q) { PS* p = (PS*)q; TS& s = ts[mc::self()]; Team* t = wteam(s); unsigned k = t->ws_seen[s.tid] + 1;
        if (!t->ws.count(k)) { Team::WS w; memset(&w, 0, sizeof w); w.sect_next = 1; w.sect_n = p->n; t->ws[k] = w; }
        t->ws_seen[s.tid] = k; p->fn(p->data); };
    GOMP_parallel(tramp, &p, nt, fl);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int)
{
    if (cpy) { std::vector<char> b(sz + al); char* p = (char*)(((uintptr_t)b.data() + al - 1) / al * al); cpy(p, data); fn(p); }
    else fn(data);
}
void GOMP_taskwait() { }
void GOMP_taskgroup_start() { }
void GOMP_taskgroup_end() { }
void GOMP_taskyield() { mc::point(); }

int omp_get_thread_num() { return ts[mc::self()].tid; }
int omp_get_num_threads() { Team* t = ts[mc::self()].team; return t ? t->n : 1; }
int omp_get_max_threads() { return g_max_threads; }
void omp_set_num_threads(int n) { g_max_threads = n < 1 ? 1 : n; }
int omp_get_nested() { return g_nested; }
void omp_set_nested(int n) { g_nested = n; }
int omp_get_dynamic() { return g_dynamic; }
void omp_set_dynamic(int n) { g_dynamic = n; }
int omp_in_parallel() { Team* t = ts[mc::self()].team; return t && t->n > 1; }
int omp_get_num_procs() { return g_max_threads; }
int omp_get_thread_limit() { return 48; }
int omp_get_level() { int l = 0; for (Team* t = ts[mc::self()].team; t; t = t->parent) l++; return l; }
int omp_get_max_active_levels() { return 4; }
void omp_set_max_active_levels(int) { }
double omp_get_wtime() { return mc::vclock; }
double omp_get_wtick() { return 1e-6; }
struct omp_lock_ { int x; };
void omp_init_lock(void* l) { locks[l] = false; }
void omp_destroy_lock(void* l) { locks.erase(l); }
void omp_set_lock(void* l) { lock_(l); }
void omp_unset_lock(void* l) { unlock_(l); }
int omp_test_lock(void* l) { mc::point(); if (locks[l]) return 0; locks[l] = true; mc::hb_acquire(l); return 1; }
void omp_init_nest_lock(void* l) { locks[l] = false; }
void omp_destroy_nest_lock(void* l) { locks.erase(l); }
}
