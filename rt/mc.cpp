#include "mc.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <malloc.h>
#include <atomic>
#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include <unordered_map>
#include <cxxabi.h>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
extern "C" {
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom_old, size_t* size_old);
void __sanitizer_set_death_callback(void (*)(void));
void __asan_unpoison_memory_region(void const volatile*, size_t);
}
#endif

extern "C" pthread_t __real_pthread_self();

namespace mc {
double vclock = 1000000.0;

// =============================================================== shared memory with the parent
static const int MAXW = 64;
static const size_t TRACE_MAX = 1 << 16;
static const size_t BITS = size_t(1) << 27;

struct Slot
{
    volatile int job, shard;
    volatile uint64_t heartbeat;
    volatile uint64_t execs, transitions, points, nontriv, capped;
    volatile uint64_t cnt[16];
    volatile int maxcost;
    volatile uint32_t ntrace;
    uint16_t trace[TRACE_MAX];
    volatile int failed;
    char msg[4096];
    volatile int nsamples;
    char samples[3][1200];
};
struct Shared
{
    std::atomic<int> next_job;
    std::atomic<int> stop;
    Slot slot[MAXW];
    std::atomic<uint64_t> statebits[BITS / 64];
    std::atomic<uint64_t> outbits[BITS / 64];
};
static Shared* sh;
static Slot* slot;
static bool g_noting = false, g_replay = false;
static std::string g_history;
static double g_deadline = 1e18;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// =============================================================== explorer
enum Kind { K_DATA = 0, K_DEV = 1, K_SCHED = 2, K_SCHED_FREE = 3, K_SIGNAL = 4 };
struct Pt { uint16_t chosen, n; uint8_t kind, cost; int cum; };
static std::vector<Pt> pts;
static size_t prefix_len = 0, pos = 0;
static int cum_cost = 0;
static Opts opt;
static uint64_t points_this = 0;
static bool in_exec = false;
static bool g_nontrivial = false;

static void nondet_report();
static bool g_quiet;
void quiet(bool on) { g_quiet = on; }
static int pick(int n, Kind kind, int cost)
{
    if (n <= 1) return 0;
    if (!in_exec || g_quiet) return 0;
    int c;
    if (pos < prefix_len)
    {
        Pt& p = pts[pos];
        if (g_replay && p.kind == 255) { p.n = n; p.kind = kind; if (p.chosen >= n) { slot->failed = 3; snprintf(slot->msg, sizeof slot->msg, "choice out of range"); _exit(3); } }
        if (p.n != n || p.kind != kind)
        {
            fprintf(stderr, "mc: NONDETERMINISM at choice %zu: recorded n=%d kind=%d, now n=%d kind=%d\n", pos, p.n, p.kind, n, kind);
            nondet_report();
            snprintf(slot->msg, sizeof slot->msg, "NONDETERMINISM at choice %zu", pos);
            slot->failed = 3;
            _exit(3);
        }
        c = p.chosen;
        p.cum = cum_cost; p.cost = cost;
    }
    else
    {
        Pt p; p.chosen = 0; p.n = n; p.kind = kind; p.cost = cost; p.cum = cum_cost;
        if (pos < pts.size()) pts.resize(pos);
        pts.push_back(p);
        c = 0;
    }
    if (pos < TRACE_MAX) { slot->trace[pos] = c; slot->ntrace = pos + 1; }
    pos++;
    if (c) cum_cost += cost;
    return c;
}

int choose(int n) { return pick(n, K_DATA, 0); }
int deviate(int n) { if (opt.bound <= 0) return 0; return pick(n, K_DEV, 1); }

// find next execution; false if exhausted.  shard s of S: position of the first deviation mod S
static bool advance(int s, int S)
{
    // index of first nonzero choice
    for (int i = (int)pts.size() - 1; i >= 0; --i)
    {
        Pt& p = pts[i];
        if (p.chosen + 1 < p.n)
        {
            int cost = p.cost; // every nonzero alternative costs the same
            if (p.cum + cost <= opt.bound || cost == 0)
            {
                if (S > 1 && p.chosen == 0)
                {
                    bool first = true;
                    for (int j = 0; j < i; ++j) if (pts[j].chosen) { first = false; break; }
                    if (first && (i % S) != s) continue;
                }
                p.chosen++;
                pts.resize(i + 1);
                prefix_len = i + 1;
                return true;
            }
        }
    }
    return false;
}

// =============================================================== observations
[[noreturn]] void fail(const std::string& m)
{
    if (!slot->failed)
    {
        snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str());
        slot->failed = 1;
    }
    if (g_noting) { printf("%s\nFAILED: %s\n", g_history.c_str(), m.c_str()); fflush(stdout); }
    _exit(77);
}
static bool g_sampling = false;
void note_str(const std::string& s) { if (g_noting || g_sampling) { g_history += s; g_history += "; "; } }
bool noting() { return g_noting || g_sampling; }
static void setbit(std::atomic<uint64_t>* b, uint64_t h)
{
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    size_t i = h & (BITS - 1);
    uint64_t m = uint64_t(1) << (i & 63);
    if (!(b[i >> 6].load(std::memory_order_relaxed) & m)) b[i >> 6].fetch_or(m, std::memory_order_relaxed);
}
void state(uint64_t h) { setbit(sh->statebits, h); }
void outcome(uint64_t h) { setbit(sh->outbits, h); }
void transition(uint64_t n) { slot->transitions += n; }
void count(int i, uint64_t n) { slot->cnt[i] += n; }
void nontrivial() { g_nontrivial = true; }
bool want_sample() { return g_sampling; }
void sample(const std::string& s) { note_str(s); }

// =============================================================== fibers
static const int MAXF = 48;
struct VC { uint32_t c[MAXF]; };

struct Fiber
{
    int id = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    size_t stack_size = 0;
    enum St { RUNNABLE, MUTEX, COND, JOIN, PRED, DONE, FREE, QUIET } st = FREE;
    void* obj = nullptr;         // mutex / cond waited for
    void* mtx = nullptr;         // mutex to reacquire after cond wait
    const std::function<bool()>* pred = nullptr;
    int join_target = -1;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false, joined = false;
    bool spurious_woken = false;
    uint64_t wait_seq = 0;
    void* eh[2] = { 0, 0 };
    int saved_errno = 0;
    void* fake = nullptr;
    int vcid = 0;
    VC vc;
};
static Fiber fibers[MAXF];
static int nfib = 0;
static int cur = 0;
static uint64_t wait_counter = 0;
static int spurious_used = 0;
static bool sched_on = false;

extern "C" void mc_swap(void** save, void* to);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_swap,.-mc_swap
)");

static void fiber_entry();
extern "C" void mc_fiber_tramp();
asm(R"(
.text
.globl mc_fiber_tramp
mc_fiber_tramp:
    xorl %ebp,%ebp
    jmp mc_fiber_entry_c
)");

static std::vector<char*> stack_pool;
static const size_t FSTACK = 512 * 1024;

static int fair_n;       // points passed by the running fiber since it was switched to
static void switch_to(int to)
{
    if (to == cur) return;
    fair_n = 0;
    Fiber& a = fibers[cur];
    Fiber& b = fibers[to];
    void** eh = (void**)__cxxabiv1::__cxa_get_globals();
    a.eh[0] = eh[0]; a.eh[1] = eh[1];
    a.saved_errno = errno;
    cur = to;
    eh[0] = b.eh[0]; eh[1] = b.eh[1];
#if MC_ASAN
    __sanitizer_start_switch_fiber(a.st == Fiber::DONE ? nullptr : &a.fake, b.stack, b.stack_size);
#endif
    mc_swap(&a.sp, b.sp);
    // back in a (cur has been set by whoever switched to us)
#if MC_ASAN
    __sanitizer_finish_switch_fiber(fibers[cur].fake, nullptr, nullptr);
#endif
    errno = fibers[cur].saved_errno;
}

static bool pred_ok(Fiber& f) { return f.st == Fiber::PRED && (*f.pred)(); }
static bool enabled(int i)
{
    Fiber& f = fibers[i];
    if (f.st == Fiber::RUNNABLE) return true;
    if (f.st == Fiber::PRED) return pred_ok(f);
    return false;
}

static std::string dump_fibers()
{
    std::ostringstream o;
    const char* names[] = { "runnable", "blocked on mutex", "waiting on condition", "joining", "waiting for predicate", "done", "free", "waiting for quiescence" };
    for (int i = 0; i < nfib; ++i) if (fibers[i].st != Fiber::FREE) o << " T" << i << ":" << names[fibers[i].st];
    return o.str();
}

// choose the next fiber to run.  The current fiber is RUNNABLE at a preemptible point, or blocked.
static void schedule(bool drain_mode = false)
{
    slot->points++;
    if (++points_this > opt.max_points && in_exec)
        fail("livelock: more than " + std::to_string(opt.max_points) + " scheduling points;" + dump_fibers());
    int list[MAXF]; int n = 0;
    bool cur_ok = enabled(cur);
    if (cur_ok && (!opt.eager || !sched_on)) list[n++] = cur;
    for (int i = 0; i < nfib; ++i) if (i != cur && enabled(i)) list[n++] = i;
    if (cur_ok && opt.eager && sched_on) { // others first, highest id first
        std::reverse(list, list + n);
        list[n++] = cur;
    }
    int nr = n;
    if (nr > 0 && sched_on && opt.sched && spurious_used < opt.spurious && !drain_mode)
        for (int i = 0; i < nfib; ++i) if (fibers[i].st == Fiber::COND) list[n++] = i;
    if (nr == 0)
        for (int i = 0; i < nfib; ++i) if (fibers[i].st == Fiber::QUIET) { fibers[i].st = Fiber::RUNNABLE; switch_to(i); return; }
    if (nr == 0)
    {
        std::string d = "deadlock:" + dump_fibers();
        fail(d);
    }
    int c = 0;
    if (opt.sched && sched_on && !drain_mode && n > 1)
    {
        // free alternatives: the current fiber cannot continue
        if (!cur_ok && opt.forced_free && n == nr) c = pick(n, K_SCHED_FREE, 0);
        else c = pick(n, K_SCHED, 1);
    }
    int to = list[c];
    Fiber& f = fibers[to];
    if (f.st == Fiber::COND) { spurious_used++; f.spurious_woken = true; f.st = Fiber::RUNNABLE; }
    if (f.st == Fiber::PRED) f.st = Fiber::RUNNABLE;
    switch_to(to);
}

void point()
{
    if (!in_exec || nfib <= 1) return;
    // fairness: a thread that spins does not keep the processor for ever (no choice, not counted as a deviation)
    if (++fair_n > (cur ? opt.fair : opt.sched ? 3000 : 20000))
    {
        fair_n = 0;
        for (int k = 1; k < nfib; ++k)
        {
            int i = (cur + k) % nfib;
            if (enabled(i)) { if (fibers[i].st == Fiber::PRED) fibers[i].st = Fiber::RUNNABLE; slot->points++; points_this++; switch_to(i); return; }
        }
    }
    if (!opt.sched && !opt.eager) { if (++points_this > opt.max_points) schedule(); return; }
    schedule();
}
// the thread gives the processor away: the next one that can run does (no choice; spinning loops make progress this way)
static void yield_point()
{
    if (!in_exec || nfib <= 1) return;
    for (int k = 1; k < nfib; ++k)
    {
        int i = (cur + k) % nfib;
        if (enabled(i)) { if (fibers[i].st == Fiber::PRED) fibers[i].st = Fiber::RUNNABLE; slot->points++; if (++points_this > opt.max_points) schedule(); switch_to(i); return; }
    }
    point();
}
int self() { return cur; }
int runnable_others() { int r = 0; for (int i = 0; i < nfib; ++i) if (i != cur && enabled(i)) r++; return r; }

void drain()
{
    // let all others run until they block
    bool s = sched_on; sched_on = false;
    for (int k = 0; k < 1000000; ++k)
    {
        int to = -1;
        for (int i = 0; i < nfib; ++i) if (i != cur && enabled(i)) { to = i; break; }
        if (to < 0) { sched_on = s; return; }
        if (fibers[to].st == Fiber::PRED) fibers[to].st = Fiber::RUNNABLE;
        // the others run under "sched_on = false": they continue until they block, then the lowest runnable runs (us)
        switch_to(to);
    }
    fail("livelock while draining;" + dump_fibers());
}

void wait_until(const std::function<bool()>& pred)
{
    if (pred()) return;
    Fiber& f = fibers[cur];
    f.pred = &pred;
    f.st = Fiber::PRED;
    schedule();
    f.pred = nullptr;
}

// =============================================================== vector clocks
#ifdef MC_RACE
static VC mainvc_dummy;
#endif
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < nfib; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void vc_tick() { fibers[cur].vc.c[cur]++; }

struct SyncObj { bool live = false; bool is_mutex = false; int owner = -1; VC vc; };
static std::unordered_map<void*, SyncObj> sync_objs;
static SyncObj& sobj(void* p)
{
    auto it = sync_objs.find(p);
    if (it == sync_objs.end()) { SyncObj& s = sync_objs[p]; memset(&s.vc, 0, sizeof s.vc); s.live = true; return s; }
    return it->second;
}
void wait_quiescent()
{
    fibers[cur].st = Fiber::QUIET;
    schedule();
    for (int i = 0; i < nfib; ++i) vc_join(fibers[cur].vc, fibers[i].vc);
}
void hb_release(void* o) { SyncObj& s = sobj(o); vc_join(s.vc, fibers[cur].vc); vc_tick(); }
void hb_acquire(void* o) { vc_join(fibers[cur].vc, sobj(o).vc); }
// destroyed synchronisation objects stay in the table as dead until re-initialised

static void fiber_finish()
{
    Fiber& f = fibers[cur];
    f.st = Fiber::DONE;
    for (int i = 0; i < nfib; ++i)
        if (fibers[i].st == Fiber::JOIN && fibers[i].join_target == cur) fibers[i].st = Fiber::RUNNABLE;
    schedule();
    abort();
}
extern "C" void mc_fiber_entry_c()
{
#if MC_ASAN
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
    Fiber& f = fibers[cur];
    try { f.ret = f.fn(f.arg); }
    catch (const std::exception& e) { fail(std::string("uncaught exception in a thread: ") + e.what()); }
    catch (...) { fail("uncaught exception in a thread"); }
    fiber_finish();
}

static int new_fiber(void* (*fn)(void*), void* arg)
{
    int id = -1;
    for (int i = 1; i < nfib; ++i) if (fibers[i].st == Fiber::FREE) { id = i; break; }
    if (id < 0) { if (nfib >= MAXF) fail("too many threads"); id = nfib++; }
    Fiber& f = fibers[id];
    VC oldvc = f.vc;
    f.id = id;
    if (!f.stack)
    {
        f.stack = (char*)mmap(nullptr, FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        f.stack_size = FSTACK;
        mprotect(f.stack, 4096, PROT_NONE);
    }
#if MC_ASAN
    __asan_unpoison_memory_region(f.stack + 4096, f.stack_size - 4096);
#endif
    void** sp = (void**)(f.stack + f.stack_size);
    *--sp = nullptr;
    *--sp = (void*)mc_fiber_tramp;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
    f.fn = fn; f.arg = arg; f.ret = nullptr; f.detached = f.joined = false;
    f.eh[0] = f.eh[1] = nullptr; f.fake = nullptr; f.obj = f.mtx = nullptr; f.spurious_woken = false;
    f.st = Fiber::RUNNABLE;
    uint32_t own = oldvc.c[id];
    f.vc = fibers[cur].vc;
    f.vc.c[id] = std::max(own, f.vc.c[id]) + 1;
    vc_tick();
    return id;
}

} // namespace mc

using namespace mc;

// =============================================================== pthread interposition (--wrap)
extern "C" {
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    int id = new_fiber(fn, arg);
    *t = (pthread_t)(id + 1);
    point();
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** ret)
{
    int id = (int)t - 1;
    point();
    if (id < 0 || id >= nfib || fibers[id].st == Fiber::FREE) fail("pthread_join of a thread that does not exist");
    Fiber& f = fibers[cur];
    while (fibers[id].st != Fiber::DONE) { f.st = Fiber::JOIN; f.join_target = id; schedule(); }
    if (ret) *ret = fibers[id].ret;
    vc_join(f.vc, fibers[id].vc);
    fibers[id].st = Fiber::FREE;
    return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(cur + 1); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*)
{
    SyncObj& s = sobj(m);
    s.live = true; s.is_mutex = true; s.owner = -1;
    memset(&s.vc, 0, sizeof s.vc);
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
    SyncObj& s = sobj(m);
    if (!s.live) fail("destroying a mutex twice");
    if (s.owner >= 0) return EBUSY;
    s.live = false;
    return 0;
}
static void lock_it(void* m)
{
    for (;;)
    {
        SyncObj& s = sobj(m);
        if (!s.live) fail("locking a destroyed mutex");
        if (s.owner < 0) { s.owner = cur; vc_join(fibers[cur].vc, s.vc); return; }
        if (s.owner == cur) fail("deadlock: thread locks a mutex it already holds");
        Fiber& f = fibers[cur];
        f.st = Fiber::MUTEX; f.obj = m;
        schedule();
    }
}
static void unlock_it(void* m)
{
    SyncObj& s = sobj(m);
    if (!s.live) fail("unlocking a destroyed mutex");
    if (s.owner != cur) fail("unlocking a mutex the thread does not hold");
    s.owner = -1;
    s.vc = fibers[cur].vc;
    vc_tick();
    for (int i = 0; i < nfib; ++i)
        if (fibers[i].st == Fiber::MUTEX && fibers[i].obj == m) fibers[i].st = Fiber::RUNNABLE;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); lock_it(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    point();
    SyncObj& s = sobj(m);
    if (!s.live) fail("trylock of a destroyed mutex");
    if (s.owner >= 0) return EBUSY;
    s.owner = cur; vc_join(fibers[cur].vc, s.vc);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { unlock_it(m); return 0; }

int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    SyncObj& s = sobj(c); s.live = true; s.owner = -1; memset(&s.vc, 0, sizeof s.vc);
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
    SyncObj& s = sobj(c);
    if (!s.live) fail("destroying a condition variable twice");
    for (int i = 0; i < nfib; ++i)
        if (fibers[i].st == Fiber::COND && fibers[i].obj == c) fail("destroying a condition variable with waiting threads");
    s.live = false;
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    point();
    SyncObj& s = sobj(c);
    if (!s.live) fail("waiting on a destroyed condition variable");
    unlock_it(m);
    Fiber& f = fibers[cur];
    f.st = Fiber::COND; f.obj = c; f.mtx = m; f.wait_seq = ++wait_counter; f.spurious_woken = false;
    schedule();
    lock_it(m);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{ return __wrap_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    point();
    SyncObj& s = sobj(c);
    if (!s.live) fail("signalling a destroyed condition variable");
    int w[MAXF], n = 0;
    for (int i = 0; i < nfib; ++i) if (fibers[i].st == Fiber::COND && fibers[i].obj == c) w[n++] = i;
    if (!n) return 0;
    std::sort(w, w + n, [](int a, int b) { return fibers[a].wait_seq < fibers[b].wait_seq; });
    int k = (n > 1 && in_exec && opt.sched && opt.bound > 0) ? pick(n, K_SIGNAL, 1) : 0;
    fibers[w[k]].st = Fiber::RUNNABLE;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    point();
    SyncObj& s = sobj(c);
    if (!s.live) fail("signalling a destroyed condition variable");
    for (int i = 0; i < nfib; ++i) if (fibers[i].st == Fiber::COND && fibers[i].obj == c) fibers[i].st = Fiber::RUNNABLE;
    return 0;
}
int __wrap_sched_yield() { yield_point(); return 0; }
int __wrap_usleep(useconds_t) { yield_point(); return 0; }
unsigned __wrap_sleep(unsigned) { yield_point(); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { yield_point(); return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*)
{ double v = vclock; tv->tv_sec = (time_t)v; tv->tv_usec = (suseconds_t)((v - (double)tv->tv_sec) * 1e6); return 0; }
}

// =============================================================== race detector (own tsan runtime)
namespace mc {
static bool g_ignore = false;
void race_ignore(bool on) { g_ignore = on; }
#ifdef MC_RACE
struct Cell { uint32_t clk; uint8_t tid, mask, kind; }; // kind: 0 none 1 read 2 write 3 atomic read 4 atomic write
struct Gran { uintptr_t key; uint32_t gen; uint8_t n; bool freed; Cell c[6]; void* pc[6]; };
static const size_t GT = 1 << 18;
static Gran* gtab = nullptr;
static uint32_t ggen = 1;
static size_t gused = 0;
static Gran* gran(uintptr_t k)
{
    size_t i = (k * 0x9e3779b97f4a7c15ULL) >> 46; // 18 bits
    for (size_t s = 0; ; ++s, i = (i + 1) & (GT - 1))
    {
        Gran& g = gtab[i];
        if (g.gen != ggen)
        {
            if (++gused > GT / 2) fail("race detector: shadow table full");
            g.gen = ggen; g.key = k; g.n = 0; g.freed = false; return &g;
        }
        if (g.key == k) return &g;
    }
}
static Gran* gran_find(uintptr_t k)
{
    size_t i = (k * 0x9e3779b97f4a7c15ULL) >> 46;
    for (;; i = (i + 1) & (GT - 1))
    {
        Gran& g = gtab[i];
        if (g.gen != ggen) return nullptr;
        if (g.key == k) return &g;
    }
}
static const char* kname(int k) { static const char* n[] = { "", "read", "write", "atomic read", "atomic write" }; return n[k]; }

static void access1(uintptr_t a, unsigned size, int kind, void* pc)
{
    Gran* g = gran(a >> 3);
    uint8_t mask = (uint8_t)(((1u << size) - 1) << (a & 7));
    if (g->freed && in_exec)
    {
        char b[200]; snprintf(b, sizeof b, "use after free: %s of freed memory at pc=%p", kname(kind), pc);
        fail(b);
    }
    VC& vc = fibers[cur].vc;
    bool wr = (kind == 2 || kind == 4), at = kind >= 3;
    int slot_i = -1;
    for (int i = 0; i < g->n; ++i)
    {
        Cell& c = g->c[i];
        if (c.tid == cur) { if (c.kind == kind && c.mask == mask) slot_i = i; continue; }
        if (!(c.mask & mask)) continue;
        bool cw = (c.kind == 2 || c.kind == 4), ca = c.kind >= 3;
        if (!wr && !cw) continue;
        if (at && ca) continue;
        // plain read against atomic write is tolerated (word-sized counters read for diagnostics)
        if ((kind == 1 && ca) || (c.kind == 1 && at)) continue;
        if (c.clk > vc.c[c.tid] && opt.race && in_exec)
        {
            char b[300]; snprintf(b, sizeof b, "data race: %s by T%d at pc=%p conflicts with %s by T%d at pc=%p", kname(kind), cur, pc, kname(c.kind), c.tid, g->pc[i]);
            fail(b);
        }
    }
    if (slot_i < 0)
    {
        // drop cells that happen before this access if it is a covering write, else find room
        if (wr) { int j = 0; for (int i = 0; i < g->n; ++i) { Cell& c = g->c[i]; if (!((c.mask & ~mask) == 0 && c.clk <= vc.c[c.tid])) { g->c[j] = c; g->pc[j] = g->pc[i]; j++; } } g->n = j; }
        if (g->n < 6) slot_i = g->n++;
        else { slot_i = 0; for (int i = 0; i < 6; ++i) if (g->c[i].clk <= vc.c[g->c[i].tid]) { slot_i = i; break; } }
    }
    Cell& c = g->c[slot_i];
    c.clk = vc.c[cur]; c.tid = cur; c.mask = mask; c.kind = kind; g->pc[slot_i] = pc;
}
static void access(uintptr_t a, size_t n, int kind, void* pc)
{
    static const uintptr_t errno_at = (uintptr_t)&errno;     // one thread carries all fibers; each has its own errno
    if (a == errno_at) return;
    if (!in_exec || g_ignore || !gtab) return;
    while (n)
    {
        unsigned k = (unsigned)std::min<size_t>(n, 8 - (a & 7));
        access1(a, k, kind, pc);
        a += k; n -= k;
    }
}
void mem_read(const void* p, size_t n, void* pc) { access((uintptr_t)p, n, 1, pc); }
void mem_write(void* p, size_t n, void* pc) { access((uintptr_t)p, n, 2, pc); }
static void** quarantine = nullptr; static size_t nquar = 0, capquar = 0;
static void quar_push(void* p) { if (nquar == capquar) { capquar = capquar ? 2 * capquar : 4096; quarantine = (void**)realloc(quarantine, capquar * sizeof(void*)); } quarantine[nquar++] = p; }
static void race_reset()
{
    if (!gtab) gtab = (Gran*)mmap(nullptr, sizeof(Gran) * GT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (++ggen == 0) { memset(gtab, 0, sizeof(Gran) * GT); ggen = 1; }
    gused = 0;
    // barrier: everything so far happens before everything in the new execution
    VC all; memset(&all, 0, sizeof all);
    for (int i = 0; i < nfib; ++i) vc_join(all, fibers[i].vc);
    for (int i = 0; i < nfib; ++i) { fibers[i].vc = all; fibers[i].vc.c[i]++; }
    for (size_t i = 0; i < nquar; ++i) free(quarantine[i]);
    nquar = 0;
}
static void atomic_op(uintptr_t a, size_t n, bool wr, void* pc)
{
    if (!in_exec || !gtab) return;
    if (opt.atomic_points) point();
    // acquire + release on the address
    access(a, n, wr ? 4 : 3, pc);
    SyncObj& s = sobj((void*)a);
    vc_join(fibers[cur].vc, s.vc);
    if (wr) { s.vc = fibers[cur].vc; vc_tick(); }
}
// memory handed out anew by the C++ runtime: earlier accesses to the address do not count
static void race_fresh(void* p, size_t n)
{
    if (!in_exec || !gtab) return;
    for (uintptr_t k = (uintptr_t)p >> 3; k < ((uintptr_t)p + n + 7) >> 3; ++k) if (Gran* g = gran_find(k)) { g->n = 0; g->freed = false; }
}
static void note_free(void* p)
{
    if (!in_exec || !gtab) return;
    size_t n = malloc_usable_size(p);
    uintptr_t a = (uintptr_t)p;
    void* pc = __builtin_return_address(1);
    if (n <= 65536)
        for (uintptr_t k = a >> 3; k < (a + n) >> 3; ++k)
        {
            // freeing is a write
            if (Gran* g = gran_find(k)) {
                if (g->freed) fail("double free");
                access1(k << 3, 8, 2, pc);
            }
            gran(k)->freed = true;
        }
}
#else
void mem_read(const void*, size_t, void*) { }
void mem_write(void*, size_t, void*) { }
static void race_reset() { }
#endif
} // namespace mc

#ifdef MC_RACE
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, 1, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, 2, PC); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, 1, PC); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, 2, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, 3, PC); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, 4, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access((uintptr_t)a, n, 3, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access((uintptr_t)a, n, 4, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, 1, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, 2, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, 2, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, 1, PC); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_op((uintptr_t)a, sizeof(T), false, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = ~(o & v); return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { atomic_op((uintptr_t)a, sizeof(T), true, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, 1, PC); access((uintptr_t)d, n, 2, PC); return __real_memcpy(d, s, n); }
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, 2, PC); return __real_memset(d, c, n); }
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, 1, PC); access((uintptr_t)d, n, 2, PC); return __real_memmove(d, s, n); }
}
extern "C" {
void* __real___cxa_allocate_exception(size_t) noexcept;
void* __wrap___cxa_allocate_exception(size_t n) noexcept { void* p = __real___cxa_allocate_exception(n); mc::race_fresh(p, n); return p; }
}
static void mc_delete(void* p)
{
    if (!p) return;
    if (in_exec) { note_free(p); quar_push(p); }
    else free(p);
}
void* operator new (size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[] (size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete (void* p) noexcept { mc_delete(p); }
void operator delete[] (void* p) noexcept { mc_delete(p); }
void operator delete (void* p, size_t) noexcept { mc_delete(p); }
void operator delete[] (void* p, size_t) noexcept { mc_delete(p); }
#endif

// =============================================================== worker
namespace mc {
static void start_main_fiber()
{
    nfib = 1; cur = 0;
    Fiber& f = fibers[0];
    f.id = 0; f.st = Fiber::RUNNABLE;
    memset(&f.vc, 0, sizeof f.vc); f.vc.c[0] = 1;
    pthread_attr_t a; size_t sz; void* base;
    pthread_getattr_np(__real_pthread_self(), &a);
    pthread_attr_getstack(&a, &base, &sz);
    f.stack = (char*)base; f.stack_size = sz;
}

static void run_once(const Job& j)
{
    pos = 0; cum_cost = 0; points_this = 0; fair_n = 0; spurious_used = 0;
    g_nontrivial = false;
    slot->ntrace = 0;
    g_history.clear();
    opt = j.opts;
    race_reset();
    in_exec = true; sched_on = true;
    try { j.body(); }
    catch (const std::exception& e) { fail(std::string("uncaught exception: ") + e.what()); }
    catch (...) { fail("uncaught exception of unknown type"); }
    sched_on = false;
    drain();
    in_exec = false;
    if (pos < prefix_len)
    { snprintf(slot->msg, sizeof slot->msg, "NONDETERMINISM: execution ended at choice %zu of a prefix of %zu", pos, prefix_len); slot->failed = 3; _exit(3); }
    if (pos < pts.size()) pts.resize(pos);
    slot->execs++;
    slot->heartbeat++;
    if (g_nontrivial) slot->nontriv++;
    if (cum_cost > slot->maxcost) slot->maxcost = cum_cost;
}

static void save_sample()
{
    int k = slot->nsamples;
    if (k < 3) { snprintf((char*)slot->samples[k], sizeof slot->samples[k], "%s", g_history.c_str()); slot->nsamples = k + 1; }
}

static void run_job(const Job& j, int shard)
{
    pts.clear(); prefix_len = 0;
    uint64_t n = 0;
    for (;;)
    {
        // sample an execution now and then, deterministically
        g_sampling = slot->nsamples < 3 && (n == 2 || n == 177 || n == 5000);
        run_once(j);
        if (g_sampling) { save_sample(); g_sampling = false; }
        n++;
        if (sh->stop.load(std::memory_order_relaxed)) return;
        if ((n & 63) == 0 && now() > g_deadline) { slot->capped = slot->capped + 1; return; }
        if (!advance(shard, j.opts.shards)) return;
    }
}
// shards other than 0 start from the default execution too, but it is only counted once
struct Unit { int job, shard; };

static std::vector<Unit> units;
static std::vector<Job> g_jobs;
static void nondet_report()
{
    fprintf(stderr, "  job %s prefix", g_jobs[slot->job].name.c_str());
    for (size_t i = 0; i < prefix_len; ++i) fprintf(stderr, " %d", (int)pts[i].chosen);
    fprintf(stderr, "\n");
}

static void worker(int w, Harness& h)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    slot = &sh->slot[w];
    start_main_fiber();
    h.init();
    drain();
    for (;;)
    {
        int u = sh->next_job.fetch_add(1);
        if (u >= (int)units.size() || sh->stop.load()) break;
        slot->job = units[u].job; slot->shard = units[u].shard;
        double u0 = now();
        run_job(g_jobs[units[u].job], units[u].shard);
        if (getenv("MC_STAT")) fprintf(stderr, "stat %.2f %s\n", now() - u0, g_jobs[units[u].job].name.c_str());
    }
    slot->job = -1;
    fflush(stdout);
    _exit(0);
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char ch : s) { unsigned char c = ch; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

static uint64_t popcnt(std::atomic<uint64_t>* b)
{ uint64_t n = 0; for (size_t i = 0; i < BITS / 64; ++i) n += __builtin_popcountll(b[i].load(std::memory_order_relaxed)); return n; }

} // namespace mc

namespace mc {
static bool load_replay(const char* file, std::string& job, std::vector<int>& ch)
{
    FILE* f = fopen(file, "r");
    if (!f) return false;
    char line[1 << 16];
    while (fgets(line, sizeof line, f))
    {
        if (!strncmp(line, "job ", 4)) { job = line + 4; while (!job.empty() && (job.back() == '\n')) job.pop_back(); }
        else if (!strncmp(line, "choices", 7)) { char* p = line + 7; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; ch.push_back((int)v); p = e; } }
        else if (line[0] == '+') { char* p = line + 1; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; ch.push_back((int)v); p = e; } }
    }
    fclose(f);
    return true;
}

static void child_replay(Harness& h, const Job& job, const std::vector<int>& ch, unsigned tmo)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    slot = &sh->slot[MAXW - 1];
    start_main_fiber();
    h.init();
    drain();
    g_noting = true;
    alarm(tmo);
    // follow the choices; the number of alternatives is learnt on the way
    pts.clear(); prefix_len = 0;
    pts.resize(ch.size());
    for (size_t i = 0; i < ch.size(); ++i) { pts[i].chosen = ch[i]; pts[i].n = 0; pts[i].kind = 255; pts[i].cost = 0; pts[i].cum = 0; }
    prefix_len = ch.size();
    g_replay = true;
    run_once(job);
    printf("%s\nreplay finished without a failure\n", g_history.c_str());
    fflush(stdout);
    _exit(0);
}

int mc_main(int argc, char** argv, Harness& h)
{
    bool thorough = false;
    int W = 8; double limit = 600; const char* out = nullptr; const char* replay = nullptr; const char* rfile = nullptr;
    bool list = false; const char* only = nullptr;
    double hang = 60;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--workers") W = atoi(argv[++i]);
        else if (a == "--limit") limit = atof(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--replay-out") rfile = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--job") only = argv[++i];
        else if (a == "--hang") hang = atof(argv[++i]);
    }
    setenv("OMP_NUM_THREADS", "1", 1);
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    if (W > MAXW - 2) W = MAXW - 2;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slot = &sh->slot[MAXW - 1];
    h.jobs(thorough, g_jobs);
    if (replay)
    {
        std::string jn; std::vector<int> ch;
        if (!load_replay(replay, jn, ch)) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
        for (auto& j : g_jobs) if (j.name == jn) { child_replay(h, j, ch, 300); }
        fprintf(stderr, "no job named %s\n", jn.c_str());
        return 2;
    }
    for (size_t i = 0; i < g_jobs.size(); ++i)
    {
        if (only && g_jobs[i].name.find(only) == std::string::npos) continue;
        if (list) { printf("%s\n", g_jobs[i].name.c_str()); continue; }
        int S = std::max(1, g_jobs[i].opts.shards);
        for (int s = 0; s < S; ++s) units.push_back(Unit { (int)i, s });
    }
    if (list) return 0;
    double t0 = now();
    g_deadline = t0 + limit;
    // per-unit statistics for finding slow jobs
    std::vector<pid_t> pid(W);
    std::vector<uint64_t> lastbeat(W, 0); std::vector<double> lasttime(W, t0);
    fflush(stdout);
    for (int w = 0; w < W; ++w)
    {
        sh->slot[w].job = -1;
        pid[w] = fork();
        if (pid[w] == 0) { worker(w, h); }
    }
    int alive = W; int badw = -1; std::string why; int badkind = 0;
    while (alive > 0)
    {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
            if (w >= W) continue;
            pid[w] = 0; alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (badw >= 0) continue;
            if (sh->stop.load()) continue;
            badw = w;
            Slot& s = sh->slot[w];
            if (s.failed == 3) { badkind = 3; why = s.msg; }
            else if (s.failed) why = s.msg;
            else if (WIFSIGNALED(st)) why = std::string("process terminated by signal ") + strsignal(WTERMSIG(st));
            else why = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " (assertion, sanitizer report or exit call; see output)";
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !s.failed) badkind = 4;
            sh->stop = 1;
            continue;
        }
        usleep(2000);
        double t = now();
        for (int w = 0; w < W; ++w) if (pid[w])
        {
            if (sh->slot[w].heartbeat != lastbeat[w]) { lastbeat[w] = sh->slot[w].heartbeat; lasttime[w] = t; }
            else if (t - lasttime[w] > hang)
            {
                if (badw < 0) { badw = w; why = "no progress for " + std::to_string((int)hang) + " s (endless loop?)"; badkind = 5; sh->stop = 1; }
                kill(pid[w], SIGKILL);
            }
        }
        if (badw >= 0)
        {
            // stop the others
            for (int w = 0; w < W; ++w) if (pid[w]) kill(pid[w], SIGKILL);
        }
    }
    double wall = now() - t0;
    uint64_t ex = 0, tr = 0, po = 0, nt = 0, cap = 0; int mx = 0; uint64_t cnt[16] = { 0 };
    std::vector<std::string> samples;
    for (int w = 0; w < W; ++w)
    {
        Slot& s = sh->slot[w];
        ex += s.execs; tr += s.transitions; po += s.points; nt += s.nontriv; cap += s.capped; mx = std::max(mx, (int)s.maxcost);
        for (int i = 0; i < 16; ++i) cnt[i] += s.cnt[i];
        for (int k = 0; k < s.nsamples; ++k) if (samples.size() < 6) samples.push_back(s.samples[k]);
    }
    int rc = 0;
    std::string vmsg;
    if (badw >= 0)
    {
        Slot& s = sh->slot[badw];
        int job = s.job;
        std::string jn = job >= 0 ? g_jobs[job].name : "(init)";
        std::vector<int> ch(s.trace, s.trace + std::min<size_t>(s.ntrace, TRACE_MAX));
        if (badkind == 4 && false) rc = 2;
        if (badkind == 3) { fprintf(stderr, "mc: %s\n", why.c_str()); rc = 3; }
        else
        {
            if (rfile)
            {
                FILE* f = fopen(rfile, "w");
                fprintf(f, "harness %s\njob %s\nreason %s\nchoices", h.id(), jn.c_str(), why.c_str());
                int col = 0; for (int c : ch) { if (++col % 500 == 0) fprintf(f, "\n+"); fprintf(f, " %d", c); }
                fprintf(f, "\n"); fclose(f);
            }
            // confirm by replay
            bool confirmed = false;
            if (job < 0) confirmed = true;
            else
            {
                memset((void*)&sh->slot[MAXW - 1], 0, sizeof(Slot));
                fflush(stdout);
                pid_t p = fork();
                if (p == 0) child_replay(h, g_jobs[job], ch, badkind == 5 ? (unsigned)(hang * 2) : 240);
                int st; waitpid(p, &st, 0);
                confirmed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                Slot& r = sh->slot[MAXW - 1];
                if (r.failed == 3) { confirmed = false; fprintf(stderr, "mc: replay diverged: %s\n", r.msg); }
                if (r.failed == 1) vmsg = r.msg;
            }
            if (confirmed) { rc = 1; if (vmsg.empty()) vmsg = why; fprintf(stdout, "mc: job %s: %s\n", jn.c_str(), vmsg.c_str()); }
            else { fprintf(stderr, "mc: failure could not be reproduced on replay: job %s: %s\n", jn.c_str(), why.c_str()); rc = 3; }
        }
    }
    uint64_t nstates = popcnt(sh->statebits), nout = popcnt(sh->outbits);
    if (out)
    {
        FILE* f = fopen(out, "w");
        fprintf(f, "{\"rc\": %d, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"outcomes\": %llu, \"points\": %llu, \"nontrivial\": %llu, \"capped_units\": %llu, \"units\": %zu, \"jobs\": %zu, \"max_deviations\": %d, \"wall\": %.2f",
                rc, (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)nstates, (unsigned long long)nout, (unsigned long long)po, (unsigned long long)nt, (unsigned long long)cap, units.size(), g_jobs.size(), mx, wall);
        fprintf(f, ", \"rule\": %s, \"message\": %s, \"samples\": [", jstr(h.rule()).c_str(), jstr(vmsg).c_str());
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
        fprintf(f, "], \"counters\": {");
        std::vector<std::string> cn = h.counters();
        for (size_t i = 0; i < cn.size() && i < 16; ++i) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(cn[i]).c_str(), (unsigned long long)cnt[i]);
        fprintf(f, "}}\n");
        fclose(f);
    }
    printf("mc: %s: %llu executions, %llu transitions, %llu states, %llu outcomes, %llu points, %zu units, capped %llu, max deviations %d, %.1f s\n", h.id(),
           (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)nstates, (unsigned long long)nout, (unsigned long long)po, units.size(), (unsigned long long)cap, mx, wall);
    return rc;
}
} // namespace mc
