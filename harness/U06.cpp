// U06: semaphore, state, onoff_switch, mutex under all interleavings and spurious wakeups
#include "h.h"
#include <stxxl/bits/common/semaphore.h>
#include <stxxl/bits/common/state.h>
#include <stxxl/bits/common/onoff_switch.h>
#include <stxxl/bits/common/mutex.h>
#include <stxxl/bits/common/condition_variable.h>
using namespace mc;

struct SemOp { int kind, res; };    // 0: ++, 1: --, 2: decrement()
static void sem_program(int init, std::vector<std::vector<int>> prog)
{
    stxxl::semaphore sem(init);
    Lin<int, SemOp> L;
    L.apply = [](int& v, const SemOp& o) {
                  if (o.kind == 1 && v <= 0) return false;
                  v += o.kind == 0 ? 1 : -1;
                  return v == o.res;
              };
    L.final_ok = [](int& v, const SemOp& o) { return o.kind == 1 && v <= 0; };
    Thr t[3];
    for (size_t i = 0; i < prog.size(); ++i)
        t[i].start([&, i] {
                       for (int k : prog[i]) {
                           race_ignore(true); SemOp o { k, 0 }; int h = L.call(o); race_ignore(false);
                           int r = k == 0 ? sem++ : k == 1 ? sem-- : sem.decrement();
                           race_ignore(true); o.res = r; L.ret(h, o); race_ignore(false);
                           transition();
                       }
                   });
    wait_quiescent();
    race_ignore(true);
    int fin = 0, pending = 0; uint64_t hh = mix(7, init);
    for (auto& r : L.recs) { if (r.ret == INT_MAX) pending++; hh = mix(hh, r.op.kind * 64 + r.op.res + 8); hh = mix(hh, r.ret == INT_MAX); }
    (void)fin;
    state(hh); outcome(hh); if (pending) nontrivial();
    std::ostringstream o;
    for (auto& r : L.recs) o << (r.op.kind == 0 ? "inc" : r.op.kind == 1 ? "dec" : "decrement") << "=" << (r.ret == INT_MAX ? std::string("blocked") : std::to_string(r.op.res)) << " ";
    MC_NOTE("semaphore init " << init << ": " << o.str());
    MC_CHECK(L.dfs(init, 0), "semaphore history not explained by a counter: init " << init << ": " << o.str());
    race_ignore(false);
    // release everybody
    int total = 64;
    for (size_t i = 0; i < prog.size() && pending; ++i) while (!t[i].done && total-- > 0) { sem++; wait_quiescent(); }
    for (size_t i = 0; i < prog.size(); ++i) { MC_CHECK(t[i].done, "a waiter of the semaphore was never woken"); t[i].join(); }
}

// one setter thread walks through states; waiters wait for a state which stays reached
static void state_program(std::vector<std::vector<int>> setters, std::vector<int> waits)
{
    stxxl::state<int> st(0);
    int cur = 0; std::vector<int> reached(8, 0); reached[0] = 1;
    Thr s[2], w[2];
    for (size_t i = 0; i < setters.size(); ++i)
        s[i].start([&, i] { for (int v : setters[i]) { race_ignore(true); cur = v; reached[v] = 1; race_ignore(false); st.set_to(v); transition(); } });
    for (size_t i = 0; i < waits.size(); ++i)
        w[i].start([&, i] { st.wait_for(waits[i]); race_ignore(true); MC_CHECK(reached[waits[i]], "wait_for(" << waits[i] << ") returned before the state was set"); race_ignore(false); int v = st(); (void)v; transition(); });
    wait_quiescent();
    race_ignore(true);
    int fin = st();
    bool ok = setters.empty() && fin == 0;
    for (auto& p : setters) if (!p.empty() && p.back() == fin) ok = true;
    MC_CHECK(ok, "final state " << fin << " is not the last one set");
    uint64_t h = mix(11, fin);
    for (size_t i = 0; i < waits.size(); ++i)
    {
        h = mix(h, w[i].done);
        if (fin == waits[i]) MC_CHECK(w[i].done, "thread still waits for state " << waits[i] << " although it is the current state");
        if (!reached[waits[i]]) MC_CHECK(!w[i].done, "wait_for returned for a state never set");
    }
    state(h); outcome(h); nontrivial();
    MC_NOTE("state final " << fin);
    race_ignore(false);
    for (size_t i = 0; i < waits.size(); ++i) if (!w[i].done) { race_ignore(true); reached[waits[i]] = 1; race_ignore(false); st.set_to(waits[i]); wait_quiescent(); MC_CHECK(w[i].done, "waiter of state not woken"); }
    for (auto& x : s) x.join();
    for (auto& x : w) x.join();
}

// the switch has one waiter (it notifies one)
static void switch_program(bool init, std::vector<int> ops, int waitkind)
{
    stxxl::onoff_switch sw(init);
    bool cur = init; std::vector<bool> seen; seen.push_back(init);
    bool wdone = false; size_t completed = 0;
    Thr a, w;
    w.start([&] {
                race_ignore(true); size_t from = completed; race_ignore(false);
                if (waitkind) sw.wait_for_on(); else sw.wait_for_off();
                race_ignore(true);
                bool ok = false;
                for (size_t i = from; i < seen.size(); ++i) if ((int)seen[i] == waitkind) ok = true;
                wdone = true;
                MC_CHECK(ok, "waiting for the switch to be " << (waitkind ? "on" : "off") << " returned although it never was");
                race_ignore(false); transition();
            });
    a.start([&] { for (int v : ops) { race_ignore(true); cur = v; seen.push_back(v); race_ignore(false); if (v) sw.on(); else sw.off(); race_ignore(true); completed++; race_ignore(false); transition(); } });
    wait_quiescent();
    race_ignore(true);
    bool fin = sw.is_on();
    MC_CHECK(fin == cur, "switch position " << fin << " is not the last set");
    if (fin == (bool)waitkind) MC_CHECK(wdone, "the waiter sleeps although the switch is in the awaited position");
    uint64_t h = mix(mix(13, fin), wdone); state(h); outcome(mix(h, ops.size())); nontrivial();
    MC_NOTE("switch " << fin << " waiter done " << wdone);
    race_ignore(false);
    if (!w.done) { race_ignore(true); seen.push_back(waitkind); race_ignore(false); if (waitkind) sw.on(); else sw.off(); wait_quiescent(); MC_CHECK(w.done, "waiter of switch not woken"); }
    a.join(); w.join();
}

// mutual exclusion and scoped locks, including early unlock; condition variable with predicate
static void mutex_program(int n, int mode)
{
    stxxl::mutex m; stxxl::condition_variable c;
    int shared = 0, inside = 0, tickets = 0; bool early = false;
    Thr t[3];
    for (int i = 0; i < n; ++i)
        t[i].start([&, i] {
                       if (mode == 0) {
                           { stxxl::scoped_mutex_lock l(m); race_ignore(true); MC_CHECK(inside == 0, "two threads in a critical section"); inside++; race_ignore(false); point(); shared++; race_ignore(true); inside--; race_ignore(false); }
                           point();
                           { stxxl::scoped_mutex_lock l(m); shared++; l.unlock(); point(); }
                           m.lock(); shared++; m.unlock();
                       } else if (mode == 1) {
                           if (i == 0) { stxxl::scoped_mutex_lock l(m); tickets += n - 1; shared++; l.unlock(); c.notify_all(); }
                           else { stxxl::scoped_mutex_lock l(m); while (tickets == 0) c.wait(l); tickets--; shared++; }
                       } else {
                           if (i == 0) { for (int k = 1; k < n; ++k) { stxxl::scoped_mutex_lock l(m); tickets++; l.unlock(); c.notify_one(); } }
                           else { stxxl::scoped_mutex_lock l(m); while (tickets == 0) c.wait(l); tickets--; shared++; }
                       }
                       transition();
                   });
    for (auto& x : t) x.join();
    int expect = mode == 0 ? 3 * n : mode == 1 ? n : n - 1;
    MC_CHECK(shared == expect, "lost update under the mutex: " << shared << " instead of " << expect);
    MC_CHECK(tickets == 0, "ticket count wrong");
    // the mutex is free again
    { stxxl::scoped_mutex_lock l(m); }
    state(mix(17, shared)); outcome(mix(17, mode)); nontrivial(); (void)early;
}

struct H : Harness
{
    const char* id() { return "U06"; }
    std::string rule() { return "programs of 2-3 threads with 1-3 operations on one primitive; every interleaving within the preemption bound, every order at blocking points, spurious condition wakeups as deviations; non-trivial: some thread had to wait"; }
    static void enum_progs(int threads, int maxops, int kinds, std::function<void(std::vector<std::vector<int>>)> f)
    {
        std::vector<std::vector<int>> seqs;
        std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& v) { if (!v.empty()) seqs.push_back(v); if ((int)v.size() == maxops) return; for (int k = 0; k < kinds; ++k) { v.push_back(k); rec(v); v.pop_back(); } };
        std::vector<int> v; rec(v);
        std::vector<std::vector<int>> p;
        std::function<void(size_t)> rec2 = [&](size_t from) { if ((int)p.size() == threads) { f(p); return; } for (size_t i = from; i < seqs.size(); ++i) { p.push_back(seqs[i]); rec2(i); p.pop_back(); } };
        rec2(0);
    }
    void jobs(bool thorough, std::vector<Job>& out)
    {
        Opts o; o.sched = true; o.bound = thorough ? 4 : 2; o.spurious = thorough ? 2 : 1; o.max_points = 2000;
        auto add = [&](const std::string& n, std::function<void()> f, Opts oo) { Job j; j.name = n; j.body = f; j.opts = oo; out.push_back(j); };
        for (int init = 0; init <= 1; ++init)
        {
            enum_progs(2, 2, 3, [&](std::vector<std::vector<int>> p) { Opts q = o; q.bound++; add("sem2_" + std::to_string(init) + name(p), [=] { sem_program(init, p); }, q); });
            enum_progs(3, thorough ? 2 : 1, 2, [&](std::vector<std::vector<int>> p) { Opts q = o; if (!thorough) q.bound++; add("sem3_" + std::to_string(init) + name(p), [=] { sem_program(init, p); }, q); });
        }
        add("sem3x", [=] { sem_program(0, { { 0, 0 }, { 1 }, { 1 } }); }, o);
        add("sem3y", [=] { sem_program(1, { { 2, 0, 0 }, { 1 }, { 1 } }); }, o);
        for (auto& sets : std::vector<std::vector<std::vector<int>>> { { { 1 } }, { { 1, 2 } }, { { 1, 2, 3 } }, { { 1 }, { 2 } }, { { 1, 2 }, { 2 } }, { { 2, 1 }, { 1 } } })
            for (auto& ws : std::vector<std::vector<int>> { { 1 }, { 2 }, { 1, 2 }, { 2, 2 }, { 0, 1 } })
                add("state" + name(sets) + "w" + name({ ws }), [=] { state_program(sets, ws); }, o);
        for (int init = 0; init < 2; ++init) for (int wk = 0; wk < 2; ++wk)
                for (auto& ops : std::vector<std::vector<int>> { { }, { 1 }, { 0 }, { 1, 0 }, { 0, 1 }, { 1, 0, 1 }, { 0, 1, 0 }, { 1, 1 }, { 0, 0 } })
                { Opts q = o; q.bound += 2; q.spurious = 2; add("switch" + std::to_string(init) + std::to_string(wk) + name({ ops }), [=] { switch_program(init, ops, wk); }, q); }
        for (int mode = 0; mode < 3; ++mode) for (int n = 2; n <= 3; ++n)
                add("mutex" + std::to_string(mode) + std::to_string(n), [=] { mutex_program(n, mode); }, o);
    }
    static std::string name(const std::vector<std::vector<int>>& p) { std::string s; for (auto& v : p) { s += "_"; for (int k : v) s += char('0' + k); } return s; }
};
MC_MAIN(H)
