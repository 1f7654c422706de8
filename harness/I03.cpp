// I03: wait_any / wait_all / poll_any over every mix of finished, pending, failing and cancelled requests
#include "io.h"
using namespace mc; using namespace iop;
typedef std::vector<stxxl::request_ptr>::iterator It;
// state of request i before the call: 0 pending read, 1 pending write, 2 finished, 3 pending failing, 4 finished failing, 5 cancelled
static void check_released(Sys& s, int n)
{
    // nothing may refer to the caller's stack: a switch registered by a call that has returned is still in the set
    for (int i = 0; i < n; ++i)
        if (s.ptr[i].valid()) { auto* r = dynamic_cast<stxxl::request_with_waiters*>(s.ptr[i].get()); if (r->num_waiters() != 0) fail("request " + std::to_string(i) + " still refers to the stack of a finished wait_any"); }
}
static void program(const std::vector<int>& kinds, int call, int files, int again)
{
    int n = (int)kinds.size();
    Sys s(2, n, files == 1);
    // finished ones first, with the queue idle
    for (int i = 0; i < n; ++i)
        if (kinds[i] == 2 || kinds[i] == 4) { quiet(true); s.submit(i, true, kinds[i] == 4, i % files); s.wait(i); quiet(false); }
    for (int i = 0; i < n; ++i)
        if (kinds[i] != 2 && kinds[i] != 4) s.submit(i, kinds[i] != 1, kinds[i] == 3, i % files);
    for (int i = 0; i < n; ++i)
        if (kinds[i] == 5) s.cancel(i, s.ptr[i]);
    for (int rep = 0; rep <= again; ++rep)
    {
        if (call == 0)
        {
            bool threw = false; It res; size_t at = 0;
            try { if (rep) at = stxxl::wait_any(&s.ptr[0], n), res = s.ptr.begin() + at; else res = stxxl::wait_any(s.ptr.begin(), s.ptr.begin() + n); } catch (const stxxl::io_error&) { threw = true; }
            NoRace nr;
            bool anyfail = false; for (Rec& r : s.w.recs) if (r.fails && r.served_done) anyfail = true;
            if (threw) { MC_CHECK(anyfail, "wait_any reports an error no request had"); nontrivial(); }
            else
            {
                MC_CHECK(res != s.ptr.begin() + n, "wait_any returned without designating a request");
                int i = res - s.ptr.begin(); Rec& r = s.w.recs[i];
                MC_NOTE("wait_any -> " << i);
                MC_CHECK(i >= 0 && i < n, "wait_any designates no request of the range");
                MC_CHECK(r.cancelled || r.served_done == 1, "wait_any designates request " << i << " which has not completed");
                MC_CHECK(r.cancelled || !r.fails, "wait_any designates a failed request without reporting the error");
                r.seen_done = true;
            }
            race_ignore(false);
            if (!threw) { int i = res - s.ptr.begin(); MC_CHECK(s.poll(i, s.ptr[i]), "designated request does not poll as completed"); }
        }
        else if (call == 1)
        {
            bool threw = false;
            try { if (rep) stxxl::wait_all(&s.ptr[0], n); else stxxl::wait_all(s.ptr.begin(), s.ptr.begin() + n); } catch (const stxxl::io_error&) { threw = true; }
            NoRace nr; bool anyfail = false;
            for (Rec& r : s.w.recs) { if (r.fails && !r.cancelled) anyfail = true; }
            MC_CHECK(threw == anyfail, (anyfail ? "wait_all hides the failure of a request" : "wait_all reports an error no request had"));
            if (!threw) for (Rec& r : s.w.recs) MC_CHECK(r.cancelled || (r.served_done == 1 && r.handler_done == 1), "wait_all returned before request " << r.id << " had completed");
            if (threw) nontrivial();
        }
        else
        {
            bool threw = false, none = false; size_t at = 0;
            std::vector<bool> done; { NoRace nr; for (Rec& r : s.w.recs) done.push_back(r.cancelled || r.handler_done); }
            try { if (rep) none = !stxxl::poll_any(&s.ptr[0], n, at); else { It x = stxxl::poll_any(s.ptr.begin(), s.ptr.begin() + n); at = x - s.ptr.begin(); none = at == (size_t)n; } } catch (const stxxl::io_error&) { threw = true; }
            NoRace nr; bool anyfail = false; for (Rec& r : s.w.recs) if (r.fails && r.served_done) anyfail = true;
            if (threw) { MC_CHECK(anyfail, "poll_any reports an error no request had"); nontrivial(); }
            else if (none) { for (int i = 0; i < n; ++i) { MC_CHECK(!(kinds[i] == 2 || kinds[i] == 4 || s.w.recs[i].cancelled), "poll_any reports none although request " << i << " was finished"); MC_CHECK(!s.w.recs[i].seen_done, "poll_any reports none after request " << i << " was seen finished"); } (void)done; }
            else
            {
                MC_CHECK(at < (size_t)n, "poll_any designates no request of the range"); Rec& r = s.w.recs[at];
                MC_CHECK(r.cancelled || (r.served_done && !r.fails), "poll_any designates request " << at << " which has not completed"); r.seen_done = true;
            }
        }
        check_released(s, n);
    }
    // the stack frame of the call is gone; let every remaining request complete
    char trash[512]; memset(trash, 0x5a, sizeof trash); asm volatile("" : : "r"(trash) : "memory");
    for (int i = 0; i < n; ++i) s.wait(i, s.ptr[i], false);
    for (int k : kinds) if (k == 0 || k == 1 || k == 3) nontrivial();
    s.finish();
}
// two threads wait for any of overlapping sets
static void two_waiters(int k0, int k1, int same)
{
    Sys s(2, 2, false); Thr t; std::vector<stxxl::request_ptr> c(2);
    s.submit(0, true, k0 == 3, 0); s.submit(1, k1 != 1, k1 == 3, 1);
    c[0] = s.ptr[0]; c[1] = s.ptr[1];
    auto go = [&](std::vector<stxxl::request_ptr>& v, bool rev) {
        if (rev) std::swap(v[0], v[1]);
        bool threw = false; It r;
        try { r = stxxl::wait_any(v.begin(), v.end()); } catch (const stxxl::io_error&) { threw = true; }
        NoRace nr;
        if (!threw) { int id = (r - v.begin()) ^ (int)rev; MC_CHECK(s.w.recs[id].served_done, "wait_any designates an unfinished request"); MC_CHECK(!s.w.recs[id].fails, "failure hidden"); }
        else MC_CHECK(s.w.recs[0].fails || s.w.recs[1].fails, "error invented");
    };
    t.start([&] { go(c, !same); });
    go(s.ptr, false);
    t.join();
    check_released(s, 2);
    if (!same) std::swap(c[0], c[1]);
    s.wait(0, s.ptr[0], false); s.wait(1, s.ptr[1], false);
    c.clear(); nontrivial(); s.finish();
}
struct H : Harness
{
    const char* id() { return "I03"; }
    void init() { io_init(); }
    std::string rule() { return "every mix of 1-3 requests (pending read/write, finished, failing, already failed, cancelled) on one or two queues, each of wait_any, wait_all, poll_any once and twice, under every interleaving with the I/O threads within the preemption bound and with spurious wakeups; non-trivial: a pending or failing request takes part"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.sched = true; o.bound = th ? 3 : 2; o.max_points = 20000; o.atomic_points = false; o.spurious = 1;
        auto add = [&](const std::string& n, std::function<void()> f, int extra = 0) { Job j; j.name = n; j.body = f; j.opts = o; j.opts.bound += extra; out.push_back(j); };
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int same = 0; same < 2; ++same) add("two" + std::to_string(a) + std::to_string(b) + std::to_string(same), [=] { two_waiters(a == 2 ? 3 : 0, b == 2 ? 3 : b, same); }, -1);
        for (int n = 1; n <= 3; ++n)
        {
            int total = 1; for (int i = 0; i < n; ++i) total *= 6;
            for (int c = 0; c < total; ++c) for (int call = 0; call < 3; ++call) for (int files = 1; files <= (n > 1 ? 2 : 1); ++files)
                    {
                        std::vector<int> k; int x = c; for (int i = 0; i < n; ++i) { k.push_back(x % 6); x /= 6; }
                        int pend = 0; for (int q : k) pend += q != 2 && q != 4;
                        if (n == 3 && !th && (files == 2 || call == 1)) continue;
                        for (int again = 0; again < (n == 3 ? 1 : 2); ++again)
                            add("k" + std::to_string(n) + "." + std::to_string(c) + "." + std::to_string(call) + std::to_string(files) + std::to_string(again), [=] { program(k, call, files, again); }, (files == 2 || n == 3 ? -1 : 0) - (again && pend > 1));
                    }
        }
    }
};
MC_MAIN(H)
