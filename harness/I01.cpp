// I01: request lifecycle under all interleavings of submitting, waiting, polling and I/O threads
#include "io.h"
using namespace mc; using namespace iop;

// user programs over at most 2 requests in the main thread; a second thread works on request 0 or on its own request
static const char* op_names[] = { "read", "write", "poll0", "poll1", "wait0", "wait1", "drop0", "drop1" };
static void program(const std::vector<int>& ops, int other, unsigned failmask, bool two_queues)
{
    Sys s(2, 4, !two_queues);
    int n = 0; Thr t; bool tstarted = false; stxxl::request_ptr copy;
    auto start_other = [&] {
        if (other == 0 || tstarted) return;
        tstarted = true;
        if (other < 4) copy = s.ptr[0];
        t.start([&] {
            if (other == 1) s.wait(0, copy, false);
            else if (other == 2) { s.poll(0, copy, false); copy = stxxl::request_ptr(); }
            else if (other == 3) { copy = stxxl::request_ptr(); }
            else if (other == 4) { s.submit(2, false, false, 1); s.wait(2); }
            else if (other == 5) { s.submit(2, true, false, 1); s.ptr[2] = stxxl::request_ptr(); }
        });
    };
    if (other >= 4) start_other();
    for (int o : ops)
    {
        MC_NOTE("main: " << op_names[o]);
        if (o <= 1) { s.submit(n, o == 0, failmask >> n & 1, two_queues ? n & 1 : 0); n++; if (n == 1) start_other(); }
        else if (o <= 3) { if (s.ptr[o - 2].valid()) s.poll(o - 2, s.ptr[o - 2], other == 0 || other >= 4 || o == 3); }
        else if (o <= 5) { if (s.ptr[o - 4].valid()) s.wait(o - 4, s.ptr[o - 4], other == 0 || other >= 4 || o == 5); }
        else s.ptr[o - 6] = stxxl::request_ptr();
    }
    if (tstarted) t.join();
    copy = stxxl::request_ptr();
    for (Rec& r : s.w.recs) { NoRace nr; if (r.submitted && !r.waited) nontrivial(); }
    s.finish();
}
// the file goes away as soon as every request on it has been waited for
static void file_death(int nreq, bool writes)
{
    Sys s(1, nreq);
    for (int i = 0; i < nreq; ++i) s.submit(i, !writes || i == 1, false);
    for (int i = nreq; i-- > 0; ) s.wait(i);
    MC_CHECK(s.files[0]->get_request_nref() == 0, "pending requests after all were waited for");
    s.files.clear();
    for (int i = 0; i < nreq; ++i) MC_CHECK(s.poll(i, s.ptr[i], false), "poll after the end");
    s.finish(); nontrivial();
}
// handlers that submit a further request, hold or release a reference, or signal another thread
static void handler_prog(int kind)
{
    Sys s(1, 4);
    stxxl::request_ptr held; bool signalled = false;
    s.submit(0, false, false, 0, [&](rq* q) {
        if (kind == 0) { s.submit(1, true, false); }
        else if (kind == 1) { held = stxxl::request_ptr(q); }
        else if (kind == 2) { s.submit(1, false, false); s.submit(2, true, false); s.ptr[1] = stxxl::request_ptr(); }
        else signalled = true;
    });
    if (kind == 3) s.submit(1, true, true);
    s.wait(0);
    if (kind == 0) s.wait(1);
    if (kind == 1) { MC_CHECK(held == s.ptr[0], "handler got another request"); s.ptr[0] = stxxl::request_ptr(); MC_CHECK(s.poll(0, held, false), "poll through the held reference"); held = stxxl::request_ptr(); }
    if (kind == 2) s.wait(2);
    if (kind == 3) { MC_CHECK(signalled, "handler did not run"); s.wait(1); }
    nontrivial();
    s.finish();
}
// several threads make their first request at the same time
static void first_use(int nthreads, bool two_queues)
{
    Sys s(2, 3, !two_queues);
    Thr t[3];
    for (int i = 0; i < nthreads; ++i) t[i].start([&, i] { s.submit(i, i & 1, false, two_queues ? i & 1 : 0); if (i != 1) s.wait(i); });
    for (auto& x : t) x.join();
    nontrivial();
    s.finish();
}
// one request, several waiters
static void many_waiters(int n, bool fails)
{
    Sys s(1, 1); Thr t[3]; stxxl::request_ptr c[3];
    s.submit(0, true, fails);
    for (int i = 0; i < n; ++i) { c[i] = s.ptr[0]; t[i].start([&, i] { s.wait(0, c[i], false); c[i] = stxxl::request_ptr(); }); }
    s.ptr[0] = stxxl::request_ptr();
    for (auto& x : t) x.join();
    nontrivial(); s.finish();
}
struct H : Harness
{
    const char* id() { return "I01"; }
    void init() { io_init(); }
    std::string rule() { return "all client programs up to the stated length over two requests (read/write/poll/wait/drop), with a second client thread and failing transfers, run under every interleaving within the preemption bound; non-trivial: some request was never waited for, or several threads took part"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.sched = true; o.bound = (th ? 2 : 1) + ATOMIC; o.max_points = 20000; o.atomic_points = ATOMIC; o.spurious = th ? 1 : 0;
        auto add = [&](const std::string& n, std::function<void()> f, int extra = 0) { Job j; j.name = n; j.body = f; j.opts = o; j.opts.bound += extra; out.push_back(j); };
        for (int k = 0; k < 4; ++k) add("handler" + std::to_string(k), [=] { handler_prog(k); });
        for (int q = 0; q < 2; ++q) add("first2." + std::to_string(q), [=] { first_use(2, q); });
        add("first3", [=] { first_use(3, true); }, -2);
        for (int n = 2; n <= 3; ++n) for (int f = 0; f < 2; ++f) add("waiters" + std::to_string(n) + std::to_string(f), [=] { many_waiters(n, f); }, n == 3 ? -1 : 0);
        for (int n = 1; n <= (th ? 3 : 2); ++n) for (int w = 0; w < 2; ++w) add("filedeath" + std::to_string(n) + std::to_string(w), [=] { file_death(n, w); });
        int L = th ? 4 : 3;
        std::vector<int> v;
        std::function<void(int, int)> rec = [&](int n, int dropped) {
            if (!v.empty())
                for (int other = 0; other <= 5; ++other) for (unsigned fm = 0; fm < (n == 2 && (th || other == 0) ? 4u : 2u); ++fm) for (int tq = 0; tq < (n == 2 || other >= 4 ? 2 : 1); ++tq)
                        {
                            if ((int)v.size() >= 3 && other && !th && (tq || fm == 0 || other == 3 || other == 5 || n == 2)) continue;
                            std::string nm = "p"; for (int x : v) nm += char('0' + x);
                            auto vv = v; add(nm + ".t" + std::to_string(other) + ".f" + std::to_string(fm) + ".q" + std::to_string(tq), [=] { program(vv, other, fm, tq); }, (other >= 4 || (other && tq) ? -1 : 0) - ((int)v.size() >= 3 ? 1 : 0));
                        }
            if ((int)v.size() == L) return;
            for (int op = 0; op < 8; ++op)
            {
                if (op <= 1 && n == 2) continue;
                int idx = op & 1; if (op >= 2 && (idx >= n || (dropped >> idx & 1))) continue;
                v.push_back(op); rec(n + (op <= 1), dropped | (op >= 6 ? 1 << idx : 0)); v.pop_back();
            }
        };
        rec(0, 0);
    }
};
MC_MAIN(H)
