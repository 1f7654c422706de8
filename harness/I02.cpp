// I02: cancelling under all interleavings with the I/O thread and with other cancelling threads
#include "io.h"
using namespace mc; using namespace iop;
// types: direction of each request; plan: per request, bit0: main cancels, bit1: second thread cancels; order of cancels
static void program(unsigned reads, int n, const std::vector<int>& main_cancels, const std::vector<int>& other_cancels, bool poll_too, unsigned fails, bool two_files)
{
    Sys s(2, n + 1);
    Thr t; std::vector<stxxl::request_ptr> cp(n);
    bool pre = other_cancels.empty();
    for (int i = 0; i < n; ++i) { s.submit(i, reads >> i & 1, fails >> i & 1, two_files ? i & 1 : 0); cp[i] = s.ptr[i]; }
    if (!pre) t.start([&] { for (int c : other_cancels) { s.cancel(c, cp[c]); if (poll_too) s.poll(c, cp[c], false); } });
    for (int c : main_cancels) { bool r = s.cancel(c, s.ptr[c]); MC_NOTE("cancel " << c << ": " << r); if (poll_too) s.poll(c, s.ptr[c], false); }
    // later requests are served
    s.submit(n, !(reads & 1), false);
    s.wait(n);
    t.join();
    for (int i = 0; i < n; ++i) { s.wait(i, s.ptr[i]); s.poll(i, s.ptr[i], false); }
    { NoRace nr; for (Rec& r : s.w.recs) if (r.cancelled) { nontrivial(); count(0); } }
    for (auto& c : cp) c = stxxl::request_ptr();
    s.finish();
}
// a thread sleeps in wait() on the request that is cancelled; the queue is shut down right after
static void wait_cancel(bool read, bool second, bool any)
{
    Sys s(1, 2); Thr t;
    s.submit(0, read, false);
    if (second) s.submit(1, !read, false);
    stxxl::request_ptr c = s.ptr[0];
    t.start([&] {
        if (any) { stxxl::wait_any(&c, 1); NoRace n; Rec& r = s.w.recs[0]; MC_CHECK(r.served_done || r.cancelled || 1, ""); }
        else c->wait();
        NoRace n; });
    s.cancel(0, s.ptr[0]);
    t.join();
    s.wait(0);
    c = stxxl::request_ptr();
    { NoRace nr; if (s.w.recs[0].cancelled) nontrivial(); }
    s.finish();
}
// cancel_all counts what it cancelled
static void all(int n, unsigned reads)
{
    Sys s(1, n);
    for (int i = 0; i < n; ++i) s.submit(i, reads >> i & 1, false);
    // marks must be known before the handler could run: served requests are found by their count
    long k = stxxl::cancel_all(s.ptr.begin(), s.ptr.begin() + n);
    wait_quiescent();
    long served = 0;
    { NoRace nr; for (Rec& r : s.w.recs) { served += r.served; if (!r.served) r.cancelled = true; MC_CHECK(r.handler == r.served, "handler runs " << r.handler << " for " << r.served << " transfers"); } }
    MC_CHECK(k == n - served, "cancel_all reports " << k << " cancelled requests, " << n - served << " were not served");
    for (int i = 0; i < n; ++i) s.wait(i);
    if (k) nontrivial();
    s.finish();
}
// cancel after completion, after cancellation, with no queue at all
static void late()
{
    Sys s(1, 2);
    s.submit(0, true, false); s.wait(0);
    MC_CHECK(!s.cancel(0, s.ptr[0]), "cancelling a completed request reports success");
    s.submit(1, false, false);
    bool c = s.cancel(1, s.ptr[1]);
    MC_CHECK(!s.ptr[1]->cancel(), "cancelling twice reports success twice");
    if (c) { s.poll(1, s.ptr[1], false); MC_CHECK(s.ptr[1]->poll(), "a cancelled request counts as finished"); nontrivial(); }
    s.wait(1); s.finish();
}
struct H : Harness
{
    const char* id() { return "I02"; }
    void init() { io_init(); }
    std::string rule() { return "1-3 queued requests of every direction, cancelled by one or two threads in every order while the I/O thread runs, then further requests, waits and shutdown, under every interleaving within the preemption bound; non-trivial: some cancel succeeded"; }
    std::vector<std::string> counters() { return { "successful cancels" }; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.sched = true; o.bound = (th ? 3 : 2); o.max_points = 20000; o.atomic_points = ATOMIC;
        auto add = [&](const std::string& n, std::function<void()> f, int extra = 0) { Job j; j.name = n; j.body = f; j.opts = o; j.opts.bound += extra; out.push_back(j); };
        add("late", [=] { late(); });
        for (int b = 0; b < 8; ++b) add("wait" + std::to_string(b), [=] { wait_cancel(b & 1, b & 2, b & 4); });
        for (int n = 1; n <= 3; ++n) for (unsigned r = 0; r < (1u << n); ++r) add("all" + std::to_string(n) + std::to_string(r), [=] { all(n, r); });
        for (int n = 1; n <= (th ? 3 : 2); ++n)
        {
            std::vector<std::vector<int>> seqs; std::vector<int> v;
            std::function<void()> rec = [&] { seqs.push_back(v); if ((int)v.size() == n) return; for (int i = 0; i < n; ++i) { if (std::count(v.begin(), v.end(), i)) continue; v.push_back(i); rec(); v.pop_back(); } };
            rec();
            for (unsigned r = 0; r < (1u << n); ++r) for (size_t a = 0; a < seqs.size(); ++a) for (size_t b = 0; b < seqs.size(); ++b)
                    {
                        if (seqs[a].empty() && seqs[b].empty()) continue;
                        if (n >= 2 && !th && !seqs[b].empty() && seqs[b].size() + seqs[a].size() > 3) continue;
                        if (n == 3 && seqs[a].size() + seqs[b].size() > 3) continue;
                        for (int p = 0; p < 2; ++p) for (unsigned f = 0; f < (p && n < 3 ? 2u : 1u); ++f)
                            { auto A = seqs[a], B = seqs[b]; add("c" + std::to_string(n) + "." + std::to_string(r) + "." + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(p) + std::to_string(f), [=] { program(r, n, A, B, p, f ? (1u << n) - 1 : 0, n == 2 && p); }, (B.empty() ? 0 : -1) - (n == 3)); }
                    }
        }
    }
};
MC_MAIN(H)
