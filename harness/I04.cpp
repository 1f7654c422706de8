// I04: the two disk queue implementations: order, completeness, shutdown, cancellation before shutdown
#include "io.h"
using namespace mc; using namespace iop;
struct TReq : stxxl::serving_request
{
    TReq(const stxxl::completion_handler& h, stxxl::file* f, void* b, offset_type o, size_type n, request_type t) : serving_request(h, f, b, o, n, t) { }
    void finish_cancelled() { completed(true); }
};
static stxxl::request_queue* make(int impl) { return impl ? (stxxl::request_queue*)new stxxl::request_queue_impl_1q() : (stxxl::request_queue*)new stxxl::request_queue_impl_qwqr(); }
// threads: per thread a string of r/w (submit), c (cancel the last submitted), p (priority change)
static void program(int impl, const std::vector<std::string>& prog, int mode)
{
    Sys s(1, 8);
    stxxl::request_queue* q = make(impl);
    std::vector<std::vector<int>> mine(prog.size());    // submission order per thread
    int next = 0; std::vector<int> base; for (auto& p : prog) { base.push_back(next); for (char c : p) if (c == 'r' || c == 'w') next++; }
    auto run = [&](size_t t) {
        int k = base[t] - 1;
        for (char c : prog[t])
        {
            if (c == 'r' || c == 'w')
            {
                ++k; s.prepare(k, c == 'r', false); Rec& r = s.w.recs[k];
                if (c == 'w') for (size_t i = 0; i < r.bytes; ++i) r.buf[i] = pat(r.off, i);
                s.ptr[k] = stxxl::request_ptr(new TReq(Hd(&s.w, k), s.files[0].get(), r.buf, r.off, r.bytes, c == 'r' ? rq::READ : rq::WRITE));
                q->add_request(s.ptr[k]);
                NoRace n; mine[t].push_back(k);
            }
            else if (c == 'c' || c == 'C')
            {
                int id = c == 'c' ? k : base[t];
                bool r = q->cancel_request(s.ptr[id]);
                if (r) { { NoRace n; MC_CHECK(!s.w.recs[id].served && !s.w.recs[id].cancelled, "cancel reports success for request " << id << " which is served or cancelled already"); s.w.recs[id].cancelled = true; count(0); } static_cast<TReq*>(s.ptr[id].get())->finish_cancelled(); }
                MC_NOTE("cancel " << id << ": " << r);
            }
            else if (c == 'p') q->set_priority_op(stxxl::request_queue::READ);
            else if (c == 'n') q->set_priority_op(stxxl::request_queue::NONE);
            else if (c == 'd') s.ptr[k] = stxxl::request_ptr();
        }
    };
    Thr t[3];
    for (size_t i = 1; i < prog.size(); ++i) t[i].start([&, i] { run(i); });
    run(0);
    for (size_t i = 1; i < prog.size(); ++i) t[i].join();
    if (mode == 1) s.wait(0);
    if (mode == 2) wait_quiescent();
    { NoRace n; int open = 0; for (Rec& r : s.w.recs) open += r.submitted && !r.served_done && !r.cancelled; if (open) nontrivial(); }
    delete q;
    NoRace n;
    for (Rec& r : s.w.recs)
        if (r.submitted) MC_CHECK((r.served_done == 1 && r.handler_done == 1) || r.cancelled, "the queue was shut down without serving request " << r.id);
    for (auto& m : mine)
        for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j)
            {
                Rec& a = s.w.recs[m[i]], & b = s.w.recs[m[j]];
                if (a.cancelled || b.cancelled) continue;
                if (impl == 1 || a.is_read == b.is_read) MC_CHECK(a.order < b.order, "requests " << a.id << " and " << b.id << " reach the device in the wrong order");
            }
    // single submitter, everything submitted before the worker ran: writes first is a policy, not claimed
    race_ignore(false);
    s.finish();
}
// requests given to a queue that is empty, wrong or not running are refused
static void refuse(int impl)
{
    Sys s(1, 1); stxxl::request_queue* q = make(impl); stxxl::request_ptr e;
    bool t1 = false, t2 = false;
    try { q->add_request(e); } catch (const std::invalid_argument&) { t1 = true; }
    try { q->cancel_request(e); } catch (const std::invalid_argument&) { t2 = true; }
    MC_CHECK(t1 && t2, "an empty request is accepted");
    delete q; nontrivial();
    s.finish();
}
// several queues are shut down while one of them still serves; handlers submit to the other queue
static void two_queues(int impl, int handler_target)
{
    Sys s(1, 4); stxxl::request_queue* a = make(impl), * b = make(1 - impl);
    auto put = [&](stxxl::request_queue* q, int k, char c, std::function<void(rq*)> x = nullptr) {
        s.prepare(k, c == 'r', false); Rec& r = s.w.recs[k];
        if (c == 'w') for (size_t i = 0; i < r.bytes; ++i) r.buf[i] = pat(r.off, i);
        s.ptr[k] = stxxl::request_ptr(new TReq(Hd(&s.w, k, x), s.files[0].get(), r.buf, r.off, r.bytes, c == 'r' ? rq::READ : rq::WRITE));
        q->add_request(s.ptr[k]);
    };
    put(a, 0, 'w', [&](rq*) { put(handler_target ? b : a, 2, 'r'); });
    put(b, 1, 'r');
    s.wait(0); if (handler_target == 0) s.wait(2);
    delete a;
    delete b;
    nontrivial(); s.finish();
}
struct H : Harness
{
    const char* id() { return "I04"; }
    void init() { io_init(); }
    std::string rule() { return "queue created, 1-3 threads submit up to 4 requests of every direction mix, optionally cancel, the queue is destroyed at every moment; every interleaving within the preemption bound, both queue implementations; non-trivial: the shutdown found requests not yet served"; }
    std::vector<std::string> counters() { return { "successful cancels" }; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.sched = true; o.bound = th ? 4 : 2; o.max_points = 20000; o.atomic_points = ATOMIC && th; o.spurious = 1;
        auto add = [&](const std::string& n, std::function<void()> f, int extra = 0) { Job j; j.name = n; j.body = f; j.opts = o; j.opts.bound += extra; out.push_back(j); };
        for (int impl = 0; impl < 2; ++impl)
        {
            std::string I = impl ? "1q" : "qwqr";
            add(I + ".refuse", [=] { refuse(impl); });
            for (int h = 0; h < 2; ++h) add(I + ".two" + std::to_string(h), [=] { two_queues(impl, h); }, th ? -1 : 0);
            std::vector<std::string> single = { "" };
            std::function<void(std::string)> rec = [&](std::string x) { if (!x.empty()) single.push_back(x); if (x.size() == (th ? 4 : 3)) return; rec(x + "r"); rec(x + "w"); };
            rec("");
            for (auto& p : single) for (int m = 0; m < 3; ++m) if (!p.empty() || m != 1) add(I + "." + p + std::to_string(m), [=] { program(impl, { p }, m); }, p.size() >= 4 ? -2 : 0);
            for (std::string p : { "rc", "wc", "rrc", "rrC", "wrC", "rwC", "wwC", "wwc", "rcr", "wcw", "rcw", "wcr", "rcrc", "wcwc", "rwcC", "wrcC", "pr", "npwr", "rnwpr", "rdwd", "rcc", "rCrC" }) for (int m = 0; m < 3; ++m) if (!(m == 1 && p[0] == 'r' && p[1] == 'd')) add(I + "." + p + std::to_string(m), [=] { if (p[0] == 'p' || p[0] == 'n') program(impl, { p }, m); else program(impl, { p }, m); });
            std::vector<std::string> duo = { "r", "w", "rr", "ww", "rw", "wr", "rc", "wc" };
            for (size_t i = 0; i < duo.size(); ++i) for (size_t j = i; j < duo.size(); ++j) for (int m = 0; m < (th ? 3 : 1); ++m) add(I + "." + duo[i] + "+" + duo[j] + std::to_string(m), [=] { program(impl, { duo[i], duo[j] }, m); }, duo[i].size() + duo[j].size() > 2 ? -1 : 0);
            for (std::string p : { "rrr", "www", "rwr", "wrr", "wwr" }) add(I + ".trio" + p, [=] { program(impl, { p.substr(0, 1), p.substr(1, 1), p.substr(2, 1) }, 0); }, -2);
        }
    }
};
MC_MAIN(H)
