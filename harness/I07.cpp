// I07: I/O statistics under histories and interleavings of transfers, waits, cached transfers and cancellations
#include "io.h"
#include <stxxl/bits/io/mem_file.h>
#include <cmath>
using namespace mc; using namespace iop;
typedef stxxl::stats S;
static S* fresh()
{
    // one object per execution, in memory the race detector knows nothing about
    S::instance = NULL;
    return S::get_instance();
}
static void drop() { S::destroy_instance(); S::instance = NULL; }
struct Ref { unsigned r = 0, w = 0, cr = 0, cw = 0; int64_t vr = 0, vw = 0, cvr = 0, cvw = 0; double tr = 0, tw = 0, pr = 0, pw = 0, pio = 0, tt = 0, ttr = 0, ttw = 0; };
static bool eq(double a, double b) { return std::fabs(a - b) < 1e-5; }
template <class D> static void counts(const D& s, const Ref& m, const char* when)
{
    MC_CHECK(s.get_reads() == m.r && s.get_writes() == m.w, when << ": " << s.get_reads() << " reads and " << s.get_writes() << " writes instead of " << m.r << " and " << m.w);
    MC_CHECK(s.get_read_volume() == m.vr && s.get_written_volume() == m.vw, when << ": volumes " << s.get_read_volume() << "/" << s.get_written_volume() << " instead of " << m.vr << "/" << m.vw);
    MC_CHECK(s.get_cached_reads() == m.cr && s.get_cached_writes() == m.cw && s.get_cached_read_volume() == m.cvr && s.get_cached_written_volume() == m.cvw, when << ": cached operations differ");
}
template <class D> static void times(const D& s, const Ref& m, const char* when)
{
    MC_CHECK(eq(s.get_read_time(), m.tr) && eq(s.get_write_time(), m.tw), when << ": serving times " << s.get_read_time() << "/" << s.get_write_time() << " instead of " << m.tr << "/" << m.tw);
    MC_CHECK(eq(s.get_pread_time(), m.pr) && eq(s.get_pwrite_time(), m.pw) && eq(s.get_pio_time(), m.pio), when << ": parallel times " << s.get_pread_time() << "/" << s.get_pwrite_time() << "/" << s.get_pio_time() << " instead of " << m.pr << "/" << m.pw << "/" << m.pio);
    MC_CHECK(eq(s.get_io_wait_time(), m.tt) && eq(s.get_wait_read_time(), m.ttr) && eq(s.get_wait_write_time(), m.ttw), when << ": wait times " << s.get_io_wait_time() << "/" << s.get_wait_read_time() << "/" << s.get_wait_write_time() << " instead of " << m.tt << "/" << m.ttr << "/" << m.ttw);
}
static Ref sub(const Ref& a, const Ref& b)
{
    Ref c; c.r = a.r - b.r; c.w = a.w - b.w; c.cr = a.cr - b.cr; c.cw = a.cw - b.cw; c.vr = a.vr - b.vr; c.vw = a.vw - b.vw; c.cvr = a.cvr - b.cvr; c.cvw = a.cvw - b.cvw;
    c.tr = a.tr - b.tr; c.tw = a.tw - b.tw; c.pr = a.pr - b.pr; c.pw = a.pw - b.pw; c.pio = a.pio - b.pio; c.tt = a.tt - b.tt; c.ttr = a.ttr - b.ttr; c.ttw = a.ttw - b.ttw; return c;
}
// every history of starts, ends, clock steps and snapshots, exact oracle
static void history(int depth, int subset)
{
    vclock = 1000000.0;
    S* s = fresh(); Ref m; int ar = 0, aw = 0, wk[3] = { 0, 0, 0 };
    std::vector<std::pair<stxxl::stats_data, std::pair<Ref, double> > > snaps; uint64_t h = subset;
    std::vector<size_t> szr, szw;
    static const int sets[2][12] = { { 0, 1, 2, 3, 10, 11, 12, 6, 7, -1 }, { 0, 1, 8, 9, 4, 5, 10, 11, 2, 13, 14, -1 } };
    int n = 0; while (sets[subset][n] >= 0) n++;
    for (int d = 0; d < depth; ++d)
    {
        int op = sets[subset][choose(n)]; h = mix(h, op);
        if (op == 0) { size_t z = 100 + d * (size_t)3000000000u; s->read_started(z); m.r++; m.vr += z; ar++; szr.push_back(z); }
        else if (op == 1) { if (!ar) break; s->read_finished(); ar--; szr.pop_back(); }
        else if (op == 2) { size_t z = 7 + d; s->write_started(z, vclock); m.w++; m.vw += z; aw++; szw.push_back(z); }
        else if (op == 3) { if (!aw) break; s->write_finished(); aw--; szw.pop_back(); }
        else if (op == 4) { s->read_cached(50 + d); m.cr++; m.cvr += 50 + d; }
        else if (op == 5) { s->write_cached(60 + d); m.cw++; m.cvw += 60 + d; }
        else if (op == 6) { if (!ar) break; s->read_canceled(szr.back()); m.r--; m.vr -= szr.back(); szr.pop_back(); ar--; nontrivial(); }
        else if (op == 7) { if (!aw) break; s->write_canceled(szw.back()); m.w--; m.vw -= szw.back(); szw.pop_back(); aw--; nontrivial(); }
        else if (op == 8) { int k = choose(3); s->wait_started((S::wait_op_type)k); wk[k]++; h = mix(h, k); }
        else if (op == 9) { int k = choose(3); if (!wk[k]) break; s->wait_finished((S::wait_op_type)k); wk[k]--; h = mix(h, k); }
        else if (op == 10 || op == 11)
        {
            double t = op == 10 ? 1 : 16; vclock += t; int wa = wk[0] + wk[1] + wk[2];
            m.tr += ar * t; m.tw += aw * t; m.pr += ar ? t : 0; m.pw += aw ? t : 0; m.pio += ar + aw ? t : 0; m.tt += wa * t; m.ttr += wk[S::WAIT_OP_READ] * t; m.ttw += (wk[S::WAIT_OP_WRITE] + wk[S::WAIT_OP_ANY]) * t;
            if (ar + aw > 1 || wa > 1) nontrivial();
        }
        else if (op == 12 || op == 13)
        {
            counts(*s, m, "statistics");
            if (!ar && !aw && !wk[0] && !wk[1] && !wk[2]) { times(*s, m, "statistics"); snaps.push_back(std::make_pair(stxxl::stats_data(*s), std::make_pair(m, vclock))); }
        }
        else
        {
            if (ar || aw || wk[0] || wk[1] || wk[2]) break;
            s->reset(); m = Ref(); snaps.clear(); counts(*s, m, "after reset"); times(*s, m, "after reset");
            MC_CHECK(eq(s->get_last_reset_time(), vclock), "time of the last reset"); nontrivial();
        }
        transition(); counts(*s, m, "after the step"); state(h);
    }
    while (ar) { s->read_finished(); ar--; }
    while (aw) { s->write_finished(); aw--; }
    for (int k = 0; k < 3; ++k) while (wk[k]) { s->wait_finished((S::wait_op_type)k); wk[k]--; }
    counts(*s, m, "at the end"); times(*s, m, "at the end");
    stxxl::stats_data e(*s);
    stxxl::stats_data zero; counts(zero, Ref(), "empty snapshot"); times(zero, Ref(), "empty snapshot");
    for (auto& x : snaps)
    {
        stxxl::stats_data d = e - x.first, back = d + x.first, back2 = x.first + d;
        Ref dm = sub(m, x.second.first); counts(d, dm, "difference"); times(d, dm, "difference");
        MC_CHECK(eq(d.get_elapsed_time(), vclock - x.second.second), "elapsed time of a difference");
        counts(back, m, "sum"); times(back, m, "sum"); counts(back2, m, "sum"); times(back2, m, "sum");
        MC_CHECK(eq(back.get_elapsed_time(), e.get_elapsed_time()), "elapsed time of a sum"); counts(x.first, x.second.first, "old snapshot");
    }
    outcome(h); drop();
}
// threads performing transfers and waits; the clock moves between any two of their steps
static void threads(std::vector<std::string> prog)
{
    S* s; Ref m;
    { NoRace n; vclock = 1000000.0; }
    s = fresh();
    double start = vclock;
    auto tick = [](double t) { NoRace n; vclock += t; };
    auto run = [&](int id) {
        double step = id == 0 ? 1 : id == 1 ? 8 : 64;
        for (char c : prog[id])
        {
            size_t z = 100 * (id + 1);
            if (c == 'r') { S::scoped_read_timer t(z); tick(step); }
            else if (c == 'w') { S::scoped_write_timer t(z); tick(step); }
            else if (c == 'R') { S::scoped_read_write_timer t(z, false); tick(step); t.stop(); tick(step); t.start(z); }
            else if (c == 'W') { S::scoped_read_write_timer t(z, true); tick(step); }
            else if (c == 'c') { s->read_started(z, vclock); tick(step); s->read_canceled(z); }
            else if (c == 'C') { s->write_started(z, vclock); tick(step); s->write_canceled(z); }
            else if (c == 'h') s->read_cached(z);
            else if (c == 'H') s->write_cached(z);
            else if (c == 'i') { S::scoped_wait_timer t(S::WAIT_OP_READ); tick(step); }
            else if (c == 'o') { S::scoped_wait_timer t(S::WAIT_OP_WRITE); tick(step); }
            else if (c == 'a') { S::scoped_wait_timer t(S::WAIT_OP_ANY); tick(step); }
            transition();
        }
    };
    for (size_t i = 0; i < prog.size(); ++i) for (char c : prog[i])
        {
            size_t z = 100 * (i + 1);
            if (c == 'r' || c == 'R') { m.r += c == 'R' ? 2 : 1; m.vr += (c == 'R' ? 2 : 1) * z; }
            else if (c == 'w' || c == 'W') { m.w++; m.vw += z; }
            else if (c == 'h') { m.cr++; m.cvr += z; } else if (c == 'H') { m.cw++; m.cvw += z; }
        }
    std::vector<pthread_t> t(prog.size());
    struct Arg { std::function<void()> f; };
    std::vector<Arg> args(prog.size());
    for (size_t i = 1; i < prog.size(); ++i) { args[i].f = [&, i] { run((int)i); }; pthread_create(&t[i], NULL, [](void* a) -> void* { ((Arg*)a)->f(); return NULL; }, &args[i]); }
    run(0);
    for (size_t i = 1; i < prog.size(); ++i) pthread_join(t[i], NULL);
    counts(*s, m, "after all threads are done");
    double el = vclock - start; uint64_t h = 9;
    auto par = [&](double t, double p, const char* n) {
        MC_CHECK(t > -1e-6 && p > -1e-6, n << " time is negative: " << t << " summed, " << p << " parallel");
        MC_CHECK(p <= t + 1e-6, n << " time: parallel " << p << " exceeds summed " << t);
        MC_CHECK(p <= el + 1e-6, n << " time: parallel " << p << " exceeds the elapsed time " << el);
        h = mix(h, (uint64_t)(t * 8 + 0.5)); h = mix(h, (uint64_t)(p * 8 + 0.5));
    };
    par(s->get_read_time(), s->get_pread_time(), "read"); par(s->get_write_time(), s->get_pwrite_time(), "write");
    par(1e9, s->get_pio_time(), "I/O");
    MC_CHECK(s->get_io_wait_time() > -1e-6 && s->get_wait_read_time() > -1e-6 && s->get_wait_write_time() > -1e-6, "wait time is negative");
    MC_CHECK(eq(s->get_io_wait_time(), s->get_wait_read_time() + s->get_wait_write_time()), "wait times by kind do not add up");
    if (s->get_pread_time() + s->get_pwrite_time() < s->get_read_time() + s->get_write_time() - 0.5) nontrivial();
    state(h); outcome(h); drop();
}
// transfers of real files by the library's threads, read after the requests were waited for
static void files(std::vector<std::string> prog)
{
    { NoRace n; kill_queues(); vclock = 1000000.0; }
    stxxl::disk_queues::get_instance(); S* s = fresh(); Ref m;
    {
        stxxl::mem_file a(91), b(92); a.set_size(64); b.set_size(64);
        static char bufs[8][32]; std::vector<stxxl::request_ptr> rs; int k = 0;
        stxxl::stats_data before(*s);
        for (char c : prog[0])
        {
            stxxl::mem_file& f = c < 'a' ? b : a; size_t z = 8 + k;
            if ((c | 32) == 'r') { rs.push_back(f.aread(bufs[k], 8 * k, z)); m.r++; m.vr += z; }
            else { rs.push_back(f.awrite(bufs[k], 8 * k, z)); m.w++; m.vw += z; }
            k++; { NoRace n; vclock += 1; }
        }
        wait_all(rs.begin(), rs.end());
        counts(*s, m, "after waiting for all requests");
        stxxl::stats_data d = stxxl::stats_data(*s) - before; counts(d, m, "difference around the requests");
        MC_CHECK(s->get_pread_time() <= s->get_read_time() + 1e-6 && s->get_pwrite_time() <= s->get_write_time() + 1e-6 && s->get_pio_time() <= vclock - 1000000.0 + 1e-6, "parallel time exceeds summed or elapsed time");
        MC_CHECK(s->get_pread_time() > -1e-6 && s->get_pwrite_time() > -1e-6 && s->get_io_wait_time() > -1e-6, "negative time");
        rs.clear(); nontrivial();
        state(mix(m.vr, m.vw)); outcome(mix(m.vr, (uint64_t)s->get_read_time()));
    }
    { NoRace n; kill_queues(); }
    drop();
}
struct H : Harness
{
    const char* id() { return "I07"; }
    void init() { io_init(); }
    std::string rule() { return "every history of starting, finishing and cancelling transfers and waits, clock steps, resets and snapshots up to the stated length with exact times; every interleaving within the preemption bound of 2-3 threads timing transfers and waits while the clock moves; real requests on two queues; non-trivial: overlapping operations, cancellations, resets"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        if (!ATOMIC) for (int v = 0; v < 2; ++v) { Job j; j.name = v ? "history.waits" : "history.transfers"; j.opts.shards = 8; j.body = [=] { history(th ? 7 : 6, v); }; out.push_back(j); }
        Opts o; o.sched = true; o.bound = th ? 6 : 4; o.max_points = 20000; o.atomic_points = ATOMIC && th;
        auto add = [&](std::vector<std::string> p, int e = 0) { Job j; j.name = "threads"; for (auto& x : p) j.name += "." + x; j.opts = o; j.opts.bound += e; j.body = [=] { threads(p); }; out.push_back(j); };
        std::string one = "rwRWcChHioa";
        for (char a : one) for (char b : one) if (a <= b) { add({ std::string(1, a), std::string(1, b) }, 1); if (!(a == 'R' && b == 'R')) add({ std::string(1, a) + b, std::string(1, b) + a }, (th ? 0 : -1)); }
        for (std::string x : { "rrr", "www", "rwr", "wrw", "iii", "ooa", "ior", "rcr", "wCw", "hrH" }) add({ x.substr(0, 1), x.substr(1, 1), x.substr(2, 1) }, -1);
        add({ "rr", "rr", "r" }, -1); add({ "ww", "ww" }); add({ "rwi", "wro" }, -1);
        for (std::string p : { "rR", "wW", "rWrW", "wWwW", "rwRW", "rRrR" }) { Job j; j.name = "files." + p; j.opts = o; j.opts.bound = (th ? 3 : 2) - (p.size() > 2 && !th); j.body = [=] { files({ p }); }; out.push_back(j); }
    }
};
MC_MAIN(H)
