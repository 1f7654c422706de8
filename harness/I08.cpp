// I08: the kernel-asynchronous queue against a simulated kernel
#include "io.h"
#include "fakeos.h"
#include <stxxl/bits/io/linuxaio_file.h>
#include <stxxl/bits/io/linuxaio_queue.h>
#include <stxxl/bits/io/linuxaio_request.h>
#include <sys/syscall.h>
#include <linux/aio_abi.h>
#include <cstdarg>
using namespace mc; using namespace iop;
typedef stxxl::stats S;
extern "C" long __real_syscall(long n, ...);
namespace kern {
enum Mode { OK, EIO_, HARD, SHORT };
struct Entry { iocb* cb; unsigned long long data; Rec* r; };
struct Ctx { int max; bool live; std::vector<Entry> q; };
struct State
{
    World* w = nullptr; stxxl::linuxaio_file* files[2] = { nullptr, nullptr };
    std::vector<Ctx> ctx; int setup_max = 1000, cap = 1000; bool setup_error = false, faults = true, order = true; std::vector<Mode> mode; int eagain = 0, eintr = 0, batches = 0, reordered = 0;
};
static State& st() { static State* s = new State; return *s; }
static long err(int e) { errno = e; return -1; }
static Ctx& ctx(unsigned long c) { NoRace n; if (!c || c > st().ctx.size()) mc::fail("kernel call with an invalid context"); Ctx& x = st().ctx[c - 1]; if (!x.live) mc::fail("kernel call with a destroyed context"); return x; }
static long setup(unsigned nr, aio_context_t* out)
{
    NoRace n; State& s = st();
    if (s.setup_error) return err(ENOSYS);
    if (*out) return err(EINVAL);
    if (nr == 0) return err(EINVAL);
    if ((int)nr > s.setup_max) return err(EAGAIN);
    s.ctx.push_back(Ctx()); s.ctx.back().max = (int)nr; s.ctx.back().live = true; *out = s.ctx.size(); return 0;
}
static long submit(unsigned long c, long n, iocb** v)
{
    mc::point(); Ctx& x = ctx(c); State& s = st(); long res = 1;
    if (n != 1) mc::fail("more than one control block is submitted");
    iocb* cb = v[0]; 
    {
        NoRace nr; vclock += 1;
        Rec* r = s.w->by_off((long)cb->aio_offset);
        if (!r) mc::fail("the kernel is given a transfer nobody requested");
        if (r->cancelled) mc::fail("request " + std::to_string(r->id) + " is handed to the kernel although cancelling it reported success");
        if (cb->aio_buf != (unsigned long long)(uintptr_t)r->buf || cb->aio_nbytes != r->bytes || cb->aio_lio_opcode != (r->is_read ? IOCB_CMD_PREAD : IOCB_CMD_PWRITE)) mc::fail("request " + std::to_string(r->id) + " reaches the kernel with a different buffer, length or direction");
        if (cb->aio_flags || cb->aio_reserved2) mc::fail("reserved fields of the control block are set");
        bool own = false; for (auto f : s.files) if (f && f->file_des == (int)cb->aio_fildes) own = true;
        if (!own) mc::fail("the control block names a descriptor that is not open");
        if ((int)x.q.size() >= x.max) mc::fail("more requests are in flight than the context was set up for");
        if ((int)x.q.size() >= s.cap) { s.eagain++; res = err(EAGAIN); }
        else if (s.mode[r->id] == HARD) { if (++r->served > 1) mc::fail("a refused request is submitted again"); r->served_done = 1; res = err(EBADF); }
        else
        {
            if (s.faults && mc::deviate(2)) { s.eagain++; res = err(EAGAIN); }
            else
            {
                if (++r->served > 1) mc::fail("request " + std::to_string(r->id) + " is handed to the kernel twice");
                r->order = s.w->clock++;
                if (!r->is_read) for (size_t i = 0; i < r->bytes; ++i) if (r->buf[i] != pat(r->off, i)) mc::fail("the buffer of write request " + std::to_string(r->id) + " is wrong when submitted");
                Entry e; e.cb = cb; e.data = cb->aio_data; e.r = r; x.q.push_back(e); MC_NOTE("kernel accepts " << r->id);
            }
        }
    }
    int e = errno; mc::hb_release(&x); mc::point(); errno = e;
    return res;
}
static long getevents(unsigned long c, long min, long max, io_event* ev, void* timeout)
{
    mc::point(); Ctx* x = &ctx(c); State& s = st();
    if (timeout) mc::fail("timeouts are not modelled");
    if (min > max || max < 1) return err(EINVAL);
    if (s.faults) { NoRace n; if (mc::deviate(2)) { s.eintr++; return err(EINTR); } }
    mc::wait_until([x] { return !x->q.empty(); });
    x = &ctx(c);
    long n = 0;
    {
        NoRace nr; vclock += 1;
        // how many and which: sequences without repetition of 1..3 of the requests in flight
        std::vector<int> ids; size_t k = x->q.size();
        std::vector<std::vector<int> > opt_;
        for (size_t len = 1; len <= 3 && len <= k && (long)len <= max; ++len)
        {
            std::function<void(std::vector<int>)> rec = [&](std::vector<int> p) { if (p.size() == len) { opt_.push_back(p); return; } for (size_t i = 0; i < k; ++i) if (std::find(p.begin(), p.end(), (int)i) == p.end()) { p.push_back((int)i); rec(p); p.pop_back(); } };
            rec(std::vector<int>());
        }
        ids = opt_[s.order ? mc::deviate((int)opt_.size()) : 0];
        if (ids.size() > 1) s.batches++; if (ids[0]) s.reordered++;
        for (int i : ids)
        {
            Entry& e = x->q[i]; Rec& r = *e.r; long long res = (long long)r.bytes;
            if (e.cb->aio_data != e.data) mc::fail("the control block changed while the kernel had it");
            if (s.mode[r.id] == EIO_) res = -EIO;
            if (s.mode[r.id] == SHORT) res = 3;
            for (long long j = 0; j < res; ++j) if (r.is_read) r.buf[j] = pat(r.off, j); else if (r.buf[j] != pat(r.off, j)) mc::fail("the buffer of a write changed while the kernel had it");
            memset(&ev[n], 0, sizeof ev[n]); ev[n].data = e.data; ev[n].obj = (unsigned long long)(uintptr_t)e.cb; ev[n].res = res; n++;
            r.served_done++; mc::transition(); MC_NOTE("kernel completes " << r.id);
        }
        std::sort(ids.rbegin(), ids.rend()); for (int i : ids) x->q.erase(x->q.begin() + i);
    }
    mc::hb_acquire(x); mc::mem_write(ev, n * sizeof *ev, nullptr);
    mc::point();
    return n;
}
static long destroy(unsigned long c) { Ctx& x = ctx(c); NoRace n; if (!x.q.empty()) mc::fail("the context is destroyed with requests in flight"); x.live = false; return 0; }
static void reset() { NoRace n; st() = State(); vclock = 1000000.0; }
}
extern "C" long __wrap_syscall(long n, ...)
{
    va_list a; va_start(a, n); long v[6]; for (int i = 0; i < 6; ++i) v[i] = va_arg(a, long); va_end(a);
    switch (n)
    {
    case SYS_io_setup: return kern::setup((unsigned)v[0], (aio_context_t*)v[1]);
    case SYS_io_submit: return kern::submit((unsigned long)v[0], v[1], (iocb**)v[2]);
    case SYS_io_getevents: return kern::getevents((unsigned long)v[0], v[1], v[2], (io_event*)v[3], (void*)v[4]);
    case SYS_io_destroy: return kern::destroy((unsigned long)v[0]);
    case SYS_io_cancel: return kern::err(EINVAL);
    }
    return __real_syscall(n, v[0], v[1], v[2], v[3], v[4], v[5]);
}
struct Cfg { int qlen = 0, cap = 1000, setup_max = 1000, files = 1; bool faults = true, order = true; };
static void stats_check(World& w, S* s)
{
    unsigned r = 0, wr = 0; int64_t vr = 0, vw = 0;
    for (Rec& x : w.recs) if (x.submitted && !x.cancelled && kern::st().mode[x.id] != kern::HARD) { if (x.is_read) { r++; vr += x.bytes; } else { wr++; vw += x.bytes; } }
    MC_CHECK(s->get_reads() == r && s->get_writes() == wr && s->get_read_volume() == vr && s->get_written_volume() == vw, "statistics: " << s->get_reads() << " reads and " << s->get_writes() << " writes instead of " << r << " and " << wr);
    double eps = 1e-6;
    MC_CHECK(s->get_read_time() > -eps && s->get_write_time() > -eps && s->get_pread_time() > -eps && s->get_pwrite_time() > -eps && s->get_pio_time() > -eps, "negative time in the statistics");
    MC_CHECK(s->get_pread_time() < s->get_read_time() + eps && s->get_pwrite_time() < s->get_write_time() + eps, "parallel time exceeds summed time");
}
// r/w: read, write; e/E: failing read/write; h/H: read/write the kernel refuses for good; c: cancel the latest request; C: cancel the first; x: wait for the latest; p: poll the latest
static void program(std::vector<std::string> prog, int end, Cfg cfg)
{
    kern::reset(); fos::reset(); { NoRace n; S::instance = NULL; }
    S* stat = S::get_instance();
    kern::State& k = kern::st(); k.cap = cfg.cap; k.setup_max = cfg.setup_max; k.faults = cfg.faults; k.order = cfg.order;
    int total = 0; for (auto& p : prog) for (char c : p) if (!strchr("cCxp", c)) total++;
    {
        stxxl::linuxaio_file* lf[2] = { nullptr, nullptr };
        Sys s(cfg.files, total + 1, true, [&](int i) -> stxxl::file* { lf[i] = new stxxl::linuxaio_file(i ? "/mcfs/b" : "/mcfs/a", stxxl::file::RDWR | stxxl::file::CREAT, 70, stxxl::file::NO_ALLOCATOR, stxxl::file::DEFAULT_DEVICE_ID, cfg.qlen); return lf[i]; });
        { NoRace n; k.w = &s.w; k.files[0] = lf[0]; k.files[1] = lf[1]; k.mode.assign(total + 1, kern::OK); }
        std::vector<int> base; int b = 0; for (auto& p : prog) { base.push_back(b); for (char c : p) if (!strchr("cCxp", c)) b++; }
        auto run = [&](int t) {
            int id = base[t] - 1;
            for (char c : prog[t])
                switch (c)
                {
                case 'c': s.cancel(id, s.ptr[id]); break;
                case 'C': s.cancel(base[t], s.ptr[base[t]]); break;
                case 'x': s.wait(id, s.ptr[id], false); break;
                case 'p': s.poll(id, s.ptr[id], false); break;
                default:
                    ++id; { NoRace n; k.mode[id] = strchr("eE", c) ? kern::EIO_ : strchr("hH", c) ? kern::HARD : kern::OK; }
                    s.submit(id, strchr("reh", c) != NULL, strchr("eEhH", c) != NULL, id % cfg.files);
                }
            if (end == 0 || end == 2) for (int i = base[t]; i <= id; ++i) s.wait(i);
        };
        struct Arg { std::function<void()> f; }; std::vector<pthread_t> th(prog.size()); std::vector<Arg> args(prog.size());
        for (size_t i = 1; i < prog.size(); ++i) { args[i].f = [&, i] { run((int)i); }; pthread_create(&th[i], NULL, [](void* a) -> void* { ((Arg*)a)->f(); return NULL; }, &args[i]); }
        run(0);
        for (size_t i = 1; i < prog.size(); ++i) pthread_join(th[i], NULL);
        if (end == 1) { bool open = false; { NoRace n; for (Rec& r : s.w.recs) if (r.submitted && !r.cancelled && !r.handler_done) open = true; } if (open) nontrivial(); kill_queues(); }
        if (end == 2) { kill_queues(); }
        if (end == 1) { NoRace n; for (Rec& r : s.w.recs) if (r.submitted && !r.cancelled) { MC_CHECK(r.served_done == 1, "request " << r.id << " is lost when the queue shuts down"); MC_CHECK(r.handler_done == 1, "completion of request " << r.id << " is lost when the queue shuts down"); } }
        if (end == 1) for (int i = 0; i < total; ++i) if (s.ptr[i].valid()) s.wait(i);
        s.finish();
        { NoRace n; if (k.eagain || k.eintr || k.batches || k.reordered) nontrivial(); for (auto& x : k.ctx) MC_CHECK(!x.live, "the kernel context stays"); }
        stats_check(s.w, stat);
    }
    MC_CHECK(fos::open_fds() == 0, "descriptors stay open");
    S::destroy_instance(); S::instance = NULL;
}
// transfers the kernel does only in part: a read beyond the end of the file delivers zeros, others report an error
static void partial(bool read, bool eof)
{
    kern::reset(); fos::reset(); kill_queues(); stxxl::disk_queues::get_instance();
    kern::State& k = kern::st(); World w; k.w = &w; w.recs.resize(1); k.mode.assign(1, kern::SHORT); k.faults = false;
    static char buf[8]; Rec& r = w.recs[0]; r.id = 0; r.is_read = read; r.bytes = 8; r.off = 16; r.submitted = true; r.buf = buf;
    for (int i = 0; i < 8; ++i) buf[i] = read ? 0x77 : pat(16, i);
    {
        stxxl::linuxaio_file f("/mcfs/a", stxxl::file::RDWR | stxxl::file::CREAT, 70); k.files[0] = &f; f.set_size(eof ? 16 + 3 : 64);
        bool threw = false; try { stxxl::request_ptr q = read ? f.aread(buf, 16, 8) : f.awrite(buf, 16, 8); q->wait(); } catch (const stxxl::io_error&) { threw = true; }
        if (read && eof) { MC_CHECK(!threw, "reading over the end of the file fails"); for (int i = 0; i < 8; ++i) MC_CHECK(buf[i] == (i < 3 ? pat(16, i) : 0), "byte " << i << " of a read over the end of the file"); }
        else MC_CHECK(threw, "an incomplete transfer is reported as success");
        kill_queues(); k.files[0] = nullptr;
    }
    nontrivial(); state(read * 2 + eof); outcome(read * 2 + eof);
}
// the number of events is negotiated
static void negotiate(int setup_max, int qlen, bool error)
{
    kern::reset(); fos::reset(); kill_queues(); stxxl::disk_queues::get_instance();
    kern::State& k = kern::st(); World w; k.w = &w; k.mode.assign(4, kern::OK); k.setup_max = setup_max; k.setup_error = error; k.faults = false;
    static char buf[4][8]; w.recs.resize(4);
    for (int j = 0; j < 4; ++j) { Rec& r = w.recs[j]; r.id = j; r.is_read = true; r.bytes = 8; r.off = 16 * (j + 1); r.submitted = true; r.buf = buf[j]; }
    {
        stxxl::linuxaio_file f("/mcfs/a", stxxl::file::RDWR | stxxl::file::CREAT, 70, stxxl::file::NO_ALLOCATOR, stxxl::file::DEFAULT_DEVICE_ID, qlen); k.files[0] = &f;
        for (int round = 0; round < 2; ++round)
        {
            bool threw = false; stxxl::request_ptr q[2];
            try { for (int j = 0; j < 2; ++j) q[j] = f.aread(buf[round * 2 + j], 16 * (round * 2 + j + 1), 8); } catch (const stxxl::io_error&) { threw = true; }
            MC_CHECK(threw == (error || setup_max < 1), "setting up the queue: " << (threw ? "failed" : "succeeded"));
            if (!threw) for (int j = 0; j < 2; ++j) { q[j]->wait(); MC_CHECK(!memcmp(buf[round * 2 + j], std::string({ pat(16 * (round * 2 + j + 1), 0), pat(16 * (round * 2 + j + 1), 1) }).data(), 2), "data"); }
        }
        for (auto& x : k.ctx) MC_CHECK(x.max <= setup_max && x.max >= 1, "queue length");
        MC_CHECK(error || setup_max < 1 || k.ctx.size() == 1, "number of contexts");
        kill_queues(); k.files[0] = nullptr;
    }
    nontrivial(); state(setup_max * 100 + qlen); outcome(setup_max * 100 + qlen);
}
struct H : Harness
{
    const char* id() { return "I08"; }
    void init() { io_init(); fos::reset(); }
    std::string rule() { return "programs of 1-3 threads submitting, waiting, polling and cancelling up to 4 requests, ending with waits or with shutting the queue down, against a simulated kernel that chooses completion order and batches and may refuse submissions, interrupt waits, fail or shorten transfers; every interleaving and kernel choice within the deviation bound; non-trivial: refusal, interruption, batch, reordering, or shutdown with open requests"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        auto add = [&](std::string n, std::function<void()> f, bool sched, int bound) { Opts o; o.sched = sched; o.bound = bound; o.fair = 60; o.max_points = 20000; o.atomic_points = ATOMIC && th; Job j; j.name = n; j.body = f; j.opts = o; out.push_back(j); };
        if (!ATOMIC)
        {
            for (int r = 0; r < 2; ++r) for (int e = 0; e < 2; ++e) add("partial", [=] { partial(r, e); }, false, 0);
            for (int m : { 1, 2, 3, 5, 64, 1000 }) for (int q : { 0, 1, 2, 7, 64 }) add("negotiate", [=] { negotiate(m, q, false); }, false, 0);
        }
        struct P { std::vector<std::string> p; int bound; };
        std::vector<P> ps;
        std::vector<std::string> one; std::function<void(std::string)> rec = [&](std::string x) { if (!x.empty()) one.push_back(x); if (x.size() == 2) return; rec(x + "r"); rec(x + "w"); }; rec("");
        for (auto& x : one) ps.push_back({ { x }, 2 });
        for (std::string x : { "e", "E", "h", "H", "rc", "wc", "rxc", "wpc", "rcc", "rcx", "rrC", "rrc", "wrC", "re", "rhw", "her", "ecr", "hc" }) ps.push_back({ { x }, x.size() > 2 && !th ? 1 : 2 });
        for (std::string x : { "rwr", "www", "rrrC", "rrcr", "wcwc", "rxrp", "rcrc" }) ps.push_back({ { x }, 1 + th });
        for (auto& p : std::vector<std::vector<std::string> >{ { "r", "w" }, { "r", "r" }, { "rc", "w" }, { "rc", "rc" }, { "e", "h" }, { "rx", "wp" } }) ps.push_back({ p, 1 + th });
        for (auto& p : ps) for (int end = 0; end < 3; ++end)
        {
            std::string n; for (auto& x : p.p) n += x + ".";
            for (int v = 0; v < 3; ++v)
            {
                Cfg c; c.qlen = 3; if (v == 1) c.qlen = 1; if (v == 2) { c.qlen = 2; c.cap = 1; c.files = 2; }
                if (end == 2 && v == 1) continue; if (!th && ATOMIC && (v == 1 || end == 2)) continue;
                add(n + "sched" + std::to_string(end) + std::to_string(v), [=] { program(p.p, end, c); }, true, p.bound + th);
                if (p.p.size() == 1 && !ATOMIC) add(n + "kernel" + std::to_string(end) + std::to_string(v), [=] { program(p.p, end, c); }, false, th ? 6 : 4);
            }
        }
        if (!ATOMIC) for (std::string x : { "rrrr", "wwww", "rwrw", "rrrrx", "rereh" }) for (int end = 0; end < 2; ++end) for (int v = 0; v < 3; ++v) { Cfg c; c.qlen = 4; if (v == 1) c.qlen = 2; if (v == 2) { c.qlen = 3; c.cap = 2; } add(x + ".kernel" + std::to_string(end) + std::to_string(v), [=] { program({ x }, end, c); }, false, th ? 5 : 3); }
    }
};
MC_MAIN(H)
