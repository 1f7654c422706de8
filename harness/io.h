// probes for the I/O layer: a file that records what the library does to it, handlers that record their runs
#pragma once
#include "cont.h"
#include <stxxl/bits/io/disk_queued_file.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_operations.h>
#include <stxxl/bits/io/serving_request.h>
#include <stxxl/bits/io/request_queue_impl_qwqr.h>
#include <stxxl/bits/io/request_queue_impl_1q.h>
#include <stxxl/bits/common/exceptions.h>
#include <memory>

namespace iop {
typedef stxxl::request rq;
struct Rec                 // what happened to one request
{
    int served = 0, served_done = 0, handler = 0, handler_done = 0, order = -1, hcopies = 0;
    bool is_read = false, fails = false, submitted = false; int id = 0; size_t bytes = 0; char* buf = nullptr; long off = 0;
    bool cancelled = false, seen_done = false, waited = false, used = false; int cancelling = 0;
};
struct NoRace { NoRace() { mc::race_ignore(true); } ~NoRace() { mc::race_ignore(false); } };
inline char pat(long off, size_t i) { return (char)(off / 16 * 7 + i * 3 + 1); }

struct World
{
    std::vector<Rec> recs; int clock = 0; bool alive = true;
    Rec* by_off(long off) { for (auto& r : recs) if (r.off == off && r.submitted) return &r; return nullptr; }
};

struct PFile : public stxxl::disk_queued_file
{
    World& w; bool dead = false;
    PFile(World& world, int queue) : stxxl::file(queue), stxxl::disk_queued_file(queue, stxxl::file::NO_ALLOCATOR), w(world) { }
    ~PFile() noexcept(false) { dead = true; }
    void serve(void* buffer, offset_type offset, size_type bytes, stxxl::request::request_type type)
    {
        Rec* r;
        {
            NoRace n;
            r = w.by_off((long)offset);
            if (!r) mc::fail("the device is asked for a transfer nobody submitted, offset " + std::to_string(offset));
            if (r->cancelled) mc::fail("request " + std::to_string(r->id) + " reaches the device although cancelling it reported success");
            if (++r->served > 1) mc::fail("request " + std::to_string(r->id) + " is transferred twice");
            if (r->buf != buffer || r->bytes != bytes || r->is_read != (type == stxxl::request::READ)) mc::fail("request " + std::to_string(r->id) + " reaches the device with a different buffer, length or direction");
            r->order = w.clock++;
        }
        mc::point();
        char* b = (char*)buffer;
        if (r->fails) { { NoRace n; r->served_done++; } throw stxxl::io_error("simulated device error"); }
        if (type == stxxl::request::READ) for (size_t i = 0; i < bytes; ++i) b[i] = pat(offset, i);
        else for (size_t i = 0; i < bytes; ++i) if (b[i] != pat(offset, i)) mc::fail("the buffer of write request " + std::to_string(r->id) + " changed or is wrong when transferred");
        mc::point();
        NoRace n; r->served_done++; mc::transition();
    }
    void set_size(offset_type) { }
    offset_type size() { return 0; }
    void lock() { }
    const char* io_type() const { return "probe"; }
};

struct Hd                  // completion handler; copies are counted
{
    World* w; int id; std::function<void(rq*)> extra;
    Hd(World* world, int i, std::function<void(rq*)> x = nullptr) : w(world), id(i), extra(x) { inc(1); }
    Hd(const Hd& o) : w(o.w), id(o.id), extra(o.extra) { inc(1); }
    ~Hd() { inc(-1); }
    void inc(int d) { NoRace n; w->recs[id].hcopies += d; }
    void operator () (rq* q)
    {
        {
            NoRace n; Rec& r = w->recs[id];
            if (r.cancelled) mc::fail("completion handler of the cancelled request " + std::to_string(id) + " runs");
            if (++r.handler > 1) mc::fail("completion handler of request " + std::to_string(id) + " runs twice");
            if (!r.served_done) mc::fail("completion handler of request " + std::to_string(id) + " runs before the transfer");
        }
        if (extra) extra(q);
        mc::point();
        NoRace n; w->recs[id].handler_done++;
    }
};

inline void io_init()
{
    cont::quiet_log(); stxxl::stats::get_instance(); stxxl::logger::get_instance();
    std::cerr.flush(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
}
inline void kill_queues()
{
    if (stxxl::disk_queues::instance) { stxxl::disk_queues::destroy_instance(); stxxl::disk_queues::instance = NULL; }
}
// owns the requests of an execution; queues live per execution
struct Sys
{
    World w; std::vector<std::unique_ptr<stxxl::file> > files; std::vector<stxxl::request_ptr> ptr; std::vector<std::unique_ptr<char[]> > bufs;
    int maxreq;
    Sys(int nfiles, int nreq, bool shared_queue = true, std::function<stxxl::file*(int)> make = nullptr) : maxreq(nreq)
    {
        NoRace n;
        kill_queues();
        stxxl::disk_queues::get_instance();
        w.recs.reserve(nreq);
        for (int i = 0; i < nreq; ++i) { w.recs.push_back(Rec()); ptr.push_back(stxxl::request_ptr()); bufs.push_back(nullptr); }
        for (int i = 0; i < nfiles; ++i) files.emplace_back(make ? make(i) : new PFile(w, shared_queue ? 70 : 70 + i));
    }
    void prepare(int id, bool read, bool fails)
    {
        NoRace n;
        Rec& r = w.recs[id]; r.id = id; r.is_read = read; r.fails = fails; r.bytes = 8; r.off = 16 * (id + 1); r.submitted = true;
        bufs[id].reset(new char[8]); r.buf = bufs[id].get();
    }
    void submit(int id, bool read, bool fails, int f = 0, std::function<void(rq*)> extra = nullptr)
    {
        prepare(id, read, fails);
        Rec& r = w.recs[id];
        if (!read) for (size_t i = 0; i < r.bytes; ++i) r.buf[i] = pat(r.off, i);
        ptr[id] = read ? files[f]->aread(r.buf, r.off, r.bytes, Hd(&w, id, extra)) : files[f]->awrite(r.buf, r.off, r.bytes, Hd(&w, id, extra));
    }
    // the caller may use the buffer again
    void use_buffer(int id)
    {
        Rec& r = w.recs[id];
        { NoRace n; if (r.used) return; r.used = true; }
        if (r.cancelled) { for (size_t i = 0; i < r.bytes; ++i) r.buf[i] = 1; return; }
        if (r.is_read && !r.fails) for (size_t i = 0; i < r.bytes; ++i) if (r.buf[i] != pat(r.off, i)) mc::fail("buffer of request " + std::to_string(id) + " lacks the data read");
        for (size_t i = 0; i < r.bytes; ++i) r.buf[i] = (char)0x55;
    }
    void wait(int id, stxxl::request_ptr& p, bool buf = true)
    {
        bool threw = false;
        try { p->wait(); } catch (const stxxl::io_error&) { threw = true; }
        {
            NoRace n; Rec& r = w.recs[id];
            if (r.cancelled) { if (threw) mc::fail("waiting on a cancelled request throws"); }
            else if (!r.cancelling)
            {
                if (r.served_done != 1) mc::fail("wait on request " + std::to_string(id) + " returned before its transfer was done");
                if (r.handler_done != 1) mc::fail("wait on request " + std::to_string(id) + " returned before its completion handler had finished");
                if (threw != r.fails) mc::fail(r.fails ? "wait on a failed request reports no error" : "wait on a request reports an error that did not happen");
            }
            r.waited = r.seen_done = true;
        }
        if (buf) use_buffer(id);
    }
    void wait(int id) { wait(id, ptr[id]); }
    bool poll(int id, stxxl::request_ptr& p, bool buf = true)
    {
        bool threw = false, res = false;
        { NoRace n; }
        try { res = p->poll(); } catch (const stxxl::io_error&) { threw = true; }
        {
            NoRace n; Rec& r = w.recs[id];
            if (threw && (!r.fails || !r.served_done)) mc::fail("poll reports an error that did not happen");
            if (res && !r.cancelled && !r.cancelling && r.served_done != 1) mc::fail("poll on request " + std::to_string(id) + " reports completion before the transfer was done");
            if (res && r.fails && !r.cancelled && !r.cancelling) mc::fail("poll reports success for a failed request");
            if (r.seen_done && !res && !threw) mc::fail("poll on request " + std::to_string(id) + " takes its completion back");
            if (res || threw) r.seen_done = true;
        }
        if (res && buf) use_buffer(id);
        return res || threw;
    }
    bool cancel(int id, stxxl::request_ptr& p)
    {
        { NoRace n; w.recs[id].cancelling++; }
        bool c = p->cancel();
        NoRace n; Rec& r = w.recs[id]; r.cancelling--;
        if (c)
        {
            if (r.cancelled) mc::fail("cancelling request " + std::to_string(id) + " reports success twice");
            if (r.served || r.handler) mc::fail("cancelling request " + std::to_string(id) + " reports success although it is or was served");
            r.cancelled = true;
        }
        return c;
    }
    // every request has completed once nothing can run any more
    void finish()
    {
        for (auto& p : ptr) p = stxxl::request_ptr();
        mc::wait_quiescent();
        uint64_t h = 5;
        {
            NoRace n;
            for (Rec& r : w.recs)
            {
                if (!r.submitted) continue;
                int want = r.cancelled ? 0 : 1;
                if (r.served_done != want) mc::fail("request " + std::to_string(r.id) + " was transferred " + std::to_string(r.served_done) + " times");
                if (r.handler_done != want) mc::fail("completion handler of request " + std::to_string(r.id) + " ran " + std::to_string(r.handler_done) + " times");
                if (r.hcopies) mc::fail("request " + std::to_string(r.id) + " is never destroyed (its handler is still held)");
                h = mc::mix(h, r.order * 8 + r.cancelled * 4 + r.is_read * 2 + r.fails);
            }
        }
        for (auto& f : files) if (f->get_request_nref() != 0) mc::fail("the file still counts " + std::to_string(f->get_request_nref()) + " pending requests");
        mc::state(h); mc::outcome(h);
        kill_queues();
        files.clear();
    }
};
} // namespace iop
