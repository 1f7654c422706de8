// I05: short transfers and errors of the operating system at every system call of a history
#include "io.h"
#include "fakeos.h"
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <stxxl/bits/io/fileperblock_file.h>
#include <stxxl/bits/io/simdisk_file.h>
#include <stxxl/bits/common/aligned_alloc.h>
using namespace mc; using namespace iop;
static const int U = 4096;
enum { SYSCALL, MMAP, FPB_SYSCALL, FPB_MMAP, SIMDISK };
static stxxl::file* make(int kind, const char* path, int mode, int q = 80)
{
    switch (kind)
    {
    case SYSCALL: return new stxxl::syscall_file(path, mode, q);
    case MMAP: return new stxxl::mmap_file(path, mode, q);
    case FPB_SYSCALL: return new stxxl::fileperblock_file<stxxl::syscall_file>(path, mode, q);
    case FPB_MMAP: return new stxxl::fileperblock_file<stxxl::mmap_file>(path, mode, q);
    default: return new stxxl::sim_disk_file(path, mode, q);
    }
}
struct Model { std::vector<int> b; size_t size = 0; };   // -1: unknown content
static char* buffer(int i) { static char raw[8 * U + U]; char* p = (char*)(((uintptr_t)raw + U - 1) / U * U); return p + i * 2 * U; }

static void program(int kind, int depth, bool direct_serve, int mode_extra)
{
    kill_queues(); stxxl::disk_queues::get_instance();
    fos::reset();
    int mode = stxxl::file::RDWR | stxxl::file::CREAT | mode_extra;
    // create: may fail, then must throw and leave no descriptor
    stxxl::file* f = nullptr;
    fos::faults().on = true;
    bool threw = false; int before = 0;
    try { f = make(kind, "/mcfs/d", mode); } catch (const stxxl::io_error&) { threw = true; }
    int created_err = fos::faults().injected;
    if (threw) { MC_CHECK(created_err > 0, "opening reports an error that did not happen"); nontrivial(); }
    if (!threw) MC_CHECK(created_err == 0 || (mode_extra & stxxl::file::DIRECT), "an error of the operating system while opening is ignored");
    fos::faults().on = false;
    if (!f) { try { f = make(kind, "/mcfs/d", mode); } catch (const stxxl::io_error&) { fail("the file cannot be opened after the fault is over"); } }
    bool fpb = kind == FPB_SYSCALL || kind == FPB_MMAP;
    bool need_size = kind == MMAP || kind == SIMDISK;
    Model m; m.b.assign(8 * U, 0);
    if (need_size) { f->set_size(4 * U); m.size = 4 * U; }
    int next = 1; bool written[8] = { false };
    uint64_t h = mix(kind, threw);
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(need_size ? 7 : 9);
        // 0,1: write unit 0/1  2: write units 1-2 (one call)  3,4 read unit 0/1  5: set_size / size  6: two requests at once  7: read over the end  8: read two units
        before = fos::faults().injected;
        auto io = [&](bool wr, long off, size_t n, int bufi, bool second_pending) {
            char* b = buffer(bufi); int tag = next++;
            if (wr) for (size_t i = 0; i < n; ++i) b[i] = (char)(tag * 37 + i % 251 + (i >> 8) + 1); else memset(b, 0x5c, n);
            bool thr = false; int inj0 = fos::faults().injected;
            fos::faults().on = true;
            stxxl::request_ptr r;
            if (direct_serve) { try { f->serve(b, off, n, wr ? rq::WRITE : rq::READ); } catch (const stxxl::io_error&) { thr = true; } }
            else
            {
                r = wr ? f->awrite(b, off, n) : f->aread(b, off, n);
                try { r->wait(); } catch (const stxxl::io_error&) { thr = true; }
            }
            fos::faults().on = false;
            bool inj = fos::faults().injected > inj0;
            if (r.valid())
                for (int k = 0; k < 2; ++k)
                {
                    bool t1 = false, t2 = false;
                    try { r->wait(); } catch (const stxxl::io_error&) { t1 = true; }
                    try { MC_CHECK(r->poll(), "a finished request polls as unfinished"); } catch (const stxxl::io_error&) { t2 = true; }
                    MC_CHECK(t1 == thr && t2 == thr, "later waits or polls on the request do not report the same outcome");
                }
            MC_NOTE((wr ? "write " : "read ") << off << "+" << n << (thr ? " -> error" : ""));
            if (thr) { nontrivial(); if (inj == 0) { bool at_end = !wr && (size_t)off >= m.size; MC_CHECK(at_end, "an I/O error is reported although nothing failed" << (fos::faults().shorts ? " (a transfer was partial)" : "")); } }
            else
            {
                MC_CHECK(!inj, "an error of the operating system during a " << (wr ? "write" : "read") << " is not reported");
                if (wr) for (size_t i = 0; i < n; ++i) m.b[off + i] = (unsigned char)b[i];
                else
                    for (size_t i = 0; i < n; ++i)
                    {
                        int want = (size_t)(off + i) >= m.size && !fpb ? 0 : m.b[off + i];
                        if (want >= 0) MC_CHECK((unsigned char)b[i] == want, "byte " << i << " of a read of " << n << " bytes at " << off << " is " << (int)(unsigned char)b[i] << " instead of " << want);
                    }
            }
            if (wr && thr) for (size_t i = 0; i < n; ++i) m.b[off + i] = -1;
            // a failed write has stored nothing, a part or all: the size is between
            if (wr && !need_size && !fpb) { if (!thr) m.size = std::max(m.size, (size_t)off + n); else m.size = std::max(m.size, fos::lookup("/mcfs/d")->size); }
            h = mix(h, op * 4 + thr * 2 + inj);
            transition();
        };
        if (op <= 1) { io(true, op * U, U, 0, false); written[op] = true; }
        else if (op == 2) { if (fpb) { io(true, 2 * U, 2 * U, 0, false); written[2] = true; } else { io(true, U, 2 * U, 0, false); written[1] = written[2] = true; } }
        else if (op <= 4) { int u = op - 3; if (fpb && !written[u]) { m.b[u * U] = m.b[u * U]; } io(false, u * U, U, 1, false); }
        else if (op == 5)
        {
            bool t1 = false; size_t ns = need_size ? 4 * U : (m.size > U ? m.size : 3 * U);
            fos::faults().on = true; int i0 = fos::faults().injected;
            try { f->set_size(ns); } catch (const stxxl::io_error&) { t1 = true; }
            fos::faults().on = false;
            MC_CHECK(t1 == (fos::faults().injected > i0), (t1 ? "set_size reports an error that did not happen" : "set_size ignores an error"));
            if (!fpb)
            {
                if (!t1) m.size = std::max(m.size, ns);
                else if (!fpb && fos::lookup("/mcfs/d")->size > m.size) m.size = fos::lookup("/mcfs/d")->size;
                i0 = fos::faults().injected; fos::faults().on = true; bool t2 = false; size_t s = 0;
                try { s = f->size(); } catch (const stxxl::io_error&) { t2 = true; }
                fos::faults().on = false;
                MC_CHECK(t2 == (fos::faults().injected > i0), "size() and the operating system disagree about a failure");
                if (!t2) MC_CHECK(s == m.size, "size " << s << " instead of " << m.size);
            }
        }
        else if (op == 6)
        {
            // two requests in flight; the failure of one does not touch the other
            if (direct_serve) { io(true, 0, U, 0, false); continue; }
            char* b0 = buffer(0), * b1 = buffer(1); int tag = next++;
            for (int i = 0; i < U; ++i) b0[i] = (char)(tag * 11 + i % 13 + 1), b1[i] = (char)(tag * 11 + i % 17 + 5);
            fos::faults().on = true; int i0 = fos::faults().injected;
            stxxl::request_ptr r0 = f->awrite(b0, 0, U), r1 = f->awrite(b1, U, U);
            bool t0 = false, t1 = false;
            try { r0->wait(); } catch (const stxxl::io_error&) { t0 = true; }
            try { r1->wait(); } catch (const stxxl::io_error&) { t1 = true; }
            fos::faults().on = false;
            MC_CHECK((t0 || t1) == (fos::faults().injected > i0), "errors of two requests in flight are not reported one to one");
            MC_CHECK(fos::faults().injected - i0 != 1 || t0 != t1, "one failure, but " << t0 + t1 << " failed requests");
            for (int i = 0; i < U; ++i) { m.b[i] = t0 ? -1 : (unsigned char)b0[i]; m.b[U + i] = t1 ? -1 : (unsigned char)b1[i]; }
            if (!need_size && !fpb) m.size = std::max(m.size, fos::lookup("/mcfs/d")->size);
            if (!t0 && !t1 && !need_size && !fpb) MC_CHECK(m.size >= 2 * U, "file too short after two writes");
            if (t0 || t1) nontrivial();
            written[0] = written[1] = true; h = mix(h, t0 * 2 + t1 + 64);
        }
        else if (op == 7)
        {
            // read over the end of the file
            if (fpb || m.size < (size_t)U || m.size > 4 * U) { io(false, 0, U, 1, false); continue; }
            long off = (long)m.size - U; io(false, off, 2 * U, 1, false);
        }
        else { io(false, 0, 2 * U <= (int)m.size || !fpb ? 2 * U : U, 1, false); }
    }
    // everything still readable once the fault is over
    fos::faults().on = false;
    if (fpb) for (int u = 0; u < 2; ++u) { if (!written[u]) continue; char* b = buffer(2); f->aread(b, u * U, U)->wait(); for (int i = 0; i < U; ++i) if (m.b[u * U + i] >= 0) MC_CHECK((unsigned char)b[i] == m.b[u * U + i], "block " << u << " has wrong contents afterwards"); }
    else
    {
        fos::Node* n = fos::lookup("/mcfs/d"); MC_CHECK(n, "the file vanished");
        MC_CHECK(n->size == m.size, "the file is " << n->size << " bytes long instead of " << m.size);
        for (size_t i = 0; i < m.size; ++i) if (m.b[i] >= 0) MC_CHECK((unsigned char)n->mem[i] == m.b[i], "byte " << i << " of the file is " << (int)(unsigned char)n->mem[i] << " instead of " << m.b[i]);
    }
    if (fos::faults().shorts) nontrivial();
    MC_CHECK(f->get_request_nref() == 0, "pending requests remain");
    delete f;
    kill_queues();
    MC_CHECK(fos::open_fds() == 0, fos::open_fds() << " file descriptors stay open");
    MC_CHECK(fos::maps().empty(), "mappings stay");
    state(h); outcome(mix(h, fos::faults().shorts));
    count(0, fos::faults().injected); count(1, fos::faults().shorts);
}
struct H : Harness
{
    const char* id() { return "I05"; }
    void init() { io_init(); fos::reset(); }
    std::string rule() { return "histories of reads, writes, resizes and size queries on each disk backend over a simulated operating system; at every system call the call may be partial (1 byte, half, all but one) or fail (EIO, EINTR, ENOSPC, EMFILE), all combinations within the deviation bound; non-trivial: at least one fault"; }
    std::vector<std::string> counters() { return { "injected errors", "partial transfers" }; }
    void jobs(bool th, std::vector<Job>& out)
    {
        static const char* nm[] = { "syscall", "mmap", "fpb_syscall", "fpb_mmap", "simdisk" };
        for (int k = 0; k < 5; ++k) for (int s = 0; s < 2; ++s) for (int dir = 0; dir < (k == SYSCALL ? 2 : 1); ++dir)
                {
                    if (k == SIMDISK && !STXXL_HAVE_SIMDISK_FILE) continue;
                    Opts o; o.bound = (k >= 2 && k <= 3 ? 1 : 2) + th; o.eager = s; o.max_points = 100000;
                    Job j; j.opts = o; int depth = th ? 3 : 2;
                    j.name = std::string(nm[k]) + (s ? ".serve" : ".async") + (dir ? ".direct" : "");
                    j.body = [=] { program(k, depth, s, dir ? stxxl::file::DIRECT : 0); };
                    j.opts.shards = 8;
                    out.push_back(j);
                    Job q = j; q.name += ".long"; q.opts.bound--; q.body = [=] { program(k, depth + 1, s, 0); }; out.push_back(q);
                }
    }
};
MC_MAIN(H)
