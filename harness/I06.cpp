// I06: every storage backend against a byte array, over a simulated file system
#include "io.h"
#include "fakeos.h"
#include <stxxl/bits/io/create_file.h>
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <stxxl/bits/io/mem_file.h>
#include <stxxl/bits/io/fileperblock_file.h>
#include <stxxl/bits/io/simdisk_file.h>
#include <stxxl/bits/io/wbtl_file.h>
#include <stxxl/bits/common/aligned_alloc.h>
using namespace mc; using namespace iop;
static const int U = 4096;
enum { SYSCALL, MMAP, MEM, FPB_SYSCALL, FPB_MMAP, SIMDISK, WBTL1, WBTL2 };
static stxxl::file* make(int kind, int mode, bool factory)
{
    const char* path = "/mcfs/d";
    if (factory && kind <= SIMDISK && kind != MEM)
    {
        static const char* impl[] = { "syscall", "mmap", "memory", "fileperblock_syscall", "fileperblock_mmap", "simdisk" };
        return stxxl::create_file(impl[kind], path, mode, 81);
    }
    switch (kind)
    {
    case SYSCALL: return new stxxl::syscall_file(path, mode, 81);
    case MMAP: return new stxxl::mmap_file(path, mode, 81);
    case MEM: return new stxxl::mem_file(81);
    case FPB_SYSCALL: return new stxxl::fileperblock_file<stxxl::syscall_file>(path, mode, 81);
    case FPB_MMAP: return new stxxl::fileperblock_file<stxxl::mmap_file>(path, mode, 81);
    case SIMDISK: return new stxxl::sim_disk_file(path, mode, 81);
    default: return new stxxl::wbtl_file(new stxxl::syscall_file(path, mode, 82), (kind - WBTL1 + 1) * U, 2, 81);
    }
}
static char* buffer(int i) { static char raw[9 * 2 * U + U]; char* p = (char*)(((uintptr_t)raw + U - 1) / U * U); return p + i * 2 * U; }
static bool factory_mode = false;
static void program(int kind, int depth, bool async, bool slow)
{
    kill_queues(); stxxl::disk_queues::get_instance();
    fos::reset();
    bool fpb = kind == FPB_SYSCALL || kind == FPB_MMAP, wbtl = kind >= WBTL1, grows = kind == SYSCALL, persist = !wbtl && kind != MEM;
    int mode = stxxl::file::RDWR | stxxl::file::CREAT;
    stxxl::file* f = make(kind, mode, factory_mode);
    const int N = wbtl ? 14 : 4;
    std::vector<int> b(N * U, -1); size_t size = 0;
    // wbtl: physical space is needed beyond the logical contents
    size_t first = wbtl ? (size_t)N * U : 2 * U;
    if (!grows) { f->set_size(first); size = first; if (kind != MEM && kind != SIMDISK && !wbtl && !fpb) std::fill(b.begin(), b.begin() + size, 0); }
    int tag = 1; uint64_t h = kind; bool closed_removed = false;
    int nlogical = wbtl ? 3 : N;
    std::vector<stxxl::request_ptr> open_reqs;
    std::vector<bool> present(N, false);    // fpb / wbtl: block stored
    auto rd = [&](long off, size_t n, const char* what) {
        char* p = buffer(8); memset(p, 0x33, n);
        f->aread(p, off, n)->wait();
        for (size_t i = 0; i < n; ++i) { int w = b[off + i]; if (w >= 0 && (unsigned char)p[i] != w) fail(std::string(what) + ": byte " + std::to_string(off + i) + " is " + std::to_string((unsigned char)p[i]) + " instead of " + std::to_string(w)); }
    };
    for (int d = 0; d < depth; ++d)
    {
        // 0..2 write unit, 3 write two units, 4 read all in one, 5 set_size larger, 6 set_size smaller, 7 discard unit, 8 reopen, 9 overlapping asynchronous requests
        int op = choose(10);
        h = mix(h, op);
        auto wr = [&](long off, size_t n, int bi, bool wait) {
            char* p = buffer(bi); int t = tag++;
            for (size_t i = 0; i < n; ++i) { p[i] = (char)(t * 29 + i % 241 + (i >> 8)); b[off + i] = (unsigned char)p[i]; }
            if (grows && off + n > size) { for (size_t i = size; i < (size_t)off; ++i) if (b[i] < 0) b[i] = 0; size = off + n; }
            for (size_t u = off / U; u < (off + n) / U; ++u) present[u] = true;
            stxxl::request_ptr r = f->awrite(p, off, n);
            if (wait) r->wait(); else open_reqs.push_back(r);
            transition();
            MC_NOTE("write " << off << "+" << n);
        };
        if (op <= 2) { if ((!grows && (size_t)(op + 1) * U > size) || op >= nlogical) break; wr(op * U, U, 0, true); }
        else if (op == 3) { if (fpb || wbtl || (!grows && size < 3 * U)) break; wr(U, 2 * U, 0, true); nontrivial(); }
        else if (op == 4)
        {
            if (fpb || wbtl) { for (int u = 0; u < nlogical; ++u) if (present[u] && (size_t)(u + 1) * U <= size) rd(u * U, U, "read"); }
            else { for (size_t o = 0; o + U <= size; o += U) rd(o, std::min<size_t>(2 * U, size - o), "read"); }
        }
        else if (op == 5)
        {
            size_t ns = std::min<size_t>(N * U, size + U); if (ns == size) break;
            f->set_size(ns); if (!fpb && kind != MEM && kind != SIMDISK && !wbtl) for (size_t i = size; i < ns; ++i) b[i] = 0;
            size = ns; MC_NOTE("set_size " << ns); nontrivial();
        }
        else if (op == 6)
        {
            if (size < 2 * U || wbtl || kind == SIMDISK) break;
            size -= U; f->set_size(size); for (size_t i = size; i < b.size(); ++i) b[i] = -1;
            if (!fpb) for (size_t u = size / U; u < (size_t)N; ++u) present[u] = false;
            if (fpb) { for (size_t i = size; i < b.size(); ++i) b[i] = -1; }
            MC_NOTE("set_size " << size); nontrivial();
        }
        else if (op == 7)
        {
            int u = choose(nlogical); if ((size_t)(u + 1) * U > size || (fpb && !present[u])) break;
            f->discard(u * U, U); MC_NOTE("discard " << u);
            present[u] = false; for (int i = 0; i < U; ++i) b[u * U + i] = -1;
            h = mix(h, u); nontrivial();
        }
        else if (op == 8)
        {
            if (!persist) break;
            delete f; f = nullptr; kill_queues(); stxxl::disk_queues::get_instance();
            MC_CHECK(fos::open_fds() == 0, "descriptor open after the file object is gone");
            f = make(kind, mode, factory_mode); if (fpb) f->set_size(size);
            MC_NOTE("reopen"); nontrivial();
        }
        else
        {
            // several requests in flight on disjoint or equal blocks, in order of one direction
            if (!grows && size < 2 * U) break;
            wr(0, U, 1, false); wr(U, U, 2, false); wr(0, U, 3, false);
            for (auto& r : open_reqs) r->wait(); open_reqs.clear(); nontrivial();
            if (slow) { }
        }
        if (slow) vclock += 0.4;
        MC_CHECK(f->size() == size, "size() is " << f->size() << " instead of " << size);
        for (int u = 0; u < nlogical; ++u) if ((size_t)(u + 1) * U <= size && (present[u] || (!fpb && !wbtl))) rd(u * U, U, "afterwards");
        state(mix(h, size));
    }
    // read and write directions in flight together on different blocks
    if (async && size >= 2 * U && present[0] && nlogical > 1)
    {
        char* p = buffer(4), * q = buffer(5);
        for (int i = 0; i < U; ++i) p[i] = (char)(i % 17 + 100);
        stxxl::request_ptr w = f->awrite(p, U, U), r = f->aread(q, 0, U);
        r->wait(); w->wait();
        for (int i = 0; i < U; ++i) { MC_CHECK(b[i] < 0 || (unsigned char)q[i] == b[i], "read with a write to another block in flight is wrong"); b[U + i] = (unsigned char)p[i]; }
        present[1] = true; rd(U, U, "written in parallel");
    }
    int fin = choose(persist && !fpb ? 2 : 1);
    if (fin)
    {
        f->close_remove(); closed_removed = true;
    }
    delete f; kill_queues();
    MC_CHECK(fos::open_fds() == 0, fos::open_fds() << " descriptors stay open");
    MC_CHECK(fos::maps().empty(), "mappings stay");
    if (closed_removed) MC_CHECK(fos::names().empty(), "closing with removal leaves " << fos::names().begin()->first);
    else if (persist && !fpb) { fos::Node* n = fos::lookup("/mcfs/d"); MC_CHECK(n && n->size == size, "stored file has " << (n ? n->size : 0) << " bytes instead of " << size); for (size_t i = 0; i < size; ++i) if (b[i] >= 0) MC_CHECK((unsigned char)n->mem[i] == b[i], "stored byte " << i << " is wrong"); }
    else if (fpb)
    {
        // one file per block that is stored, nothing else
        size_t blocks = 0; for (auto& x : fos::names()) { MC_CHECK(x.first.find("_fpb_") != std::string::npos, "unexpected file " << x.first); if (x.first.find("_fpb_lock") == std::string::npos) blocks++; else MC_CHECK(!factory_mode, "lock file stays behind"); }
        size_t want = 0; for (bool p : present) want += p;
        MC_CHECK(blocks == want, blocks << " block files instead of " << want);
    }
    outcome(mix(h, size + fin));
}
// unlink after opening, truncation on opening, read-only access, exported blocks
static void special(int kind, int what)
{
    kill_queues(); stxxl::disk_queues::get_instance(); fos::reset();
    int mode = stxxl::file::RDWR | stxxl::file::CREAT;
    char* p = buffer(0), * q = buffer(1);
    for (int i = 0; i < 2 * U; ++i) p[i] = (char)(i % 253 + 1);
    nontrivial(); state(mix(kind, what)); outcome(mix(kind, what));
    bool fpb = kind == FPB_SYSCALL || kind == FPB_MMAP;
    if (what == 0 && !fpb)       // TRUNC
    {
        { stxxl::file* f = make(kind, mode, false); f->set_size(2 * U); f->awrite(p, 0, 2 * U)->wait(); delete f; }
        stxxl::file* f = make(kind, mode | stxxl::file::TRUNC, false);
        MC_CHECK(f->size() == 0, "a file opened with TRUNC is not empty"); f->set_size(U); f->awrite(p, 0, U)->wait(); f->aread(q, 0, U)->wait(); MC_CHECK(!memcmp(p, q, U), "data after TRUNC"); delete f;
    }
    else if (what == 1 && !fpb)  // read-only: the contents can be read, writing fails, size cannot change
    {
        { stxxl::file* f = make(kind, mode, false); f->set_size(2 * U); f->awrite(p, 0, 2 * U)->wait(); delete f; }
        if (kind == SIMDISK) return;
        stxxl::file* f = make(kind, stxxl::file::RDONLY, false);
        f->aread(q, U, U)->wait(); MC_CHECK(!memcmp(p + U, q, U), "read-only file delivers wrong data");
        bool threw = false; try { f->awrite(q, 0, U)->wait(); } catch (const stxxl::io_error&) { threw = true; }
        MC_CHECK(threw, "writing to a read-only file reports success");
        f->set_size(U); MC_CHECK(f->size() == 2 * U, "size of a read-only file changed");
        delete f;
        fos::Node* n = fos::lookup("/mcfs/d"); MC_CHECK(n->size == 2 * U && !memcmp(n->mem, p, 2 * U), "a read-only file was changed");
    }
    else if (what == 2)          // opening a missing file without CREAT
    {
        bool threw = false; try { stxxl::file* f = make(kind, stxxl::file::RDWR, false); delete f; } catch (const stxxl::io_error&) { threw = true; }
        MC_CHECK(threw, "opening a missing file without CREAT succeeds"); MC_CHECK(fos::names().empty(), "a file was created without CREAT");
    }
    else if (what == 3 && fpb)   // export of one block
    {
        stxxl::file* f = make(kind, mode, false); f->set_size(2 * U);
        f->awrite(p, 0, U)->wait(); f->awrite(p + U, U, U)->wait();
        f->export_files(U, 100, "exported");
        fos::Node* n = fos::lookup("/mcfs/exported"); MC_CHECK(n && n->size == 100 && !memcmp(n->mem, p + U, 100), "exported block differs");
        f->aread(q, 0, U)->wait(); MC_CHECK(!memcmp(p, q, U), "another block was affected by the export");
        delete f;
    }
    else if (what == 4 && !fpb)  // unlinked while open
    {
        stxxl::ufs_file_base* f = dynamic_cast<stxxl::ufs_file_base*>(make(kind, mode, false)); f->set_size(2 * U);
        f->unlink(); MC_CHECK(fos::names().empty(), "unlink leaves the name");
        f->awrite(p, 0, 2 * U)->wait(); f->aread(q, 0, 2 * U)->wait(); MC_CHECK(!memcmp(p, q, 2 * U), "unlinked file loses data"); delete f;
    }
    else if (what == 5)          // size of a memory file and its discard of odd lengths
    {
        stxxl::mem_file f(81); f.set_size(2 * U); f.awrite(p, 0, 2 * U)->wait(); f.discard(U, 100);
        f.aread(q, 0, 2 * U)->wait(); MC_CHECK(!memcmp(p, q, U) && !memcmp(p + U + 100, q + U + 100, U - 100), "discard touched bytes outside its range");
        f.set_size(U); MC_CHECK(f.size() == U, "size"); f.aread(q, 0, U)->wait(); MC_CHECK(!memcmp(p, q, U), "shrinking lost data");
    }
    kill_queues();
    MC_CHECK(fos::open_fds() == 0, "descriptors stay open");
}
struct H : Harness
{
    const char* id() { return "I06"; }
    void init() { io_init(); fos::reset(); stxxl::config::get_instance(); }
    std::string rule() { return "every history up to the stated length of writes, multi-block transfers, reads, growing, shrinking, discards, reopening and removal, on each backend over a simulated file system, compared with a byte array after every step; non-trivial: size change, discard, reopen or overlapping requests"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        static const char* nm[] = { "syscall", "mmap", "memory", "fpb_syscall", "fpb_mmap", "simdisk", "wbtl1", "wbtl2" };
        for (int k = 0; k < 8; ++k)
        {
            if (k == SIMDISK && !STXXL_HAVE_SIMDISK_FILE) continue;
            if (k >= WBTL1 && !STXXL_HAVE_WBTL_FILE) continue;
            for (int e = 0; e < 2; ++e)
            {
                Opts o; o.eager = e; o.max_points = 100000; o.shards = 1;
                Job j; j.opts = o; int depth = (th ? 4 : 3) + (k == MEM || (k <= MMAP && th)); j.opts.shards = 1;
                j.name = std::string(nm[k]) + (e ? ".eager" : ".lazy"); j.body = [=] { factory_mode = false; program(k, depth, true, e); }; out.push_back(j);
                if (!e && k != MEM && k < WBTL1) { j.name += ".factory"; j.body = [=] { factory_mode = true; program(k, depth - 1, false, false); factory_mode = false; }; out.push_back(j); }
            }
            bool wb = k >= WBTL1 && !th; Opts o; o.sched = true; o.bound = 1; o.shards = wb || k == MEM ? 1 : 8; o.max_points = 100000; Job j; j.opts = o; j.name = std::string(nm[k]) + ".sched"; j.body = [=] { factory_mode = false; program(k, wb ? 1 : 2, true, false); }; out.push_back(j);
            if (k <= SIMDISK) for (int w = 0; w < 6; ++w) { if ((k == MEM) != (w == 5)) continue; Opts q; q.max_points = 100000; Job x; x.opts = q; x.name = std::string(nm[k]) + ".special" + std::to_string(w); x.body = [=] { special(k, w); }; out.push_back(x); }
        }
    }
};
MC_MAIN(H)
