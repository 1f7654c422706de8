// common parts of the harnesses for containers, algorithms and streams: memory disks, seeds, leak accounting, job families
#pragma once
#include "h.h"
#include <stxxl/bits/mng/block_manager.h>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/io/iostats.h>
#include <stxxl/bits/common/seed.h>
#include <stxxl/bits/common/rand.h>
#include <stxxl/bits/common/log.h>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>

namespace cont {
extern "C" void omp_set_num_threads(int);

inline void quiet_log()
{
    // the library's messages go to files of the scratch directory; keep them off the console
    setenv("STXXLLOGFILE", "/dev/null", 1);
    setenv("STXXLERRLOGFILE", "/dev/null", 1);
}
inline std::vector<stxxl::BID<4096> >& parked() { static std::vector<stxxl::BID<4096> > v; return v; }
inline char* park_buf() { static char buf[8192]; return (char*)(((uintptr_t)buf + 4095) / 4096 * 4096); }
// bring every disk queue's worker into the same phase: a served read leaves it in the write phase
inline void settle()
{
    mc::quiet(true);
    for (auto& x : parked()) { stxxl::request_ptr r = x.storage->aread(park_buf(), x.offset, 4096); r->wait(); }
    mc::drain();
    mc::quiet(false);
}
inline void setup(int ndisks = 2, unsigned mb = 8)
{
    quiet_log();
    setenv("STXXLLOGFILE", "/dev/null", 1);
    int o1 = dup(1), o2 = dup(2), n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    stxxl::set_seed(1);
    stxxl::config* cfg = stxxl::config::get_instance();
    for (int i = 0; i < ndisks; ++i)
    {
        stxxl::disk_config d("mcdisk" + std::to_string(i), stxxl::uint64(mb) * 1024 * 1024, "memory");
        d.autogrow = false;
        cfg->add_disk(d);
    }
    cfg->check_initialized();
    stxxl::block_manager::get_instance();
    stxxl::stats::get_instance();
    // warm up every queue
    std::vector<stxxl::BID<4096> > b(ndisks);
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    bm->new_blocks(stxxl::striping(0, ndisks), b.begin(), b.end());
    char* p = park_buf();
    for (auto& x : b) { stxxl::request_ptr r = x.storage->awrite(p, x.offset, 4096); r->wait(); }
    parked() = b;        // these blocks stay allocated
    fflush(stdout); fflush(stderr);
    std::cout.flush(); std::cerr.flush();
    std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
    dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(n);
}

struct Scope
{
    stxxl::uint64 cur, free_;
    Scope(unsigned seed = 1)
    {
        settle();
        stxxl::set_seed(seed); stxxl::srandom_number32(seed);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        cur = bm->get_current_allocation(); free_ = bm->get_free_bytes();
    }
    // after all objects are gone, the external memory must be back
    void finish()
    {
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        if (bm->get_current_allocation() != cur || bm->get_free_bytes() != free_)
            mc::fail("external memory not returned: " + std::to_string((long long)(bm->get_current_allocation() - cur)) + " bytes still counted as allocated, "
                     + std::to_string((long long)(free_ - bm->get_free_bytes())) + " bytes missing from the free space");
    }
};

// element of N bytes: key, payload derived from the key, check word at the end
template <int N>
struct El
{
    int k; int pad[(N - 8) / 4]; int k2;
    El() { }
    El(int key) : k(key), k2(~key) { for (int& p : pad) p = key * 3 + 1; }
    bool ok() const { if (k2 != ~k) return false; for (const int& p : pad) if (p != k * 3 + 1) return false; return true; }
    bool operator < (const El& o) const { return k < o.k; }
    bool operator > (const El& o) const { return k > o.k; }
    bool operator == (const El& o) const { return k == o.k; }
    bool operator != (const El& o) const { return k != o.k; }
    static El min_value() { return El(INT_MIN); }
    static El max_value() { return El(INT_MAX); }
};
template <> struct El<8>
{
    int k, k2;
    El() { }
    El(int key) : k(key), k2(~key) { }
    bool ok() const { return k2 == ~k; }
    bool operator < (const El& o) const { return k < o.k; }
    bool operator > (const El& o) const { return k > o.k; }
    bool operator == (const El& o) const { return k == o.k; }
    bool operator != (const El& o) const { return k != o.k; }
};
template <int N> std::ostream& operator << (std::ostream& o, const El<N>& e) { return o << e.k; }
template <class E> inline void check_el(const E& e, int key, const char* what)
{
    if (e.k != key || !e.ok()) mc::fail(std::string(what) + ": element " + std::to_string(e.k) + (e.ok() ? "" : " (damaged)") + " instead of " + std::to_string(key));
}

// a family: the same history body under three I/O timings
inline void family(std::vector<mc::Job>& out, const std::string& name, std::function<void(int)> body, int depth_lazy, int depth_eager, int depth_sched, int bound = 1, int env_bound = 0, int shards = 1)
{
    mc::Opts o; o.max_points = 2000000; o.race = false; o.bound = env_bound;
    mc::Job j; j.name = name + ".lazy"; j.opts = o; j.body = [=] { body(depth_lazy); };
    j.opts.shards = 1;
    if (depth_lazy > 0) out.push_back(j);
    o.eager = true; j.name = name + ".eager"; j.opts = o; j.body = [=] { body(depth_eager); };
    if (depth_eager > 0) out.push_back(j);
    o.eager = false; o.sched = true; o.bound = bound; o.shards = shards; o.forced_free = false;
    j.name = name + ".sched"; j.opts = o; j.body = [=] { body(depth_sched); };
    if (depth_sched > 0) out.push_back(j);
}
// split by the first choices: body(prefix...) with the first operation fixed
inline void split_family(std::vector<mc::Job>& out, const std::string& name, int nops, std::function<void(int first, int depth)> body, int dl, int de, int ds, int bound = 1, int env_bound = 0)
{
    for (int f = 0; f < nops; ++f)
        family(out, name + ".op" + std::to_string(f), [=](int d) { body(f, d); }, dl, de, ds, bound, env_bound);
}
} // namespace cont
