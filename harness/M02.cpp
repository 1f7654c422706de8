// M02: placement strategies: every disk range, index and result of the random source
#include "cont.h"
#include <stxxl/bits/common/rand.h>
// the strategies are compiled a second time, under other names, with a random source whose results are enumerated
#include <stxxl/bits/common/utils.h>
#include <stxxl/bits/mng/config.h>
namespace stxxl {
struct mc_uniform { typedef double value_type; double operator () () const { return 0; } };
template <> struct random_number<mc_uniform>
{
    typedef unsigned value_type;
    value_type operator () (value_type n) const { return n ? mc::choose((int)n) : 0; }
};
}
#undef STXXL_MNG_BLOCK_ALLOC_HEADER
#undef STXXL_MNG_BLOCK_ALLOC_INTERLEAVED_HEADER
#undef STXXL_DEFAULT_ALLOC_STRATEGY
#define random_uniform_fast mc_uniform
#define basic_allocation_strategy mcx_basic
#define striping mcx_striping
#define FR mcx_FR
#define SR mcx_SR
#define RC mcx_RC
#define RC_disk mcx_RC_disk
#define RC_flash mcx_RC_flash
#define single_disk mcx_single_disk
#define offset_allocator mcx_offset_allocator
#define interleaved_striping mcx_istriping
#define interleaved_FR mcx_iFR
#define interleaved_SR mcx_iSR
#define interleaved_RC mcx_iRC
#define first_disk_only mcx_first_disk_only
#define interleaved_alloc_traits mcx_traits
#include <stxxl/bits/mng/block_alloc.h>
#include <stxxl/bits/mng/block_alloc_interleaved.h>
using namespace mc;
using namespace stxxl;

static bool balanced_group(const std::vector<int>& d, size_t s, int n)
{ std::set<int> x(d.begin() + s, d.begin() + s + n); return (int)x.size() == n; }

template <class S> void base(int b, int e, bool balanced, int idx)
{
    S s(b, e); int D = e - b;
    std::vector<int> d;
    for (int i = 0; i < idx; ++i) { d.push_back((int)s(i)); transition(); MC_CHECK(d[i] >= b && d[i] < e, S::name() << ": disk " << d[i] << " outside [" << b << "," << e << ")"); }
    if (balanced) for (int i = 0; i + D <= idx; i += D) MC_CHECK(balanced_group(d, i, D), S::name() << ": indices " << i << ".. on disks " << show(d));
    // the mapping is stable, in copies too
    if (balanced)
    {
        S c(s); for (int i = idx; i-- > 0; ) MC_CHECK((int)c(i) == d[i] && (int)s(i) == d[i], S::name() << ": index " << i << " moved");
        for (int off = 0; off <= D + 1; ++off)
        {
            offset_allocator<S> o(off, s), p(s); p.set_offset(off);
            for (int i = 0; i + off < idx; ++i) { MC_CHECK((int)o(i) == d[i + off], "offset " << off << " index " << i); MC_CHECK((int)p(i) == d[i + off], "set_offset"); }
            MC_CHECK(p.get_offset() == off, "get_offset");
        }
    }
    uint64_t h = hash_seq(d, b * 64 + e); state(h); outcome(h); if (D > 1) nontrivial();
    MC_NOTE(S::name() << " [" << b << "," << e << "): " << show(d));
}
template <class S> void inter(int b, int e, int runs, bool balanced, int cycles)
{
    typedef typename interleaved_alloc_traits<S>::strategy I;
    S s(b, e); int D = e - b;
    I it(runs, s);
    int idx = cycles * D * runs;
    std::vector<int> d;
    for (int i = 0; i < idx; ++i) { d.push_back((int)it(i)); transition(); MC_CHECK(d[i] >= b && d[i] < e, "interleaved " << S::name() << ": disk " << d[i] << " outside [" << b << "," << e << ")"); }
    if (balanced)
    {
        for (int r = 0; r < runs; ++r)
        {
            std::vector<int> run; for (int i = r; i < idx; i += runs) run.push_back(d[i]);
            for (int i = 0; i + D <= (int)run.size(); i += D) MC_CHECK(balanced_group(run, i, D), "interleaved " << S::name() << ": run " << r << " of " << runs << " on disks " << show(run));
        }
        for (int i = idx; i-- > 0; ) MC_CHECK((int)it(i) == d[i], "index moved");
    }
    uint64_t h = hash_seq(d, b * 64 + e + 7000 * runs); state(h); outcome(h); if (D > 1 && runs > 1) nontrivial();
}
static void single(int disk)
{
    single_disk s(disk, disk + 1); interleaved_alloc_traits<single_disk>::strategy f(2, s);
    for (int i = 0; i < 9; ++i) { MC_CHECK((int)s(i) == disk, "single disk"); MC_CHECK((int)f(i) == disk, "first disk only"); transition(); }
    MC_CHECK((int)single_disk()(3) == 0, "single disk default");
    outcome(disk);
}
// default ranges, from a configuration with 3 regular and 2 flash disks
static void defaults()
{
    config* c = config::get_instance();
    MC_CHECK(c->disks_number() == 5, "number of disks " << c->disks_number());
    std::pair<unsigned, unsigned> r = c->regular_disk_range(), f = c->flash_range();
    MC_CHECK(r.first == 0 && r.second == 3 && f.first == 3 && f.second == 5, "ranges " << r.first << "-" << r.second << " " << f.first << "-" << f.second);
    for (unsigned i = 0; i < 5; ++i) MC_CHECK(c->disk(i).flash == (i >= 3), "flash devices come last");
    int w = choose(6); std::vector<int> d; int lo = 0, hi = 5;
    striping s0; SR s2; 
    if (w == 0) for (int i = 0; i < 10; ++i) d.push_back(s0(i));
    if (w == 1) { FR s; for (int i = 0; i < 3; ++i) d.push_back(s(i)); }
    if (w == 2) for (int i = 0; i < 10; ++i) d.push_back(s2(i));
    if (w == 3) { RC s; for (int i = 0; i < 10; ++i) d.push_back(s(i)); }
    if (w == 4) { RC_disk s; for (int i = 0; i < 9; ++i) d.push_back(s(i)); hi = 3; }
    if (w == 5) { RC_flash s; for (int i = 0; i < 8; ++i) d.push_back(s(i)); lo = 3; }
    for (int x : d) MC_CHECK(x >= lo && x < hi, "strategy " << w << ": disk " << x);
    if (w != 1) for (int i = 0; i + hi - lo <= (int)d.size(); i += hi - lo) MC_CHECK(balanced_group(d, i, hi - lo), "strategy " << w << " on disks " << show(d));
    nontrivial(); outcome(hash_seq(d, w)); transition(d.size());
}
struct H : Harness
{
    const char* id() { return "M02"; }
    void init()
    {
        cont::quiet_log();
        int o1 = dup(1), o2 = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
        config* cfg = config::get_instance();
        bool fl[5] = { true, false, false, true, false };
        for (int i = 0; i < 5; ++i) { disk_config d("mc" + std::to_string(i), 4096, "memory"); d.flash = fl[i]; d.autogrow = false; cfg->add_disk(d); }
        cfg->check_initialized();
        fflush(stdout); std::cout.flush(); std::cerr.flush(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
        dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(n);
    }
    std::string rule() { return "every strategy and run-interleaved strategy on every disk range within 5 disks (2 first disks), all run counts up to 4 (bounded by the number of random draws), several cycles of indices, and every result of the random source; non-trivial: more than one disk (and run)"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.race = false;
        auto add = [&](std::string n, std::function<void()> f) { out.push_back(Job { n, f, o }); };
        for (int b = 0; b < 3; ++b) for (int D = 1; D <= 5; ++D)
        {
            std::string s = "." + std::to_string(b) + "+" + std::to_string(D); int e = b + D;
            add("striping" + s, [=] { base<striping>(b, e, true, 4 * D + 2); });
            add("SR" + s, [=] { base<SR>(b, e, true, 4 * D + 2); });
            add("RC" + s, [=] { base<RC>(b, e, true, 4 * D + 2); });
            add("RC_disk" + s, [=] { base<RC_disk>(b, e, true, 3 * D); });
            add("RC_flash" + s, [=] { base<RC_flash>(b, e, true, 3 * D); });
            add("FR" + s, [=] { base<FR>(b, e, false, th ? 8 : 6); });
            for (int r = 1; r <= 4; ++r)
            {
                std::string t = s + "r" + std::to_string(r);
                double f = 1; for (int i = 2; i <= D; ++i) f *= i;
                double combos = 1; for (int i = 0; i < r; ++i) combos *= f;
                add("istriping" + t, [=] { inter<striping>(b, e, r, true, 3); });
                add("iSR" + t, [=] { inter<SR>(b, e, r, true, 3); });
                // std::random_shuffle draws D-1 numbers per run, the base strategy as many again (they do not matter): bounded by cost
                if (combos * f <= (th ? 2e7 : 4e5)) { add("iRC" + t, [=] { inter<RC>(b, e, r, true, 3); }); if (b == 1) { add("iRC_disk" + t, [=] { inter<RC_disk>(b, e, r, true, 2); }); add("iRC_flash" + t, [=] { inter<RC_flash>(b, e, r, true, 2); }); } }
                if (D * r <= 8) add("iFR" + t, [=] { inter<FR>(b, e, r, false, 1); });
            }
            add("single" + s, [=] { single(b + D); });
        }
        add("defaults", [=] { defaults(); });
    }
};
MC_MAIN(H)
