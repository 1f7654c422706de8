// M03: prefetch schedules and the block prefetcher
#include "cont.h"
#include <stxxl/bits/algo/async_schedule.h>
#include <stxxl/bits/mng/block_prefetcher.h>
#include <stxxl/bits/mng/typed_block.h>
using namespace mc;
using stxxl::int_type;
typedef stxxl::typed_block<4096, int> Blk;
typedef Blk::bid_type Bid;
enum { NONE = 1000 };       // a block of an unmanaged file without device id
struct Item { Bid bid; };

static void check_order(const std::vector<int_type>& disks, const std::vector<int_type>& o, int m, int D, const char* w)
{
    int L = (int)disks.size();
    std::vector<int> pos(L, -1);
    for (int i = 0; i < L; ++i)
    {
        MC_CHECK(o[i] >= 0 && o[i] < L, w << ": entry " << o[i] << " of the order for disks " << show(disks));
        MC_CHECK(pos[o[i]] < 0, w << ": block " << o[i] << " listed twice: disks " << show(disks) << " m=" << m << " D=" << D << " order " << show(o));
        pos[o[i]] = i;
    }
    // the consumer returns buffer k before it waits for block k+1: block k is requested in time iff fewer than m + k requests precede it
    for (int k = 0; k < L; ++k) MC_CHECK(pos[k] < m + k, w << ": block " << k << " is fetched too late for " << m << " buffers: disks " << show(disks) << " D=" << D << " order " << show(o));
}
static void schedule(int L, int D, int mmax)
{
    std::vector<int_type> disks, raw;
    for (int i = 0; i < L; ++i) { int d = choose(D + 1); disks.push_back(d < D ? d : NONE); raw.push_back(d < D ? d : (int_type)stxxl::file::DEFAULT_DEVICE_ID); }
    int m = 1 + choose(mmax);
    if (L) raw.push_back(-77); else raw.resize(1);
    std::vector<int_type> out(L + 2, -5), out2(L + 2, -5);
    stxxl::compute_prefetch_schedule(raw.data(), raw.data() + L, out.data(), m, D);
    transition();
    MC_CHECK(out[L] == -5 && out[L + 1] == -5, "written past the order");
    std::vector<int_type> o(out.begin(), out.begin() + L);
    check_order(disks, o, m, D, "order");
    const int_type* cf = raw.data();
    stxxl::compute_prefetch_schedule(cf, cf + L, out2.data(), m, D);
    MC_CHECK(out == out2, "the order is not a function of its input");
    uint64_t h = hash_seq(o, L * 100 + m); outcome(h); state(mix(h, hash_seq(disks)));
    bool id = true; for (int i = 0; i < L; ++i) id &= o[i] == i;
    if (!id) nontrivial();
    if (noting()) note_str("disks " + show(disks) + " m " + std::to_string(m) + ": " + show(o));
}
// the overloads on runs and BID sequences agree with the one on disk numbers
static std::vector<Bid>& disk_blocks() { static std::vector<Bid> v; return v; }    // 8 blocks on each of 3 disks
static void overloads(int L)
{
    std::vector<int_type> disks; std::vector<Item> run; std::vector<Bid> bids;
    int used[3] = { 0, 0, 0 };
    for (int i = 0; i < L; ++i) { int d = choose(3); disks.push_back(d); Item it; it.bid = disk_blocks()[d * 8 + used[d]++]; run.push_back(it); bids.push_back(it.bid); MC_CHECK((int)it.bid.storage->get_device_id() == d, "device id"); }
    int m = 1 + choose(L + 1);
    std::vector<int_type> a(L), b(L), c(L);
    stxxl::compute_prefetch_schedule(disks.data(), disks.data() + L, a.data(), m, 3);
    stxxl::compute_prefetch_schedule(run, b.data(), m, 3);
    stxxl::compute_prefetch_schedule(bids.begin(), bids.end(), c.data(), m, 3);
    MC_CHECK(a == b && a == c, "overloads differ: " << show(a) << show(b) << show(c));
    transition(3); outcome(hash_seq(a, m));
}
struct Cnt { int* n; void operator () (stxxl::request*) { ++*n; } };
// the prefetcher itself; order: 0 computed, 1 identity, 2: any feasible permutation
static void prefetcher(int L, int how, int mmax)
{
    std::vector<Bid> bids; std::vector<int_type> disks; std::vector<int> want;
    int used[3] = { 0, 0, 0 };
    for (int i = 0; i < L; ++i)
    {
        int d = how == 2 ? i % 3 : choose(3); disks.push_back(d);
        if (i && how != 2 && deviate(2)) { bids.push_back(bids[i - 1]); want.push_back(want[i - 1]); disks[i] = disks[i - 1]; }     // a block may be read twice
        else { int k = d * 8 + used[d]++; bids.push_back(disk_blocks()[k]); want.push_back(k); }
    }
    int m = 1 + choose(mmax);
    std::vector<int_type> seq(L);
    if (how == 0) stxxl::compute_prefetch_schedule(bids.begin(), bids.end(), seq.data(), m, 3);
    else if (how == 1) for (int i = 0; i < L; ++i) seq[i] = i;
    else
    {
        std::vector<int> left; for (int i = 0; i < L; ++i) left.push_back(i);
        for (int i = 0; i < L; ++i)
        {   // blocks k with k <= i - m must be out already
            size_t feas = left[0] <= i - m + 0 ? 1 : left.size();
            int c = choose((int)feas); seq[i] = left[c]; left.erase(left.begin() + c);
        }
        std::vector<int> pos(L); for (int i = 0; i < L; ++i) pos[seq[i]] = i;
        for (int k = 0; k < L; ++k) if (pos[k] >= m + k) return;     // not a feasible order
    }
    int stop = choose(L + 1);       // blocks consumed before the prefetcher is destroyed
    int completions = 0, expect = 0;
    {
        bool handler = choose(2);
        typedef stxxl::block_prefetcher<Blk, std::vector<Bid>::iterator> PF;
        PF pf(bids.begin(), bids.end(), seq.data(), m, handler ? stxxl::completion_handler(Cnt { &completions }) : stxxl::completion_handler());
        expect = handler ? std::min(m, L) : 0;
        Blk* b = nullptr;
        for (int i = 0; i < stop; ++i)
        {
            MC_CHECK(pf.pos() == (size_t)i && !pf.empty(), "position " << pf.pos() << " before block " << i);
            if (i == 0) b = pf.pull_block();
            else
            {
                if (handler && m + i - 1 < L) expect++;
                MC_CHECK(pf.block_consumed(b), "sequence reported as finished at block " << i << " of " << L);
            }
            transition();
            for (int j : { 0, 1, (int)Blk::size - 1 }) MC_CHECK((*b)[j] == want[i] * 10000 + j, "block " << i << " of the sequence: contents " << (*b)[j] << " instead of " << want[i] * 10000 + j << ", order " << show(seq));
            for (int j = 0; j < (int)Blk::size; ++j) (*b)[j] = -1;        // the consumer may change its buffer
        }
        if (stop == L && choose(2)) { MC_CHECK(pf.empty(), "not empty at the end"); MC_CHECK(!pf.block_consumed(b), "block_consumed at the end"); }
    }
    drain();
    MC_CHECK(completions == expect, completions << " completion handlers run instead of " << expect);
    uint64_t h = hash_seq(seq, m * 16 + stop); state(mix(h, hash_seq(want))); outcome(h); if (L > m) nontrivial();
}
struct H : Harness
{
    const char* id() { return "M03"; }
    void init()
    {
        cont::setup(3);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        std::vector<Bid>& v = disk_blocks(); v.resize(24);
        for (int d = 0; d < 3; ++d) bm->new_blocks(stxxl::single_disk(d), v.begin() + d * 8, v.begin() + d * 8 + 8);
        Blk* b = new Blk;
        for (int i = 0; i < 24; ++i) { for (int j = 0; j < (int)Blk::size; ++j) (*b)[j] = i * 10000 + j; b->write(v[i])->wait(); }
        delete b;
    }
    std::string rule() { return "schedules: every assignment of up to 8 blocks to up to 3 disks plus unmanaged files, and all buffer counts: permutation and feasibility of the order; prefetcher: disk assignments (incl. repeated blocks), computed, identity and all feasible orders, buffer counts, early destruction after any number of blocks; lazy/eager I/O and preemption-bounded schedules; non-trivial: order differs from the identity, or fewer buffers than blocks"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.race = false;
        for (int L = 0; L <= (th ? 10 : 8); ++L) for (int D = 1; D <= 3; ++D) { if (L > (th ? 8 : 7) && D > 2) continue; out.push_back(Job { "order.L" + std::to_string(L) + "D" + std::to_string(D), [=] { schedule(L, D, L + 2); }, o }); }
        for (int L = 9; L <= (th ? 14 : 11); ++L) out.push_back(Job { "order.L" + std::to_string(L) + "D1", [=] { schedule(L, 1, L + 1); }, o });
        for (int L = 1; L <= 6; ++L) out.push_back(Job { "overloads.L" + std::to_string(L), [=] { overloads(L); }, o });
        for (int L = 1; L <= 5; ++L)
        {
            auto f = [=](int how, int sl) { return [=](int) { cont::Scope sc; prefetcher(L, how, std::min(L + 1, sl)); sc.finish(); }; };
            cont::family(out, "prefetch.computed.L" + std::to_string(L), f(0, 5), L <= (th ? 5 : 4), L <= (th ? 5 : 3), L <= (th ? 4 : 2), L <= 1 || (th && L == 2) ? 2 : 1, 1);
            cont::family(out, "prefetch.identity.L" + std::to_string(L), f(1, 5), L <= 4, L <= 4, L <= 2, 1, 1);
            cont::family(out, "prefetch.any.L" + std::to_string(L), f(2, 4), L <= (th ? 5 : 4), L <= (th ? 5 : 4), L <= (th ? 4 : 3), L <= 2 ? 2 : 1, 0);
        }
    }
};
MC_MAIN(H)
