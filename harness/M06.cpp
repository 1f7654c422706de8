// M06: the block scheduler keeps every swappable block's contents
#include "cont.h"
#include <stxxl/bits/mng/block_scheduler.h>
using namespace mc;
enum { N = 1024, NB = 3 };
struct SB : public stxxl::swappable_block<int, N>
{
    static void reset() { disk_allocation_offset = 0; }        // otherwise left over from the execution before
    void fill_default() { for (int i = 0; i < N; ++i) (*internal_data)[i] = 0; }
};
typedef stxxl::block_scheduler<SB> BS;
typedef BS::internal_block_type IB;
typedef BS::external_block_type EB;
typedef stxxl::block_scheduler_algorithm_simulation<SB> Sim;
typedef stxxl::block_scheduler_algorithm_online_lru<SB> Lru;
typedef stxxl::block_scheduler_algorithm_offline_lfd<SB> Lfd;
typedef stxxl::block_scheduler_algorithm_offline_lru_prefetching<SB> Pre;

static void put(IB& b, int v) { b[0] = v; b[N / 2] = v + 1; b[N - 1] = ~v; }
static void expect(const IB& b, int v, int id, const char* what)
{
    if (v == 0) { if (b[0] || b[N / 2] || b[N - 1]) fail(std::string(what) + ": new block " + std::to_string(id) + " is not filled with the default, but " + std::to_string(b[0])); return; }
    if (b[0] != v || b[N / 2] != v + 1 || b[N - 1] != ~v) fail(std::string(what) + ": block " + std::to_string(id) + " shows " + std::to_string(b[0]) + " instead of " + std::to_string(v));
}
enum Kind { WRITE, READ, MODIFY, HOLD, LEAVE, LEAVE_DIRTY, DEINIT, EXTRACT, INJECT, FLUSH, STEP, NKIND };
struct Op { Kind k; int b; int v; };
// what a block holds (0: nothing), and how often it is held
struct State
{
    int val[NB] = { 0, 0, 0 }, cur[NB] = { 0, 0, 0 }, held[NB] = { 0, 0, 0 }; bool dirt[NB] = { false, false, false };
    int nheld() const { int n = 0; for (int i = 0; i < NB; ++i) n += held[i] > 0; return n; }
};
static bool allowed(const State& s, const Op& o, int k, bool flush, bool ext)
{
    int b = o.b, h = s.held[b];
    switch (o.k)
    {
    case WRITE: return !h && s.nheld() < k;
    case READ: case MODIFY: return h || s.nheld() < k;
    case HOLD: return h < 2 && (h || s.nheld() < k);
    case LEAVE: case LEAVE_DIRTY: return h;
    case DEINIT: return !h;
    case EXTRACT: return ext && !h && s.val[b];
    case INJECT: return ext && !h && !s.val[b];
    case FLUSH: return flush && b == 0;
    case STEP: return b == 0;
    default: return false;
    }
}
static void model(State& s, const Op& o)
{
    int b = o.b;
    if ((o.k == READ || o.k == MODIFY || o.k == HOLD) && !s.held[b]) { s.cur[b] = s.val[b]; s.dirt[b] = false; }
    switch (o.k)
    {
    case WRITE: s.val[b] = o.v; break;
    case READ: if (s.held[b] && s.dirt[b]) s.val[b] = s.cur[b]; break;
    case MODIFY: s.cur[b] = o.v; s.dirt[b] = true; s.val[b] = o.v; break;
    case HOLD: s.held[b]++; break;
    case LEAVE: s.held[b]--; if (!s.held[b] && s.dirt[b]) s.val[b] = s.cur[b]; break;
    case LEAVE_DIRTY: s.held[b]--; s.cur[b] = o.v; s.dirt[b] = true; s.val[b] = o.v; break;
    case DEINIT: case EXTRACT: s.val[b] = 0; break;
    case INJECT: s.val[b] = o.v; break;
    default: break;
    }
}
static EB fresh_block(int v)
{
    static char raw[8192]; char* p = (char*)(((uintptr_t)raw + 4095) / 4096 * 4096);
    EB e; stxxl::block_manager::get_instance()->new_block(stxxl::striping(), e);
    put(*(IB*)p, v);
    e.storage->serve(p, e.offset, 4096, stxxl::request::WRITE);
    return e;
}
static void take_block(EB e, int v, int b)
{
    static char raw[8192]; char* p = (char*)(((uintptr_t)raw + 4095) / 4096 * 4096);
    if (!e.valid()) fail("extract: no external block for block " + std::to_string(b));
    e.storage->serve(p, e.offset, 4096, stxxl::request::READ);
    expect(*(IB*)p, v, b, "extracted block");
    stxxl::block_manager::get_instance()->delete_block(e);
}
// real: false while simulating (the data is not to be looked at)
static void perform(BS& bs, State& s, const Op& o, size_t ids[NB], bool real)
{
    int b = o.b; size_t id = ids[b];
    transition();
    int before = s.held[b] ? s.cur[b] : s.val[b];
    switch (o.k)
    {
    case WRITE: { IB& x = bs.acquire(id, true); if (real) put(x, o.v); bs.release(id, true); break; }
    case READ: { IB& x = bs.acquire(id); if (real) expect(x, before, b, "read"); bs.release(id, false); break; }
    case MODIFY: { IB& x = bs.acquire(id); if (real) { expect(x, before, b, "modify"); put(x, o.v); } bs.release(id, true); break; }
    case HOLD: { IB& x = bs.acquire(id); if (real) expect(x, before, b, "hold"); break; }
    case LEAVE: if (real) expect(bs.get_internal_block(id), before, b, "held block"); bs.release(id, false); break;
    case LEAVE_DIRTY: if (real) { expect(bs.get_internal_block(id), before, b, "held block"); put(bs.get_internal_block(id), o.v); } bs.release(id, true); break;
    case DEINIT: bs.deinitialize(id); break;
    case EXTRACT: { EB e = bs.extract_external_block(id); if (real) take_block(e, before, b); break; }
    case INJECT: bs.initialize(id, real ? fresh_block(o.v) : EB()); break;
    case FLUSH: bs.flush(); break;
    case STEP: bs.explicit_timestep(); break;
    default: break;
    }
    model(s, o);
    for (int i = 0; i < NB; ++i)
        if (!s.held[i] && bs.is_initialized(ids[i]) != (s.val[i] != 0))
            fail("block " + std::to_string(i) + (s.val[i] ? " holds data but is reported uninitialised" : " is reported initialised without holding data"));
    // held blocks must not move or change
    if (real) for (int i = 0; i < NB; ++i) if (s.held[i]) expect(bs.get_internal_block(ids[i]), s.cur[i], i, "held block");
}
static void check_all(BS& bs, State& s, size_t ids[NB], const char* what)
{
    for (int i = 0; i < NB; ++i)
    {
        if (bs.is_initialized(ids[i]) != (s.val[i] != 0)) fail(std::string(what) + ": initialised state of block " + std::to_string(i));
        expect(bs.acquire(ids[i]), s.val[i], i, what); bs.release(ids[i], false);
    }
}
static std::vector<Op> choose_ops(State s, int depth, int k, bool flush, bool ext, int& ctr)
{
    std::vector<Op> r; unsigned touched = 0;
    for (int i = 0; i < NB; ++i) if (s.val[i] || s.held[i]) touched |= 1u << i;
    // equal blocks are interchangeable: a block without a history is taken in order of its number
    for (int d = 0; d < depth; ++d)
    {
        std::vector<Op> c;
        for (int kk = 0; kk < NKIND; ++kk)
            for (int b = 0; b < NB; ++b)
            {
                Op o = { Kind(kk), b, 0 };
                if (!allowed(s, o, k, flush, ext)) continue;
                if (kk < FLUSH && !(touched >> b & 1)) { bool first = true; for (int j = 0; j < b; ++j) if (!(touched >> j & 1)) first = false; if (!first || kk == DEINIT) continue; }
                c.push_back(o);
            }
        Op o = c[choose((int)c.size())];
        o.v = ctr; ctr += 10;
        if (o.k < FLUSH) touched |= 1u << o.b;
        model(s, o); r.push_back(o);
    }
    // nobody holds a block at the end
    for (int i = 0; i < NB; ++i) while (s.held[i]) { Op o = { LEAVE, i, 0 }; if (r.empty()) break; model(s, o); r.push_back(o); }
    return r;
}
// k internal blocks; algo: 0 online, 1 longest forward distance, 2 with prefetching; pre: how many blocks hold data already
static void body(int k, int algo, int pre, bool ext, int depth)
{
    cont::Scope scope; SB::reset(); State s; std::vector<Op> hist;
    {
        BS bs(k * (long)sizeof(IB));
        size_t ids[NB];
        for (int i = 0; i < NB; ++i) ids[i] = bs.allocate_swappable_block();
        int ctr = 100;
        for (int i = 0; i < pre; ++i)
        {   // alternately: data in memory (dirty, perhaps evicted), data in an injected block
            Op o = { i & 1 ? INJECT : WRITE, i, 50 + i };
            perform(bs, s, o, ids, true);
        }
        std::vector<Op> ops = choose_ops(s, depth, k, algo != 2, ext, ctr); hist = ops;
        for (auto& o : ops) { static const char* kn[] = { "WRITE", "READ", "MODIFY", "HOLD", "LEAVE", "LEAVE_DIRTY", "DEINIT", "EXTRACT", "INJECT", "FLUSH", "STEP" }; MC_NOTE(kn[o.k] << " " << o.b << " v" << o.v); }
        if (algo == 0)
            for (auto& o : ops) perform(bs, s, o, ids, true);
        else
        {
            State t = s;
            Sim* sim = new Sim(bs);
            delete bs.switch_algorithm_to(sim);
            MC_CHECK(bs.is_simulating(), "not simulating");
            for (auto& o : ops) perform(bs, t, o, ids, false);
            int rounds = 1;
            stxxl::block_scheduler_algorithm<SB>* old;
            if (algo == 1) old = bs.switch_algorithm_to(new Lfd(sim)); else old = bs.switch_algorithm_to(new Pre(sim));
            (void)rounds;
            delete old;
            MC_CHECK(!bs.is_simulating(), "still simulating");
            for (auto& o : ops) perform(bs, s, o, ids, true);
            delete bs.switch_algorithm_to(new Lru(bs));
        }
        check_all(bs, s, ids, "at the end");
        check_all(bs, s, ids, "at the end, again");
        if (choose(2)) { bs.flush(); check_all(bs, s, ids, "after a flush"); }
        for (int i = 0; i < NB; ++i)
            if (s.val[i] && i == 1) take_block(bs.extract_external_block(ids[i]), s.val[i], i);
        for (int i = 0; i < NB; ++i) bs.free_swappable_block(ids[i]);
    }
    scope.finish();
    { uint64_t h = mix(k * 16 + algo * 4 + pre, hash_seq(s.val)); for (auto& o : hist) h = mix(h, o.k * 4 + o.b); state(h); outcome(h); } if (hist.size() >= 2) nontrivial();
}
struct H : public Harness
{
    const char* id() override { return "M06"; }
    std::string rule() override { return "an execution counts when a history ran to its end with all contents checked"; }
    void init() override { cont::setup(2, 4); }
    void jobs(bool thorough, std::vector<Job>& v) override
    {
        const char* an[] = { "online", "lfd", "prefetch" };
#ifdef RACE
        for (int k = 1; k <= 2; ++k)
            cont::family(v, "race.k" + std::to_string(k), [=](int d) { body(k, 2, 3, true, d); }, 0, 0, thorough ? 3 : 2, 1, 0, thorough ? 4 : 1);
        for (auto& j : v) j.opts.race = true;
#else
        for (int algo = 0; algo < 3; ++algo)
            for (int k = 1; k <= 3; ++k)
                for (int pre = 0; pre <= 3; pre += 3)
                    cont::family(v, std::string(an[algo]) + ".k" + std::to_string(k) + ".pre" + std::to_string(pre), [=](int d) { body(k, algo, pre, true, d); },
                                 thorough || (k == 1 && algo) ? 4 : 3, thorough ? 4 : 3, algo == 2 ? (thorough ? 3 : 2) : (thorough ? 2 : 0), 1, 0, thorough ? 4 : 1);
#endif
    }
};
MC_MAIN(H)
