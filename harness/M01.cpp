// M01: disk space allocation: disjoint blocks, exact accounting, reuse, failures without effect
#include "cont.h"
#include <stxxl/bits/io/mem_file.h>
#include <stxxl/bits/mng/disk_allocator.h>
#include <stxxl/bits/mng/block_alloc.h>
#include <stxxl/bits/mng/typed_block.h>
using namespace mc;
enum { U = 4096 };

#ifndef THREADS
// ---- a disk_allocator alone, against a byte map -------------------------------------------------
struct Region { long off; int units; };
struct DA
{
    stxxl::mem_file* f; stxxl::disk_allocator* a; long cfg; bool grow;
    std::vector<Region> live;
    long total, used, peak;
    void agree(const char* w)
    {
        MC_CHECK(a->get_used_bytes() == used, w << ": used bytes " << a->get_used_bytes() << " instead of " << used);
        MC_CHECK(a->get_free_bytes() + a->get_used_bytes() == a->get_total_bytes(), w << ": free + used != total");
        MC_CHECK(a->get_total_bytes() >= total, w << ": the disk shrank");
        total = a->get_total_bytes();
        MC_CHECK((long)f->size() >= total, w << ": file smaller than the space handed out");
    }
    void added(long off, int units)
    {
        MC_CHECK(off >= 0 && off + long(units) * U <= a->get_total_bytes(), "block at " << off << " outside the disk of " << a->get_total_bytes());
        for (auto& r : live) MC_CHECK(off + long(units) * U <= r.off || r.off + long(r.units) * U <= off, "new block at " << off << " overlaps the one in use at " << r.off);
        live.push_back(Region { off, units });
    }
    template <unsigned S> bool alloc(int n)
    {
        stxxl::BIDArray<S> b(n);
        for (int i = 0; i < n; ++i) { b[i].storage = f; b[i].offset = -1; }
        long need = long(n) * S, fr = a->get_free_bytes();
        try { a->new_blocks(b); }
        catch (stxxl::bad_ext_alloc&)
        {
            MC_CHECK(!grow && fr < need, "allocation of " << need << " bytes refused with " << fr << " bytes free");
            agree("refused allocation"); MC_NOTE("  refused"); return false;
        }
        MC_CHECK(grow || fr >= need, "allocation beyond a disk that may not grow");
        used += need;
        for (int i = 0; i < n; ++i) { added(b[i].offset, S / U); MC_NOTE("  at " << b[i].offset / U); }
        agree("allocation");
        return true;
    }
    void rel(long off, int units)
    {
        switch (units) {
        case 1: a->delete_block(stxxl::BID<U>(f, off)); break;
        case 2: a->delete_block(stxxl::BID<2 * U>(f, off)); break;
        case 3: a->delete_block(stxxl::BID<3 * U>(f, off)); break;
        }
    }
    void free_one(size_t i)
    {
        Region r = live[i]; live.erase(live.begin() + i);
        rel(r.off, r.units); used -= long(r.units) * U;
        agree("release");
    }
    // the region is not entirely in use: must be refused without any effect
    void bad_free(long off, int units)
    {
        bool thrown = false;
        try { rel(off, units); } catch (stxxl::bad_ext_alloc&) { thrown = true; }
        MC_CHECK(thrown, "release of a region at " << off / U << "+" << units << " touching free space accepted");
        agree("refused release");
    }
    bool is_used(long off) { for (auto& r : live) if (off >= r.off && off < r.off + long(r.units) * U) return true; return false; }
};
static void alone(int cfgu, bool grow, int depth, int first)
{
    stxxl::mem_file* f = new stxxl::mem_file(0);
    stxxl::disk_config cfg("x", long(cfgu) * U, "memory"); cfg.autogrow = grow;
    {
        stxxl::disk_allocator al(f, cfg);
        DA d = { f, &al, long(cfgu) * U, grow, {}, long(cfgu) * U, 0, 0 };
        MC_CHECK(al.get_total_bytes() == long(cfgu) * U, "initial size");
        d.agree("start");
        for (int i = 0; i < depth; ++i)
        {
            int op = (i == 0 && first >= 0) ? first : choose(9);
            transition();
            switch (op)
            {
            case 0: MC_NOTE("alloc 1"); d.alloc<U>(1); break;
            case 1: MC_NOTE("alloc 1x2"); d.alloc<2 * U>(1); break;
            case 2: MC_NOTE("alloc 2"); d.alloc<U>(2); break;
            case 3: MC_NOTE("alloc 3"); d.alloc<U>(3); break;
            case 4: MC_NOTE("alloc 2x2"); d.alloc<2 * U>(2); break;
            case 5: MC_NOTE("alloc 1x3"); d.alloc<3 * U>(1); break;
            case 6:
                if (!d.live.empty()) { int k = choose((int)d.live.size()); MC_NOTE("free at " << d.live[k].off / U); d.free_one(k); }
                break;
            case 7:     // a request larger than everything
                if (!grow) { MC_NOTE("alloc too much"); d.alloc<U>(int(d.total / U) + 1); }
                break;
            case 8:
                if (d.total && d.used < d.total)
                {   // every region that touches free space is refused
                    for (long o = 0; o < d.total; o += U) for (int u = 1; u <= 3; ++u)
                    {
                        bool touches = false;
                        for (int k = 0; k < u && o + long(k) * U < d.total; ++k) touches |= !d.is_used(o + long(k) * U);
                        if (touches && o + long(u) * U <= d.total) d.bad_free(o, u);
                    }
                    nontrivial();
                }
                break;
            }
            uint64_t h = mix(d.total, cfgu);
            std::vector<std::pair<long, int> > s; for (auto& r : d.live) s.push_back({ r.off, r.units });
            std::sort(s.begin(), s.end());
            for (auto& p : s) h = mix(mix(h, p.first), p.second);
            state(h);
        }
        outcome(mix(d.used, d.total));
        // release the rest in an order chosen by the history, then one run over everything
        bool back = d.live.size() % 2; while (!d.live.empty()) d.free_one(back ? d.live.size() - 1 : 0);
        MC_CHECK(al.get_free_bytes() == al.get_total_bytes(), "space missing after releasing everything");
        int n = (int)(d.total / U);
        if (n)
        {
            stxxl::BIDArray<U> b(n);
            al.new_blocks(b);
            MC_CHECK(al.get_total_bytes() == d.total, "the disk grew although everything was free");
            for (int i = 0; i < n; ++i) MC_CHECK(b[i].offset == (long)i * U, "freed space is not one contiguous run: block " << i << " at " << b[i].offset / U);
            for (int i = n; i-- > 0; ) al.delete_block(b[i]);
        }
    }
    MC_CHECK((long)f->size() == long(cfgu) * U, "file not reduced to its configured size");
    delete f;
}

// ---- the block manager on three small disks ------------------------------------------------------
struct Always { std::vector<int> d; stxxl::unsigned_type operator () (stxxl::unsigned_type i) const { return d[i % d.size()]; } };
static void manager(int depth)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    stxxl::uint64 cur0 = bm->get_current_allocation(), tot0 = bm->get_total_allocation(), max0 = bm->get_maximum_allocation(), free0 = bm->get_free_bytes(), all = bm->get_total_bytes();
    long cur = 0, tot = 0; stxxl::uint64 mx = max0;
    long fr[2] = { 0, 0 };   // bytes taken per disk
    struct L { stxxl::BID<U> b1; stxxl::BID<2 * U> b2; int units; int disk; };
    std::vector<L> live;
    auto agree = [&](const char* w) {
        MC_CHECK(bm->get_current_allocation() == cur0 + cur, w << ": current allocation " << (long)(bm->get_current_allocation() - cur0) << " instead of " << cur);
        MC_CHECK(bm->get_total_allocation() == tot0 + tot, w << ": total allocation");
        MC_CHECK(bm->get_maximum_allocation() == mx, w << ": maximum allocation");
        MC_CHECK(bm->get_free_bytes() == free0 - cur, w << ": free bytes: " << (long)(free0 - bm->get_free_bytes()) << " missing instead of " << cur);
        MC_CHECK(bm->get_total_bytes() == all, w << ": total bytes changed");
    };
    std::vector<std::vector<int> > strat = { { 0 }, { 1 }, { 0, 1 }, { 1, 0, 0 } };
    auto add = [&](L l) {
        auto off = [](const L& x) { return x.units == 1 ? x.b1.offset : x.b2.offset; };
        for (auto& o : live) if (o.disk == l.disk) MC_CHECK(off(o) + o.units * U <= off(l) || off(l) + l.units * U <= off(o), "blocks overlap");
        MC_CHECK(off(l) + l.units * U <= 7 * U, "block outside its disk");
        live.push_back(l); fr[l.disk] += l.units * U; cur += l.units * U; tot += l.units * U;
    };
    for (int i = 0; i < depth; ++i)
    {
        int op = choose(8);
        transition();
        if (op < 6)
        {
            int n = 1 + op % 3; bool big = op >= 3;
            Always s; int si = choose(4); s.d = strat[si];
            stxxl::unsigned_type offs = choose(2);
            long need[2] = { 0, 0 }; for (int k = 0; k < n; ++k) need[s(offs + k)] += big ? 2 * U : U;
            if (big)
            {   // a fragmented disk would be enlarged for good: such histories are explored on the allocator alone
                bool frag = false;
                for (int d = 0; d < 2; ++d)
                {
                    long holes = 0, run = 0, best = 0;
                    for (int u = 0; u < 6; ++u)
                    {
                        bool us = false; for (auto& l : live) if (l.disk == d) { long o = (l.units == 1 ? l.b1.offset : l.b2.offset) / U; us |= u >= o && u < o + l.units; }
                        run = us ? 0 : run + 1; holes += !us; best = std::max(best, run);
                    }
                    frag |= best != holes;
                }
                if (frag) continue;
            }
            MC_NOTE("alloc " << n << (big ? " big" : "") << " strategy " << si << " offset " << offs);
            bool fits = fr[0] + need[0] <= 6 * U && fr[1] + need[1] <= 6 * U;
            std::vector<stxxl::BID<U> > v1; std::vector<stxxl::BID<2 * U> > v2(big ? n : 0);
            bool ok = true;
            // three ways to ask for blocks
            try {
                if (big) bm->new_blocks(s, v2.begin(), v2.end(), offs);
                else if (n == 1) { v1.resize(1); bm->new_block(s, v1[0], offs); }
                else { bm->new_blocks<stxxl::typed_block<U, int> >(n, s, std::back_inserter(v1), offs); MC_CHECK((int)v1.size() == n, "number of blocks"); }
            }
            catch (stxxl::bad_ext_alloc&) { ok = false; }
            if (!ok) { MC_CHECK(!fits, "allocation refused although every disk had room"); MC_NOTE("  refused"); nontrivial(); agree("refused allocation"); continue; }
            if (!fits) MC_CHECK(false, "allocation beyond the disk");
            for (int k = 0; k < n; ++k)
            {
                L l; l.units = big ? 2 : 1; if (big) l.b2 = v2[k]; else l.b1 = v1[k];
                l.disk = big ? v2[k].storage->get_allocator_id() : v1[k].storage->get_allocator_id();
                MC_CHECK(l.disk == (int)s(offs + k), "block " << k << " on disk " << l.disk);
                add(l);
            }
            mx = std::max<stxxl::uint64>(mx, cur0 + cur);
            agree("allocation");
        }
        else if (op == 6 && !live.empty())
        {
            int k = choose((int)std::min<size_t>(live.size(), 4)); L l = live[k]; live.erase(live.begin() + k);
            MC_NOTE("free disk " << l.disk);
            if (l.units == 1) bm->delete_block(l.b1); else bm->delete_block(l.b2);
            cur -= l.units * U; fr[l.disk] -= l.units * U;
            agree("release");
            if (choose(2)) { bool t = false; try { if (l.units == 1) bm->delete_block(l.b1); else bm->delete_block(l.b2); } catch (stxxl::bad_ext_alloc&) { t = true; } MC_CHECK(t, "double release accepted"); agree("double release"); }
        }
        else if (op == 7) { stxxl::BID<U> none; bm->delete_block(none); agree("release of an unset block"); }
        uint64_t h = 5; for (auto& l : live) h = mix(mix(h, l.disk * 64 + l.units), l.units == 1 ? l.b1.offset : l.b2.offset);
        state(h);
    }
    for (auto& l : live) { if (l.units == 1) { bm->delete_blocks(&l.b1, &l.b1 + 1); } else bm->delete_block(l.b2); cur -= l.units * U; }
    agree("end");
    // the whole capacity again, as one run per disk
    for (int d = 0; d < 2; ++d)
    {
        std::vector<stxxl::BID<U> > v(6); Always s; s.d = { d };
        bm->new_blocks(s, v.begin(), v.end());
        for (int k = 1; k < 6; ++k) MC_CHECK(v[k].offset == v[k - 1].offset + U, "capacity not contiguous again");
        bm->delete_blocks(v.begin(), v.end());
    }
    // (the maximum is a property of the process; executions of one process share it)
    outcome(tot);
}
struct H : Harness
{
    const char* id() { return "M01"; }
    void init() { small(); }
    static void small()
    {
        cont::quiet_log();
        int o1 = dup(1), o2 = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
        stxxl::config* cfg = stxxl::config::get_instance();
        for (int i = 0; i < 2; ++i) { stxxl::disk_config d("mc" + std::to_string(i), 6 * U, "memory"); d.autogrow = false; cfg->add_disk(d); }
        stxxl::block_manager* bm = stxxl::block_manager::get_instance(); stxxl::stats::get_instance();
        // raise the process-wide maximum to its ceiling, so that it is the same in every execution
        (void)bm;
        fflush(stdout); std::cout.flush(); std::cerr.flush(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
        dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(n);
    }
    std::string rule() { return "all histories of allocating 1-3 blocks of 1, 2 or 3 units and releasing any live block, to the depth, on disks of 0-7 units, growable or not, and through the block manager with 2 disks and 4 disk assignments; in every reachable state, every release that touches free space must be refused; then everything is released and taken again as one run; non-trivial: refused operations occurred"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.race = false;
        for (bool g : { false, true }) for (int c : { 0, 3, 4, 5, 7 }) for (int f = 0; f < 6; ++f)
            out.push_back(Job { "alone.c" + std::to_string(c) + (g ? "g" : "f") + ".op" + std::to_string(f), [=] { alone(c, g, th ? 7 : 5, f); }, o });
        for (int d = 2; d <= (th ? 5 : 3); ++d) out.push_back(Job { "manager.d" + std::to_string(d), [=] { manager(d); }, o });
    }
};
#else
// ---- threads: blocks handed to different threads are never mixed up --------------------------------
static void threads(std::vector<std::vector<int> > prog, bool extra)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    race_ignore(true);
    stxxl::uint64 cur0 = bm->get_current_allocation(), free0 = bm->get_free_bytes(), tot0 = bm->get_total_allocation();
    race_ignore(false);
    std::vector<stxxl::BID<U> > hold(3);
    if (extra)
    {   // only the outer blocks of disk 0 are free
        bm->new_blocks(stxxl::single_disk(0), hold.begin(), hold.end());
        bm->delete_block(hold[0]); bm->delete_block(hold[2]);
        race_ignore(true); cur0 += U; tot0 += 3 * U; free0 -= U; race_ignore(false);
    }
    Thr t[3];
    static char bufs[3][3 * U];
    std::vector<std::vector<stxxl::BID<U> > > keep(3);
    std::vector<int> refused(3, 0); long taken = 0;
    for (size_t i = 0; i < prog.size(); ++i)
        t[i].start([&, i] {
            char* b = bufs[i];
            for (size_t k = 0; k < prog[i].size(); ++k)
            {
                int n = prog[i][k];
                if (n > 0)
                {
                    std::vector<stxxl::BID<U> > v(n);
                    try { if (n > 10) { v.resize(n - 10); n -= 10; bm->new_blocks(stxxl::single_disk(0), v.begin(), v.end()); }
                        else if (n == 1) bm->new_block(stxxl::single_disk(0), v[0]); else bm->new_blocks(stxxl::striping(0, 2), v.begin(), v.end()); }
                    catch (stxxl::bad_ext_alloc&) { race_ignore(true); refused[i]++; race_ignore(false); continue; }
                    for (int j = 0; j < n; ++j)
                    {
                        memset(b, 'a' + i * 8 + k, U);
                        v[j].storage->serve(b, v[j].offset, U, stxxl::request::WRITE);
                        keep[i].push_back(v[j]);
                    }
                    race_ignore(true); taken += n; race_ignore(false);
                    for (int j = 0; j < n; ++j)
                    {
                        memset(b, 0, U);
                        v[j].storage->serve(b, v[j].offset, U, stxxl::request::READ);
                        for (int q = 0; q < U; q += 64) MC_CHECK(b[q] == char('a' + i * 8 + k), "a block allocated by one thread was overwritten by another");
                    }
                }
                else if (n == 0)
                {
                    MC_CHECK(bm->get_free_bytes() <= 6 * U && bm->get_total_bytes() == 6 * U, "counters");
                    MC_CHECK(bm->get_current_allocation() <= bm->get_maximum_allocation(), "counters");
                }
                else if (!keep[i].empty()) { stxxl::BID<U> x = keep[i].back(); keep[i].pop_back(); bm->delete_block(x); }
                transition();
            }
        });
    for (size_t i = 0; i < prog.size(); ++i) t[i].join();
    long held = 0; for (auto& k : keep) held += k.size();
    std::vector<std::pair<stxxl::file*, long> > all;
    for (auto& k : keep) for (auto& x : k) all.push_back({ x.storage, x.offset });
    std::sort(all.begin(), all.end());
    MC_CHECK(std::unique(all.begin(), all.end()) == all.end(), "two threads hold the same block");
    MC_CHECK(bm->get_current_allocation() == cur0 + held * U, "current allocation " << (long)(bm->get_current_allocation() - cur0) / U << " blocks instead of " << held);
    MC_CHECK(bm->get_total_allocation() == tot0 + taken * U, "total allocation");
    MC_CHECK(bm->get_free_bytes() == free0 - held * U, "free bytes: " << (long)(free0 - bm->get_free_bytes()) / U << " blocks missing instead of " << held);
    uint64_t h = 3; for (auto& k : keep) for (auto& x : k) h = mix(h, x.offset * 4 + x.storage->get_allocator_id());
    for (int r : refused) { h = mix(h, r); if (r) nontrivial(); }
    state(h); outcome(h);
    for (auto& k : keep) for (auto& x : k) bm->delete_block(x);
    MC_CHECK(bm->get_free_bytes() == free0 && bm->get_current_allocation() == cur0, "space missing at the end");
    if (extra) bm->delete_block(hold[1]);
}
struct H : Harness
{
    const char* id() { return "M01"; }
    void init()
    {
        cont::quiet_log();
        int o1 = dup(1), o2 = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
        stxxl::config* cfg = stxxl::config::get_instance();
        for (int i = 0; i < 2; ++i) { stxxl::disk_config d("mc" + std::to_string(i), 3 * U, "memory"); d.autogrow = false; cfg->add_disk(d); }
        stxxl::block_manager::get_instance(); stxxl::stats::get_instance();
        fflush(stdout); std::cout.flush(); std::cerr.flush(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
        dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(n);
    }
    std::string rule() { return "threads: every interleaving up to the preemption bound of 2-3 threads allocating, filling, checking and releasing blocks on two small disks, with race detection; non-trivial: an allocation was refused"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef std::vector<std::vector<int> > P;
        std::vector<P> ps = { { { 1, -1, 1 }, { 1, -1, 1 } }, { { 2, -1 }, { 2, -1, 1 } }, { { 1, 1, -1 }, { 1, 2 } }, { { 3, -1 }, { 3, -1 } }, { { 1, -1 }, { 1 }, { 1, -1 } }, { { 1, 1 }, { 4 }, { 1 } }, { { 4 }, { 3, -1, -1 } }, { { 1, -1, 2 }, { 0, 0 } } };
        Opts o; o.sched = true; o.bound = th ? 3 : 2; o.shards = 4;
        for (size_t i = 0; i < ps.size(); ++i) { Job j { "threads." + std::to_string(i), [=] { threads(ps[i], false); }, o }; if (ps[i].size() > 2 && !th) j.opts.bound = 2; out.push_back(j); }
        std::vector<P> fs = { { { 12 }, { 1, -1 } }, { { 12, -1 }, { 12 } }, { { 12 }, { 1 }, { 1, -1 } }, { { 12, -1, 1 }, { 11, 11, -1 } } };
        for (size_t i = 0; i < fs.size(); ++i) out.push_back(Job { "fragmented." + std::to_string(i), [=] { threads(fs[i], true); }, o });
    }
};
#endif
MC_MAIN(H)
