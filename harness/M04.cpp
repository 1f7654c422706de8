// M04: write, prefetch and read/write pools: coherence of contents, ownership of buffers
#include "cont.h"
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/mng/typed_block.h>
using namespace mc;
typedef stxxl::typed_block<4096, int> Base;
struct Blk : Base { static int alive; Blk() { ++alive; } ~Blk() { --alive; } };
int Blk::alive = 0;
typedef Blk::bid_type Bid;
static std::vector<Bid>& addr() { static std::vector<Bid> v; return v; }
static void fill(Blk* b, int v) { for (int i : { 0, 1, 511, 1023 }) (*b)[i] = v * 7 + i; }
static bool has(Blk* b, int v) { for (int i : { 0, 1, 511, 1023 }) if ((*b)[i] != v * 7 + i) return false; return true; }
static Blk* raw() { static char r[3 * 4096]; return (Blk*)(((uintptr_t)r + 4095) / 4096 * 4096); }
static void prepare(std::vector<int>& val, int& ctr)
{
    for (size_t a = 0; a < addr().size(); ++a) { fill(raw(), ctr); addr()[a].storage->serve(raw(), addr()[a].offset, 4096, stxxl::request::WRITE); val.push_back(ctr++); }
}
static void device(const std::vector<int>& val)
{
    for (size_t a = 0; a < addr().size(); ++a)
    { addr()[a].storage->serve(raw(), addr()[a].offset, 4096, stxxl::request::READ); MC_CHECK(has(raw(), val[a]), "address " << a << ": the device holds " << ((*raw())[0]) / 7 << " instead of the last value written, " << val[a]); }
}
typedef stxxl::read_write_pool<Blk> Pool;
static void pools(int np, int nw, int naddr, int depth, bool two)
{
    std::vector<int> val; int ctr = 1; prepare(val, ctr);
    int alive0 = Blk::alive;
    {
        Pool a(np, nw), b(two ? 1 : 0, two ? 1 : 0);
        Pool* p = &a; Pool* q = &b;
        int ew = nw, ep = np, ew2 = two ? 1 : 0, ep2 = ew2;     // buffers each pool must own
        struct Held { Blk* b; int v; };
        std::vector<Held> held;                          // taken out by us, filled with v, not in any transfer
        struct Pend { Blk* b; stxxl::request_ptr r; int want; int a; };
        std::vector<Pend> pend;                          // read without waiting
        std::set<int> busy_addr;                         // addresses with a read of ours still to be waited for
        auto hold = [&](Blk* x) {
            for (auto& h : held) MC_CHECK(h.b != x, "a buffer was handed out twice");
            for (auto& h : pend) MC_CHECK(h.b != x, "a buffer was handed out twice");
            fill(x, ctr); held.push_back(Held { x, ctr++ });
        };
        auto sizes = [&](const char* w) {
            MC_CHECK((int)p->size_write() == ew, w << ": write pool of " << p->size_write() << " instead of " << ew);
            MC_CHECK((int)p->size_prefetch() == ep, w << ": prefetch pool of " << p->size_prefetch() << " instead of " << ep);
            MC_CHECK(p->free_size_prefetch() + p->busy_size_prefetch() == p->size_prefetch(), w << ": prefetch counts");
            MC_CHECK(Blk::alive - alive0 == ew + ep + ew2 + ep2 + (int)held.size() + (int)pend.size(), w << ": " << Blk::alive - alive0 << " buffers exist instead of " << ew + ep + ew2 + ep2 + held.size() + pend.size());
            for (auto& h : held) MC_CHECK(has(h.b, h.v), w << ": a buffer owned by the user was changed");
        };
        auto finish = [&](size_t i) {
            Pend e = pend[i]; pend.erase(pend.begin() + i);
            e.r->wait();
            MC_CHECK(has(e.b, e.want), "address " << e.a << " read as " << (*e.b)[0] / 7 << " instead of " << e.want);
            hold(e.b); busy_addr.erase(e.a);
        };
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(two ? 13 : 12), x = op <= 5 ? choose(naddr) : 0;
            transition();
            switch (op)
            {
            case 0: case 1:       // write through the pool: our own buffer if we hold one, else one of the pool's
            {
                for (size_t k = pend.size(); k-- > 0; ) if (pend[k].a == x) finish(k);
                Blk* w;
                if (op == 1) { if (!ew) break; w = p->steal(); ew--; }
                else if (!held.empty()) { w = held.back().b; held.pop_back(); }
                else w = new Blk;
                MC_NOTE("write " << x << (op ? " in a pool buffer" : " in an own buffer") << " value " << ctr);
                fill(w, ctr); val[x] = ctr++;
                p->write(w, addr()[x]); ew++;
                MC_CHECK(w == nullptr, "write leaves the caller its pointer");
                break;
            }
            case 2: { MC_NOTE("hint " << x); bool h = p->hint(addr()[x]); MC_CHECK(h == p->in_prefetching(addr()[x]), "hint"); if (ep) nontrivial(); break; }
            case 3: { MC_NOTE("invalidate " << x); bool in = p->in_prefetching(addr()[x]), r = p->invalidate(addr()[x]); MC_CHECK(in == r && !p->in_prefetching(addr()[x]), "invalidate"); break; }
            case 4: case 5:   // read; 5: the request is waited for later
            {
                for (size_t k = pend.size(); k-- > 0; ) if (pend[k].a == x) finish(k);
                Blk* w;
                if (!held.empty()) { w = held.back().b; held.pop_back(); } else if (ew) { w = p->steal(); ew--; } else w = new Blk;
                bool cached = p->in_prefetching(addr()[x]);
                MC_NOTE("read " << x << (cached ? " (hinted)" : "") << (op == 5 ? " later" : ""));
                fill(w, ctr++);
                stxxl::request_ptr r = p->read(w, addr()[x]);
                MC_CHECK(!p->in_prefetching(addr()[x]), "still hinted after the read");
                for (auto& h : held) MC_CHECK(h.b != w, "a buffer was handed out twice");
                pend.push_back(Pend { w, r, val[x], x }); busy_addr.insert(x);
                if (op == 4) finish(pend.size() - 1);
                break;
            }
            case 6: if (ew) { MC_NOTE("steal"); hold(p->steal()); ew--; } break;
            case 7: if (!held.empty()) { MC_NOTE("add"); Blk* w = held.back().b; held.pop_back(); p->add(w); MC_CHECK(!w, "add"); ew++; } break;
            case 8: if (p->free_size_prefetch()) { MC_NOTE("steal prefetch"); hold(p->steal_prefetch()); ep--; } else if (!held.empty()) { MC_NOTE("add prefetch"); Blk* w = held.back().b; held.pop_back(); p->add_prefetch(w); MC_CHECK(!w, "add_prefetch"); ep++; } break;
            case 9: { int n = (ew + 1) % 3; MC_NOTE("resize write " << n); p->resize_write(n); ew = n; break; }
            case 10: { int n = (ep + 1) % 3; MC_NOTE("resize prefetch " << n); int busy = (int)p->busy_size_prefetch(); p->resize_prefetch(n); ep = std::max(n, busy); break; }
            case 11:
                for (int k = 0; k < naddr; ++k)
                {
                    stxxl::request_ptr r = p->find_hint(addr()[k]);
                    MC_CHECK(r.valid() == p->in_prefetching(addr()[k]), "find_hint");
                    if (r.valid()) { MC_NOTE("wait for hint " << k); r->wait(); MC_CHECK(p->poll_hint(addr()[k]), "poll_hint after waiting"); }
                    else MC_CHECK(!p->poll_hint(addr()[k]), "poll_hint of an unhinted block");
                }
                break;
            case 12: if (pend.empty()) {     // only the pools' own buffers move; the addresses are written through one pool at a time
                MC_NOTE("swap, drain the other"); for (int k = 0; k < naddr; ++k) p->invalidate(addr()[k]);
                p->resize_write(0); ew = 0;
                std::swap(*p, *q); std::swap(ew, ew2); std::swap(ep, ep2); } break;
            }
            sizes("after the operation");
            uint64_t h = mix(ew * 8 + ep, held.size() * 8 + pend.size()); for (int k = 0; k < naddr; ++k) h = mix(h, p->in_prefetching(addr()[k]));
            state(mix(h, op * 4 + x));
        }
        while (!pend.empty()) finish(0);
        if (choose(2)) for (int k = 0; k < naddr; ++k)
        {   // read everything back through the pool
            Blk* w = new Blk; fill(w, 0);
            p->read(w, addr()[k])->wait();
            MC_CHECK(has(w, val[k]), "address " << k << " finally read as " << (*w)[0] / 7 << " instead of " << val[k]);
            delete w;
        }
        else sizes("end");
        for (auto& h : held) delete h.b;
        outcome(mix(ctr, ew * 64 + ep));
    }
    MC_CHECK(Blk::alive == alive0, Blk::alive - alive0 << " buffers never released");
    device(val);
}
// a write pool alone, with the interfaces the combined pool does not use
static void wpool(int n, int depth)
{
    std::vector<int> val; int ctr = 1; prepare(val, ctr);
    int alive0 = Blk::alive;
    {
        stxxl::write_pool<Blk> p(n), q(1); int e = n, e2 = 1;
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(6), x = op == 5 || op == 3 ? 0 : choose(2); transition();
            switch (op)
            {
            case 0: { Blk* b = e ? p.steal() : new Blk; if (e) e--; MC_NOTE("write " << x); fill(b, ctr); val[x] = ctr++; stxxl::request_ptr r = p.write(b, addr()[x]); e++; MC_CHECK(p.has_request(addr()[x]), "has_request after write"); MC_CHECK(p.get_request(addr()[x]) == r, "get_request"); break; }
            case 1: { MC_NOTE("steal block " << x); bool hr = p.has_request(addr()[x]); Blk* b = p.steal(addr()[x]); MC_CHECK(hr == (b != nullptr), "steal(bid)"); if (b) { MC_CHECK(has(b, val[x]), "steal(bid): stale contents"); fill(b, ctr++); p.add(b); } break; }
            case 2: { MC_NOTE("steal request " << x); std::pair<Blk*, stxxl::request_ptr> r = p.steal_request(addr()[x]); MC_CHECK((r.first != nullptr) == r.second.valid(), "steal_request"); if (r.first) { MC_CHECK(has(r.first, val[x]), "steal_request: stale contents"); r.second->wait(); fill(r.first, ctr++); p.add(r.first); } break; }
            case 3: { MC_NOTE("swap"); if (!p.has_request(addr()[0]) && !p.has_request(addr()[1])) { std::swap(p, q); std::swap(e, e2); } break; }
            case 4: { int m = (e + x + 1) % 4; MC_NOTE("resize " << m); p.resize(m); e = m; break; }
            case 5: if (e) { Blk* b = p.get(); fill(b, ctr++); p.add(b); } break;
            }
            MC_CHECK((int)p.size() == e && (int)q.size() == e2, "pool size " << p.size() << " instead of " << e);
            MC_CHECK(Blk::alive - alive0 == e + e2, "buffers");
            state(mix(e * 8 + e2, op * 16 + p.has_request(addr()[0]) * 2 + p.has_request(addr()[1])));
        }
        outcome(ctr);
    }
    MC_CHECK(Blk::alive == alive0, "buffers never released");
    device(val);
}
// a prefetch pool alone
static void ppool(int n, int depth)
{
    std::vector<int> val; int ctr = 1; prepare(val, ctr);
    int alive0 = Blk::alive;
    {
        stxxl::prefetch_pool<Blk> p(n), q(1); int e = n, e2 = 1;
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(6), x = op >= 4 ? 0 : choose(3); transition();
            switch (op)
            {
            case 0: { bool in = p.in_prefetching(addr()[x]), fr = p.free_size() > 0, h = p.hint(addr()[x]); MC_NOTE("hint " << x << " " << h); MC_CHECK(h == (in || fr), "hint"); break; }
            case 1: { MC_NOTE("read " << x); Blk* b = new Blk; fill(b, 0); p.read(b, addr()[x])->wait(); MC_CHECK(has(b, val[x]), "read"); fill(b, ctr++); delete b; break; }
            case 2: { MC_NOTE("invalidate " << x); MC_CHECK(p.invalidate(addr()[x]) == true || !p.in_prefetching(addr()[x]), "invalidate"); break; }
            case 3: { int m = (e + x) % 4; MC_NOTE("resize " << m); int busy = (int)p.busy_size(); int r = (int)p.resize(m); e = std::max(m, busy); MC_CHECK(r == e, "resize returns " << r << " instead of " << e); break; }
            case 4: MC_NOTE("swap"); std::swap(p, q); std::swap(e, e2); break;
            case 5: if (p.free_size()) { Blk* b = p.steal(); fill(b, ctr++); p.add(b); } break;
            }
            MC_CHECK((int)p.size() == e && (int)q.size() == e2, "pool size " << p.size() << " instead of " << e);
            MC_CHECK(Blk::alive - alive0 == e + e2, "buffers");
            state(mix(e * 8 + e2, op * 16 + p.busy_size()));
        }
        outcome(ctr);
    }
    MC_CHECK(Blk::alive == alive0, "buffers never released");
    device(val);
}
struct H : Harness
{
    const char* id() { return "M04"; }
    void init()
    {
        cont::setup(2);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        addr().resize(3); bm->new_block(stxxl::single_disk(0), addr()[0]); bm->new_block(stxxl::single_disk(0), addr()[1]); bm->new_block(stxxl::single_disk(1), addr()[2]);
    }
    std::string rule() { return "all histories of write (own or pool buffer), hint, invalidate, read (waited for at once or later), steal/add, resize, hint polling and swap to the depth, on pools of 0-2 prefetch and 0-2 write buffers and 1-3 addresses; contents, buffer ownership and counts checked after every step, device contents at the end; lazy/eager I/O and preemption-bounded schedules; non-trivial: blocks were hinted"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        struct C { int p, w, a; } cs[] = { { 1, 1, 1 }, { 1, 2, 2 }, { 2, 1, 2 }, { 0, 1, 2 }, { 2, 0, 2 }, { 2, 2, 3 } };
        for (C c : cs)
        {
            std::string n = "p" + std::to_string(c.p) + "w" + std::to_string(c.w) + "a" + std::to_string(c.a);
            int dl = c.a == 1 ? 5 : c.a == 2 && c.w * c.p == 2 ? 4 : 3; if (th) dl++;
            cont::family(out, "pool." + n, [=](int d) { cont::Scope s; pools(c.p, c.w, c.a, d, false); s.finish(); }, dl, th ? dl : dl - 1, th ? 4 : c.a == 3 ? 2 : 3, 1, 0, 2);
            if (c.a == 2) cont::family(out, "two." + n, [=](int d) { cont::Scope s; pools(c.p, c.w, c.a, d, true); s.finish(); }, dl - 1, dl - 1, 0, 1, 0);
        }
        for (int n = 0; n < 3; ++n)
        {
            cont::family(out, "write.n" + std::to_string(n), [=](int d) { cont::Scope s; wpool(n, d); s.finish(); }, th ? 6 : 5, th ? 6 : 5, th ? 5 : 4, 1, 0);
            cont::family(out, "prefetch.n" + std::to_string(n), [=](int d) { cont::Scope s; ppool(n, d); s.finish(); }, th ? 5 : 4, th ? 5 : 4, th ? 4 : 3, 1, 0);
        }
    }
};
MC_MAIN(H)
