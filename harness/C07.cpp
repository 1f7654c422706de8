// C07: the external sequence equals a double-ended in-memory sequence, its streams deliver it in both directions
#include "cont.h"
#include <stxxl/sequence>
#include <deque>
using namespace mc;
using cont::El; using cont::check_el;

template <class S>
struct T7
{
    typedef typename S::value_type T;
    enum { B = S::block_type::size };
    struct P { S* s; std::deque<int> r; };
    static void check(P& p, const char* w)
    {
        MC_CHECK(p.s->size() == p.r.size(), w << ": size " << p.s->size() << " instead of " << p.r.size());
        MC_CHECK(p.s->empty() == p.r.empty(), w << ": empty()");
        if (p.r.empty()) return;
        check_el(p.s->front(), p.r.front(), "front"); check_el(p.s->back(), p.r.back(), "back");
        const S& c = *p.s; check_el(c.front(), p.r.front(), "const front"); check_el(c.back(), p.r.back(), "const back");
    }
    static void pb(P& p, size_t k, int& c) { for (size_t i = 0; i < k; ++i) { p.s->push_back(T(c)); p.r.push_back(c++); transition(); check(p, "push_back"); } }
    static void pf(P& p, size_t k, int& c) { for (size_t i = 0; i < k; ++i) { p.s->push_front(T(c)); p.r.push_front(c++); transition(); check(p, "push_front"); } }
    static void ob(P& p, size_t k) { for (size_t i = 0; i < k && !p.r.empty(); ++i) { p.s->pop_back(); p.r.pop_back(); transition(); check(p, "pop_back"); } }
    static void of(P& p, size_t k) { for (size_t i = 0; i < k && !p.r.empty(); ++i) { p.s->pop_front(); p.r.pop_front(); transition(); check(p, "pop_front"); } }
    template <class St> static void drain(St& st, std::deque<int> w, size_t stop)
    {
        for (size_t i = 0; i < w.size(); ++i)
        {
            if (i == stop) return;
            MC_CHECK(!st.empty() && st.size() == w.size() - i, "stream: size " << st.size() << " instead of " << w.size() - i);
            check_el(*st, w[i], "stream"); ++st;
        }
        MC_CHECK(st.empty() && st.size() == 0, "stream not empty at the end");
    }
    static void fwd(P& p, size_t stop = size_t(-1)) { typename S::stream st = p.s->get_stream(); drain(st, p.r, stop); }
    static void rev(P& p, size_t stop = size_t(-1)) { typename S::reverse_stream st = p.s->get_reverse_stream(); std::deque<int> w(p.r.rbegin(), p.r.rend()); drain(st, w, stop); }
    static void hist(S* a, S* b, int depth, size_t start, int off)
    {
        P x = { a, {} }, y = { b, {} }; int ctr = 1;
        // shift the element positions within the blocks
        if (off > 0) { pb(x, off, ctr); of(x, off); } else if (off < 0) { pf(x, -off, ctr); ob(x, -off); }
        if (off % 2) pb(x, start, ctr); else pf(x, start, ctr);
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(b ? 14 : 12);
            switch (op)
            {
            case 0: MC_NOTE("push_back"); pb(x, 1, ctr); break;
            case 1: MC_NOTE("push_front"); pf(x, 1, ctr); break;
            case 2: MC_NOTE("pop_back"); ob(x, 1); break;
            case 3: MC_NOTE("pop_front"); of(x, 1); break;
            case 4: MC_NOTE("push_back 2 blocks+1"); pb(x, 2 * B + 1, ctr); break;
            case 5: MC_NOTE("push_front 2 blocks+1"); pf(x, 2 * B + 1, ctr); break;
            case 6: MC_NOTE("pop_back block+1"); ob(x, B + 1); break;
            case 7: MC_NOTE("pop_front block+1"); of(x, B + 1); break;
            case 8: MC_NOTE("stream"); fwd(x); break;
            case 9: MC_NOTE("reverse stream"); rev(x); break;
            case 10: MC_NOTE("half a stream, half a reverse stream"); fwd(x, x.r.size() / 2); rev(x, (x.r.size() + 1) / 2); break;
            case 11: MC_NOTE("modify ends, prefetch level"); if (!x.r.empty()) { x.s->front() = T(ctr); x.r.front() = ctr++; x.s->back() = T(ctr); x.r.back() = ctr++; } x.s->set_prefetch_aggr(int(x.r.size() % 4) - 1); break;
            case 12: MC_NOTE("other push"); pf(y, B + 1, ctr); break;
            case 13: MC_NOTE("swap"); x.s->swap(*y.s); std::swap(x.r, y.r); break;
            }
            check(x, "after"); if (b) check(y, "other");
            state(mix(mix(x.r.size(), y.r.size()), (ctr % B) * 16 + op));
            if (x.r.size() > 2 * B) nontrivial();
        }
        switch (deviate(4)) { case 0: rev(x); of(x, 1000); if (b) ob(y, 1000); break; case 1: fwd(x); ob(x, 1000); break; case 2: break; case 3: fwd(x, 2 * B + 1); break; }
        outcome(mix(ctr, x.r.size()));
    }
};
struct H : Harness
{
    const char* id() { return "C07"; }
    void init() { cont::setup(2); }
    std::string rule() { return "all operation histories (pushes and pops of 1 and several blocks at both ends, full and abandoned streams in both directions, modification of the ends, a second sequence on the same pool, swap) to the depth, from several fill levels and block offsets, for every pool configuration; ends and size checked after every single push and pop; lazy and eager I/O plus all single-preemption schedules of short ones; non-trivial: blocks were kept in external memory"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::sequence<El<1024>, 4096> S4;
        typedef stxxl::sequence<El<2048>, 4096, stxxl::striping> S2;
        int dl = th ? 5 : 4, ds = th ? 2 : 1;
        struct PS { unsigned w, p; int a; };
        PS ps[] = { { 3, 0, 0 }, { 3, 1, -1 }, { 3, 2, 4 }, { 5, 3, -1 }, { 1, 1, 1 } };
        int n = 0;
        for (size_t start : { size_t(0), size_t(9), size_t(18) })
            for (int off : { 0, 1, -2, 3 })
                for (PS s : ps)
                {
                    ++n;
                    std::string nm = "w" + std::to_string(s.w) + "p" + std::to_string(s.p) + "a" + std::to_string(s.a) + ".s" + std::to_string(start) + "o" + std::to_string(off);
                    bool some = th || n % 15 == 1;
                    cont::family(out, nm, [=](int d) { cont::Scope sc; { S4 q(s.w, s.p, s.a); T7<S4>::hist(&q, nullptr, d, start, off); } sc.finish(); },
                                 some ? dl : dl - 1, th || some ? dl - 1 : dl - 2, th || n % 3 == 1 ? ds : 0, 1, 1);
                    cont::family(out, nm + ".shared", [=](int d) {
                                     cont::Scope sc;
                                     {
                                         stxxl::read_write_pool<S4::block_type> pool(s.p, s.w + 4);
                                         { S4 a(pool, s.a), b(pool, s.a); T7<S4>::hist(&a, &b, d, start, off); }
                                         { S4 a(pool, s.a); T7<S4>::P x = { &a, {} }; int c = 5000; T7<S4>::pb(x, 18, c); T7<S4>::fwd(x); T7<S4>::ob(x, 9); T7<S4>::pf(x, 7, c); T7<S4>::rev(x); }
                                     }
                                     sc.finish();
                                 }, th ? dl - 1 : dl - 2, dl - 2, some ? 1 : 0, 1, 1);
                    if (s.p == 1) cont::family(out, nm + ".b2", [=](int d) { cont::Scope sc; { S2 q(stxxl::int_type(s.w)); T7<S2>::hist(&q, nullptr, d, start, off); } sc.finish(); }, dl - 1, dl - 2, n % 3 == 1, 1, 1);
                }
    }
};
MC_MAIN(H)
