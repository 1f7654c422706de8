// C05: the external queue is FIFO for every operation history crossing block borders, for every pool configuration and timing
#include "cont.h"
#include <stxxl/queue>
#include <deque>
#include <memory>
using namespace mc;
using cont::El; using cont::check_el;

template <class Q>
struct T5
{
    typedef typename Q::value_type T;
    enum { B = Q::block_type::size };
    struct P { Q* q; std::deque<int> r; };
    static void check(P& p, const char* w)
    {
        MC_CHECK(p.q->size() == p.r.size(), w << ": size " << p.q->size() << " instead of " << p.r.size());
        MC_CHECK(p.q->empty() == p.r.empty(), w << ": empty()");
        if (p.r.empty()) return;
        check_el(p.q->front(), p.r.front(), "front"); check_el(p.q->back(), p.r.back(), "back");
        const Q& c = *p.q; check_el(c.front(), p.r.front(), "const front"); check_el(c.back(), p.r.back(), "const back");
    }
    static void push(P& p, size_t k, int& ctr) { for (size_t i = 0; i < k; ++i) { p.q->push(T(ctr)); p.r.push_back(ctr++); transition(); check(p, "push"); } }
    static void pop(P& p, size_t k) { for (size_t i = 0; i < k && !p.r.empty(); ++i) { p.q->pop(); p.r.pop_front(); transition(); check(p, "pop"); } }
    static void hist(Q* a, Q* b, int depth, size_t start, size_t off)
    {
        P x = { a, {} }, y = { b, {} }; int ctr = 1;
        push(x, off, ctr); pop(x, off); push(x, start, ctr);
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(b ? 11 : 8);
            switch (op)
            {
            case 0: MC_NOTE("push"); push(x, 1, ctr); break;
            case 1: MC_NOTE("pop"); pop(x, 1); break;
            case 2: MC_NOTE("push block"); push(x, B, ctr); break;
            case 3: MC_NOTE("pop block"); pop(x, B); break;
            case 4: MC_NOTE("push 2 blocks+1"); push(x, 2 * B + 1, ctr); break;
            case 5: MC_NOTE("pop 2 blocks-1"); pop(x, 2 * B - 1); break;
            case 6: MC_NOTE("modify ends"); if (!x.r.empty()) { x.q->front() = T(ctr); x.r.front() = ctr++; x.q->back() = T(ctr); x.r.back() = ctr++; } break;
            case 7: { int n = (int)(x.r.size() % 4) - 1; MC_NOTE("prefetch " << n); x.q->set_prefetch_aggr(n); if (n >= 0) MC_CHECK(x.q->get_prefetch_aggr() == (size_t)n, "prefetch"); break; }
            case 8: MC_NOTE("other push"); push(y, B + 1, ctr); break;
            case 9: MC_NOTE("other pop"); pop(y, B); break;
            case 10: MC_NOTE("swap"); x.q->swap(*y.q); std::swap(x.r, y.r); break;
            }
            check(x, "after"); if (b) check(y, "other");
            state(mix(mix(x.r.size(), y.r.size()), (ctr % B) * 16 + op));
            if (x.r.size() > 2 * B) nontrivial();
        }
        if (!deviate(2)) { pop(x, 1000); if (b) pop(y, 1000); }
        outcome(mix(ctr, x.r.size()));
    }
};

struct H : Harness
{
    const char* id() { return "C05"; }
    void init() { cont::setup(2); }
    std::string rule() { return "all operation histories (push/pop of 1, a block, 2 blocks+-1, modify both ends, prefetch level changes, swap with and use of a second queue on the same pool) to the depth from several fill levels and block offsets, for every pool configuration; front/back/size/empty checked after every single push and pop; lazy and eager I/O plus all single-preemption schedules of short ones; non-trivial: the queue kept blocks in external memory"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::queue<El<1024>, 4096> Q4;
        typedef stxxl::queue<El<2048>, 4096, stxxl::striping> Q2;
        typedef stxxl::queue<El<1360>, 4096, stxxl::RC> Q3;
        int dl = th ? 5 : 4, ds = th ? 3 : 2;
        struct PS { unsigned w, p; int a; };
        PS ps[] = { { 2, 0, 0 }, { 3, 1, -1 }, { 2, 1, 3 }, { 4, 3, -1 }, { 3, 2, 1 }, { 1, 2, -1 } };
        for (size_t start : { size_t(0), size_t(11), size_t(17) })
            for (size_t off : { size_t(0), size_t(3), size_t(5) })
            {
                std::string sfx = ".s" + std::to_string(start) + "o" + std::to_string(off);
                bool some = th || (start + off) % 2 == 1 || start == 0;
                for (PS s : ps)
                {
                    std::string nm = "w" + std::to_string(s.w) + "p" + std::to_string(s.p) + "a" + std::to_string(s.a) + sfx;
                    cont::family(out, nm, [=](int d) { cont::Scope sc; { Q4 q(s.w, s.p, s.a); T5<Q4>::hist(&q, nullptr, d, start, off); } sc.finish(); },
                                 some ? dl : dl - 1, some ? dl : dl - 1, some ? ds : 0, 1, 1);
                    cont::family(out, nm + ".shared", [=](int d) {
                                     cont::Scope sc;
                                     {
                                         stxxl::read_write_pool<Q4::block_type> pool(s.p, s.w + 3);
                                         { Q4 a(pool, s.a), b(pool, s.a); T5<Q4>::hist(&a, &b, d, start, off); }
                                         // a second generation on the same pool, in the blocks the first one left
                                         { Q4 a(pool, s.a); T5<Q4>::P x = { &a, {} }; int c = 5000; T5<Q4>::push(x, 18, c); T5<Q4>::pop(x, 9); T5<Q4>::push(x, 7, c); T5<Q4>::pop(x, 100); }
                                     }
                                     sc.finish();
                                 }, dl - 1, dl - 1, some ? ds - 1 : 0, 1, 1);
                }
                cont::family(out, "dflt2" + sfx, [=](int d) { cont::Scope sc; { Q2 q; T5<Q2>::hist(&q, nullptr, d, start, off); } sc.finish(); }, dl, dl, 1, 1, 1);
                cont::family(out, "dflt3" + sfx, [=](int d) { cont::Scope sc; { Q3 q(stxxl::int_type(1)); T5<Q3>::hist(&q, nullptr, d, start, off); } sc.finish(); }, dl, dl, 1, 1, 1);
            }
    }
};
MC_MAIN(H)
