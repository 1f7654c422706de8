// C04: external stacks are LIFO for every operation history crossing page borders, for every kind, pool size and timing
#include "cont.h"
#include <stxxl/stack>
#include <stack>
#include <memory>
using namespace mc;
using cont::El; using cont::check_el;
typedef El<1024> E1;

struct IS
{
    virtual ~IS() { }
    virtual void push(int v) = 0; virtual void pop() = 0; virtual size_t size() = 0; virtual bool empty() = 0;
    virtual void top(int want) = 0; virtual void settop(int v) = 0; virtual void swap(IS& o) = 0;
    virtual void misc(int) { }
    std::vector<int> r;
};
template <class S, class T>
struct Base : IS
{
    std::unique_ptr<S> s;
    void push(int v) { s->push(T(v)); }
    void pop() { s->pop(); }
    size_t size() { return (size_t)s->size(); }
    bool empty() { return s->empty(); }
    void top(int want) { check_el(s->top(), want, "top"); const S& c = *s; check_el(c.top(), want, "const top"); }
    void settop(int v) { s->top() = T(v); }
    void swap(IS& o) { s->swap(*static_cast<Base<S, T>&>(o).s); }
};
template <class S, class T> struct Plain : Base<S, T> { Plain() { this->s.reset(new S()); } };
template <class S, class T> struct FromStd : Base<S, T>
{
    FromStd(size_t n) { std::stack<T> q; for (size_t i = 0; i < n; ++i) { q.push(T((int)i)); this->r.push_back((int)i); } this->s.reset(new S(q)); }
};
template <class S, class T> struct Pooled : Base<S, T>
{
    template <class P> Pooled(P& p, unsigned a) { this->s.reset(new S(p, a)); }
    void misc(int a) { this->s->set_prefetch_aggr(a); MC_CHECK(this->s->get_prefetch_aggr() == (unsigned)a, "get_prefetch_aggr"); }
};
template <class S, class T> struct Mig : Base<S, T>
{
    size_t crit; bool ext; Mig(size_t c) : crit(c), ext(false) { this->s.reset(new S()); }
    void misc(int) { MC_CHECK(this->s->internal() != this->s->external(), "internal and external"); }
    void push(int v) { Base<S, T>::push(v); }
};

static void checks(IS& a, const char* w)
{
    MC_CHECK(a.size() == a.r.size(), w << ": size " << a.size() << " instead of " << a.r.size());
    MC_CHECK(a.empty() == a.r.empty(), w << ": empty() wrong");
    if (!a.r.empty()) a.top(a.r.back());
}
static void push(IS& a, size_t k, int& ctr) { for (size_t i = 0; i < k; ++i) { a.push(ctr); a.r.push_back(ctr++); transition(); checks(a, "push"); } }
static void pop(IS& a, size_t k) { for (size_t i = 0; i < k && !a.r.empty(); ++i) { a.pop(); a.r.pop_back(); transition(); checks(a, "pop"); } }

// a history over one stack (sel of two) with bulk operations relative to the page size pg (elements)
static void hist(IS* x, IS* y, int depth, size_t pg, size_t start, bool two)
{
    int ctr = 100 + (int)x->r.size();
    push(*x, start, ctr);
    IS* st[2] = { x, y };
    for (int i = 0; i < depth; ++i)
    {
        int op = choose(two ? 11 : 9), w = 0;
        if (two && op >= 9) { w = 1; }
        switch (op)
        {
        case 0: MC_NOTE("push"); push(*st[0], 1, ctr); break;
        case 1: MC_NOTE("pop"); pop(*st[0], 1); break;
        case 2: MC_NOTE("push page"); push(*st[0], pg, ctr); break;
        case 3: MC_NOTE("pop page"); pop(*st[0], pg); break;
        case 4: MC_NOTE("push page-1"); push(*st[0], pg - 1, ctr); break;
        case 5: MC_NOTE("pop 2 pages+1"); pop(*st[0], 2 * pg + 1); break;
        case 6: MC_NOTE("modify top"); if (!st[0]->r.empty()) { st[0]->settop(ctr); st[0]->r.back() = ctr++; } break;
        case 7: MC_NOTE("swap"); st[0]->swap(*st[1]); std::swap(st[0]->r, st[1]->r); break;
        case 8: { int a = (int)(st[0]->r.size() % 3); MC_NOTE("misc " << a); st[0]->misc(a); break; }
        case 9: MC_NOTE("other: push page+1"); push(*st[1], pg + 1, ctr); break;
        case 10: MC_NOTE("other: pop page"); pop(*st[1], pg); break;
        }
        (void)w;
        checks(*st[0], "after"); checks(*st[1], "other");
        state(mix(mix(st[0]->r.size(), st[1]->r.size()), pg * 16 + op));
        if (st[0]->r.size() > 2 * pg) nontrivial();
    }
    // drain or leave
    if (!deviate(2)) { pop(*st[0], 1000); pop(*st[1], 1000); }
    outcome(mix(ctr, hash_seq(st[0]->r)));
}
template <unsigned P, class T> struct Cfg : stxxl::stack_config_generator<T, P, 4096, STXXL_DEFAULT_ALLOC_STRATEGY> { };

struct H : Harness
{
    const char* id() { return "C04"; }
    void init() { cont::setup(2); }
    std::string rule() { return "all operation histories (push/pop of 1, page-1, page, 2 pages+1, modify top, swap, prefetch level changes, a second stack on the same pool) to the depth, starting from several fill levels; top/size/empty checked after every single push and pop; lazy and eager I/O plus all single-preemption schedules of short ones; non-trivial: the stack went external"; }
    template <class F> void add(std::vector<Job>& out, const std::string& nm, size_t pg, int dl, int ds, bool two, F mk)
    {
        size_t starts[] = { 0, pg - 1, 2 * pg, 3 * pg + 1 };
        for (size_t s : starts)
            cont::family(out, nm + ".s" + std::to_string(s), [=](int d) {
                             cont::Scope sc;
                             { mk([=](IS* a, IS* b) { hist(a, b, d, pg, s, two); }); }
                             sc.finish();
                         }, dl, dl, ds, 1, 1);
    }
    typedef std::function<void(IS*, IS*)> Body;
    void jobs(bool th, std::vector<Job>& out)
    {
        using namespace stxxl;
        int dl = th ? 5 : 4, ds = th ? 3 : 2;
        typedef typename STACK_GENERATOR<E1, external, normal, 1, 4096>::result N1;
        typedef typename STACK_GENERATOR<E1, external, normal, 2, 4096>::result N2;
        typedef typename STACK_GENERATOR<El<1360>, external, normal, 3, 4096>::result N3;
        typedef typename STACK_GENERATOR<E1, external, grow_shrink, 1, 4096>::result G1;
        typedef typename STACK_GENERATOR<E1, external, grow_shrink, 2, 4096>::result G2;
        typedef typename STACK_GENERATOR<El<2048>, external, grow_shrink, 3, 4096>::result G3;
        typedef typename STACK_GENERATOR<E1, external, grow_shrink2, 1, 4096>::result Q1;
        typedef typename STACK_GENERATOR<E1, migrating, normal, 2, 4096, std::stack<E1>, 10>::result M1;
        typedef typename STACK_GENERATOR<E1, migrating, grow_shrink, 1, 4096, std::stack<E1>, 8>::result M2;
        add(out, "normal1", 4, dl, ds, false, [](Body b) { Plain<N1, E1> x, y; b(&x, &y); });
        add(out, "normal2", 8, dl, ds, false, [](Body b) { Plain<N2, E1> x, y; b(&x, &y); });
        add(out, "normal3", 9, dl - 1, 0, false, [](Body b) { Plain<N3, El<1360> > x, y; b(&x, &y); });
        add(out, "gs1", 4, dl, ds, false, [](Body b) { Plain<G1, E1> x, y; b(&x, &y); });
        add(out, "gs2", 8, dl, ds, false, [](Body b) { Plain<G2, E1> x, y; b(&x, &y); });
        add(out, "gs3", 6, dl - 1, 0, false, [](Body b) { Plain<G3, El<2048> > x, y; b(&x, &y); });
        add(out, "mig1", 8, dl, ds, false, [](Body b) { Mig<M1, E1> x(10), y(10); b(&x, &y); });
        add(out, "mig2", 4, dl, ds, false, [](Body b) { Mig<M2, E1> x(8), y(8); b(&x, &y); });
        for (size_t n = 0; n <= (th ? 26u : 20u); n += th ? 1 : 4)
        {
            cont::family(out, "copyN." + std::to_string(n), [=](int d) { cont::Scope sc; { FromStd<N2, E1> x(n); Plain<N2, E1> y; checks(x, "copy"); hist(&x, &y, d, 8, 0, false); } sc.finish(); }, 2, 2, 0, 1, 1);
            cont::family(out, "copyG." + std::to_string(n), [=](int d) { cont::Scope sc; { FromStd<G2, E1> x(n); Plain<G2, E1> y; checks(x, "copy"); hist(&x, &y, d, 8, 0, false); } sc.finish(); }, 2, 2, 0, 1, 1);
        }
        typedef typename Q1::block_type BT;
        struct PS { unsigned p, w, a; };
        PS ps[] = { { 0, 1, 0 }, { 1, 1, 1 }, { 2, 2, 1 }, { 2, 3, 2 }, { 4, 2, 3 }, { 1, 2, 4 } };
        int n = 0;
        for (PS q : ps)
        {
            std::string nm = "gs2x.p" + std::to_string(q.p) + "w" + std::to_string(q.w) + "a" + std::to_string(q.a);
            bool small = n++ >= 3 && !th;
            add(out, nm, 4, small ? dl - 1 : dl, small ? 0 : ds, true, [=](Body b) {
                    read_write_pool<BT> pool(q.p, q.w);
                    { Pooled<Q1, E1> x(pool, q.a), y(pool, q.a); b(&x, &y); }
                    // a second generation on the same pool, after the first one went away with writes and hints pending
                    { Pooled<Q1, E1> x(pool, q.a); int c = 5000; push(x, 11, c); pop(x, 11); }
                });
        }
    }
};
MC_MAIN(H)
