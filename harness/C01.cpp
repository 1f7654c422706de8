// C01: stxxl::vector == array, for every operation history up to a depth, every paging decision, several I/O timings
#include "cont.h"
#include <stxxl/vector>
using namespace mc;
using cont::El; using cont::check_el;

// a pager whose victim is an explored choice
struct choice_pager
{
    stxxl::unsigned_type n, next;
    choice_pager(stxxl::unsigned_type n_ = 2) : n(n_), next(0) { }
    stxxl::unsigned_type kick() { next = (next + 1 + deviate((int)n)) % n; return next; }
    void hit(stxxl::unsigned_type i) { MC_CHECK(i < n, "pager hit out of range"); }
    stxxl::unsigned_type size() const { return n; }
};

template <class V>
struct VT
{
    typedef typename V::value_type T;
    enum { B = V::block_type::size };
    struct Pair { V v; std::vector<int> r; Pair(size_t n, unsigned np) : v(n, np), r(n, -1) { } };
    int key = 100;

    void all(Pair& p, const char* what)
    {
        const V& c = p.v;
        MC_CHECK(c.size() == p.r.size(), what << ": size " << c.size() << " instead of " << p.r.size());
        MC_CHECK(c.empty() == p.r.empty(), what << ": empty() wrong");
        MC_CHECK(c.capacity() >= c.size(), what << ": capacity below size");
        for (size_t i = 0; i < p.r.size(); ++i) if (p.r[i] >= 0) check_el(c[i], p.r[i], what);
    }
    void iter(Pair& p)
    {
        // iterators in every direction, mutable and const, arithmetic and comparisons
        V& v = p.v; const V& c = v; size_t n = p.r.size();
        typename V::iterator b = v.begin(), e = v.end(), it = e;
        MC_CHECK((size_t)(e - b) == n, "end()-begin() is " << (e - b));
        for (size_t i = n; i-- > 0; ) { --it; if (p.r[i] >= 0) check_el(*it, p.r[i], "backward iteration"); MC_CHECK((size_t)(it - b) == i, "iterator distance"); }
        MC_CHECK(it == b, "backward iteration does not end at begin");
        typename V::const_iterator ci = c.begin();
        for (size_t i = 0; i < n; ++i, ci++) { if (p.r[i] >= 0) check_el(*ci, p.r[i], "forward iteration"); MC_CHECK(ci < c.end(), "const iterator order"); }
        MC_CHECK(ci == c.end(), "forward iteration does not end at end");
        typename V::reverse_iterator ri = v.rbegin();
        for (size_t i = n; i-- > 0; ++ri) if (p.r[i] >= 0) check_el(*ri, p.r[i], "reverse iteration");
        MC_CHECK(ri == v.rend(), "reverse iteration end");
        for (size_t i = 0; i < n; i += 3) { typename V::iterator x = b + i; if (p.r[i] >= 0) { check_el(x[0], p.r[i], "iterator[]"); check_el(c.at(i), p.r[i], "at()"); check_el(*(e - (n - i)), p.r[i], "end - k"); } }
        if (n && p.r[0] >= 0) check_el(c.front(), p.r[0], "front");
        if (n && p.r[n - 1] >= 0) check_el(c.back(), p.r[n - 1], "back");
    }
    int step(Pair*& a, Pair*& w, int op, unsigned np)
    {
        Pair& p = *a; V& v = p.v; size_t n = p.r.size();
        transition();
        switch (op)
        {
        case 0: v.push_back(T(++key)); p.r.push_back(key); MC_NOTE("push_back " << key); break;
        case 1: for (int i = 0; i < B; ++i) { v.push_back(T(++key)); p.r.push_back(key); } MC_NOTE("push_back x" << (int)B << " up to " << key); break;
        case 2: if (!n) return 0; v.pop_back(); p.r.pop_back(); MC_NOTE("pop_back"); break;
        case 3: if (!n) return 0; v[0] = T(++key); p.r[0] = key; MC_NOTE("v[0]=" << key); break;
        case 4: if (!n) return 0; v.back() = T(++key); p.r[n - 1] = key; MC_NOTE("back=" << key); break;
        case 5: if (n < 3) return 0; *(v.begin() + n / 2) = T(++key); p.r[n / 2] = key; MC_NOTE("v[" << n / 2 << "]=" << key); break;
        case 6: all(p, "read"); MC_NOTE("read all"); break;
        case 7: iter(p); MC_NOTE("iterate"); break;
        case 8: if (!n) return 0; v.resize(n / 2); p.r.resize(n / 2); MC_NOTE("resize " << n / 2); break;
        case 9: v.resize(n + B + 1); p.r.resize(n + B + 1, -1); MC_NOTE("resize " << n + B + 1); break;
        case 10: if (!n) return 0; v.resize(n / 2, true); p.r.resize(n / 2); MC_NOTE("resize shrink " << n / 2); MC_CHECK(v.capacity() < n / 2 + B, "capacity not shrunk"); break;
        case 11: if (!n) return 0; v.clear(); p.r.clear(); MC_CHECK(v.capacity() == 0, "capacity after clear"); MC_NOTE("clear"); break;
        case 12: v.flush(); MC_NOTE("flush"); break;
        case 13: { int m = choose(2); if (m) std::swap(v, w->v); else v.swap(w->v); p.r.swap(w->r); MC_NOTE("swap"); break; }
        case 14: w->v = v; w->r = p.r; MC_NOTE("w = v"); break;
        case 15: { size_t cap = v.capacity(); v.reserve(n + 2 * B); MC_CHECK(v.capacity() >= n + 2 * B && v.capacity() >= cap, "reserve gives capacity " << v.capacity()); MC_NOTE("reserve " << n + 2 * B); break; }
        case 16: v.deallocate_page_cache(); v.allocate_page_cache(); MC_NOTE("reallocate cache"); break;
        case 17: if (!n) return 0; v.resize(n > (size_t)B ? n - B : 0, true); p.r.resize(n > (size_t)B ? n - B : 0); MC_NOTE("resize shrink by a block"); break;
        case 18: if (n < (size_t)B) return 0; for (int i = 0; i < B; ++i) { v.pop_back(); p.r.pop_back(); } MC_NOTE("pop x" << (int)B); break;
        case 19: { V cp(v); Pair q(0, np); q.v.swap(cp); q.r = p.r; all(q, "copy"); MC_CHECK(q.v.numpages() == v.numpages(), "pages of the copy"); MC_NOTE("copy-construct"); break; }
        case 20: v.resize(n + 2 * B, true); p.r.resize(n + 2 * B, -1); MC_NOTE("resize(grow,true) " << n + 2 * B); break;
        case 21: std::swap(a, w); MC_NOTE("work on the other"); break;
        case 22: { // compare through the operators
            bool known = true; for (int x : p.r) if (x < 0) known = false; for (int x : w->r) if (x < 0) known = false;
            if (!known) return 0;
            MC_CHECK((v == w->v) == (p.r == w->r), "operator=="); MC_CHECK((v < w->v) == (p.r < w->r), "operator<");
            MC_CHECK((v != w->v) == (p.r != w->r), "operator!="); MC_CHECK((v >= w->v) == (p.r >= w->r), "operator>="); MC_CHECK((v > w->v) == (p.r > w->r), "operator>"); MC_CHECK((v <= w->v) == (p.r <= w->r), "operator<=");
            MC_NOTE("compare"); break; }
        }
        return 1;
    }
    static void history(int n0, unsigned np, std::vector<int> alphabet, int first, int depth)
    {
        cont::Scope sc;
        {
            VT t;
            Pair p1(n0, np), p2(0, np), * a = &p1, * w = &p2;
            for (int i = 0; i < n0; ++i) { p1.v[i] = T(++t.key); p1.r[i] = t.key; }
            p2.v.push_back(T(++t.key)); p2.r.push_back(t.key);
            for (int d = 0; d < depth; ++d)
            {
                int op = alphabet[d == 0 && first >= 0 ? first : choose((int)alphabet.size())];
                if (!t.step(a, w, op, np)) { MC_NOTE("-"); return; }
                state(hash_seq(a->r, hash_seq(w->r, mix(d, np))));
            }
            nontrivial();
            t.all(p1, "end v"); t.all(p2, "end w");
            outcome(hash_seq(p1.r, hash_seq(p2.r)));
        }
        sc.finish();
    }
};

// index arithmetic against plain integers
template <unsigned P, unsigned B>
static void index_arith()
{
    typedef stxxl::double_blocked_index<stxxl::uint64, P, B> I;
    stxxl::uint64 lim = 3 * P * B + 2;
    for (stxxl::uint64 x = 0; x < lim; ++x)
    {
        I i(x); transition();
        MC_CHECK(i.get_pos() == x && i.get_block2() == x / (P * B) && i.get_block1() == x / B % P && i.get_offset() == x % B, "decomposition of " << x);
        I j(i.get_block2(), i.get_block1(), i.get_offset()); MC_CHECK(j == i, "composition");
        I a(x); ++a; MC_CHECK(a == I(x + 1), "++ at " << x); I b(x); MC_CHECK((b++) == i && b == a, "post++"); if (x) { I c(x); --c; MC_CHECK(c == I(x - 1), "-- at " << x); I d(x); MC_CHECK(d-- == i && d == c, "post--"); }
        for (stxxl::uint64 y = 0; y < lim; ++y)
        {
            I k(y);
            MC_CHECK((i + y) == I(x + y), "+"); if (y <= x) { MC_CHECK((i - y) == I(x - y), "-"); MC_CHECK((i - k) == x - y, "distance"); }
            I m(x); m += y; MC_CHECK(m.get_pos() == x + y, "+="); if (y <= x) { I q(x); q -= y; MC_CHECK(q.get_pos() == x - y, "-="); }
            MC_CHECK((i < k) == (x < y) && (i > k) == (x > y) && (i <= k) == (x <= y) && (i >= k) == (x >= y) && (i == k) == (x == y) && (i != k) == (x != y), "comparison " << x << " " << y);
        }
        state(mix(P * 64 + B, x));
    }
}
// lru pager against a list
static void lru(int n, int depth)
{
    stxxl::lru_pager<> p(n); std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i);
    stxxl::lru_pager<> q(n);
    for (int d = 0; d < depth; ++d)
    {
        int c = choose(n + 1); transition();
        if (c < n) { p.hit(c); order.erase(std::find(order.begin(), order.end(), c)); order.insert(order.begin(), c); }
        else { q.swap(p); std::swap(p, q); }
        MC_CHECK((int)p.kick() == order.back(), "lru victim " << p.kick() << " instead of " << order.back());
        MC_CHECK((int)p.size() == n, "pager size");
        state(hash_seq(order, n));
    }
}

struct H : Harness
{
    const char* id() { return "C01"; }
    void init() { cont::setup(2); }
    std::string rule() { return "operation histories over 23 macro operations on two vectors with 1-4 elements per block, 1-2 blocks per page, 1-3 cached pages, LRU and arbitrary (explored) page replacement; non-trivial: all operations applicable"; }
    template <class V> void fam(std::vector<Job>& out, const std::string& name, int n0, unsigned np, std::vector<int> al, int dl, int de, int ds, int vb = 0)
    {
        cont::split_family(out, name, al.size(), [=](int f, int d) { VT<V>::history(n0, np, al, f, d); }, dl, de, ds, 1, vb);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        int x = th ? 1 : 0;
        std::vector<int> full; for (int i = 0; i < 23; ++i) full.push_back(i);
        std::vector<int> core = { 0, 1, 3, 5, 8, 10, 11, 12, 9, 6 };
        typedef stxxl::vector<El<1024>, 1, stxxl::lru_pager<>, 4096> V1;
        typedef stxxl::vector<El<1024>, 2, stxxl::lru_pager<>, 4096> V2;
        typedef stxxl::vector<El<1024>, 2, choice_pager, 4096, stxxl::striping> VC;
        typedef stxxl::vector<El<2048>, 3, choice_pager, 4096, stxxl::SR> VC3;
        typedef stxxl::vector<El<1360>, 2, stxxl::random_pager<2>, 4096, stxxl::FR> VR;
        fam<V1>(out, "p1c1", 5, 1, full, 4 + x, 3 + x, 2 + x);
        fam<V1>(out, "p1c2", 9, 2, full, 3 + x, 3 + x, 2);
        fam<V2>(out, "p2c2", 17, 2, full, 3 + x, 3 + x, 2);
        fam<VC>(out, "p2choice2a", 17, 2, full, 2 + x, 2 + x, 0, 2);
        fam<VC>(out, "p2choice2", 9, 2, full, 3 + x, 2 + x, 0, 1);
        fam<VC3>(out, "p3choice2", 12, 2, full, 3 + x, 3 + x, 0, 1);
        fam<VR>(out, "p2random2", 10, 2, full, 3 + x, 2 + x, 1);
        fam<V2>(out, "p2c1", 0, 1, full, 4, 3, 2);
        fam<V1>(out, "p1c2core", 3, 2, core, 5 + x, 4 + x, 0);
        fam<V2>(out, "p2c3core", 8, 3, core, 5 + x, 4 + x, 2);
        fam<VC>(out, "p2choice2core", 8, 2, core, 4 + x, 4 + x, 0, 2);
        auto add = [&](const std::string& n, std::function<void()> f) { Job j; j.name = n; j.body = f; out.push_back(j); };
        add("index11", index_arith<1, 1>); add("index12", index_arith<1, 2>); add("index21", index_arith<2, 1>); add("index23", index_arith<2, 3>); add("index32", index_arith<3, 2>); add("index47", index_arith<4, 7>); add("index58", index_arith<5, 8>); add("index83", index_arith<8, 3>);
        for (int n = 1; n <= 4; ++n) add("lru" + std::to_string(n), [=] { lru(n, 7); });
    }
};
MC_MAIN(H)
