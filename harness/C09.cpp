// C09: the external hash map equals an in-memory map for every history, buffer size and hash function
#include "cont.h"
#include <stxxl/unordered_map>
#include <stxxl/bits/containers/hash_map/tuning.h>
#include <map>
using namespace mc;
using cont::El; using cont::check_el;
typedef El<1356> K;
static int hash_kind;       // 0 spread, 1 colliding in threes, 2 all equal, 3 ends of the hash range, 4 descending
struct Hash
{
    size_t operator () (const K& k) const
    {
        unsigned x = k.k;
        switch (hash_kind)
        {
        case 0: return size_t(x * 2654435769u) << 32;
        case 1: return size_t((x / 3) * 40503u % 64) << 58;
        case 2: return 1;
        case 3: return x % 3 == 0 ? ~size_t(0) : x % 3 == 1 ? 0 : ~size_t(0) - x;
        default: return ~(size_t(x) << 55);
        }
    }
};
struct Cmp { bool operator () (const K& a, const K& b) const { return a.k < b.k; } K min_value() const { return K(INT_MIN); } K max_value() const { return K(INT_MAX); } };
typedef stxxl::unordered_map<K, int, Hash, Cmp, 4096, 2> M;
typedef std::map<int, int> R;
enum { NodeSize = sizeof(M::value_type) + 8 };

struct P
{
    M* m; R r;
    struct L { M::iterator* i; M::const_iterator* c; int k; };
    std::vector<L> live;
    void drop() { for (auto& l : live) { delete l.i; delete l.c; } live.clear(); }
    ~P() { drop(); }
    void gone(int k) { for (auto& l : live) if (l.k == k) l.k = INT_MAX; }
    void allgone() { for (auto& l : live) l.k = INT_MAX; }
};
template <class I> static void is(I& it, P& p, int k, const char* what)
{
    auto w = p.r.find(k);
    if (w == p.r.end()) { MC_CHECK(it == p.m->end(), what << ": key " << k << " should be gone"); return; }
    MC_CHECK(it != p.m->end(), what << ": end() instead of " << k);
    const M::value_type& v = *it;
    check_el(v.first, k, what); MC_CHECK(v.second == w->second, what << ": value " << v.second << " of key " << k << " instead of " << w->second);
}
static void quick(P& p, bool sz)
{
    if (sz) { MC_CHECK(p.m->size() == p.r.size(), "size " << p.m->size() << " instead of " << p.r.size()); MC_CHECK(p.m->empty() == p.r.empty(), "empty()"); }
}
static void lives(P& p) { for (auto& l : p.live) { if (l.i) is(*l.i, p, l.k, "kept iterator"); else is(*l.c, p, l.k, "kept const iterator"); } }
template <class MM, class I> static void walk(MM& m, P& p, const char* what)
{
    R seen; I e = m.end();
    for (I it = m.begin(); it != e; ++it)
    {
        const M::value_type& v = *it;
        auto w = p.r.find(v.first.k);
        MC_CHECK(w != p.r.end(), what << " delivers " << v.first.k << " which is not in the map"); MC_CHECK(v.first.ok(), what << ": damaged element");
        MC_CHECK(v.second == w->second, what << ": value " << v.second << " of key " << v.first.k << " instead of " << w->second);
        MC_CHECK(!seen.count(v.first.k), what << " delivers " << v.first.k << " twice");
        seen[v.first.k] = 1;
    }
    MC_CHECK(seen.size() == p.r.size(), what << " delivers " << seen.size() << " of " << p.r.size() << " elements");
}
static void full(P& p, int how)
{
    const M& c = *p.m;
    if (how & 1) walk<const M, M::const_iterator>(c, p, "const iteration");
    if (how & 2) walk<M, M::iterator>(*p.m, p, "iteration");
    int lo = p.r.empty() ? 0 : p.r.begin()->first, hi = p.r.empty() ? 0 : p.r.rbegin()->first;
    for (int k = lo - 1; k <= hi + 1; k += std::max(1, (hi - lo) / 20))
    {
        { M::const_iterator i = c.find(K(k)); is(i, p, k, "const find"); }
        MC_CHECK(c.count(K(k)) == p.r.count(k), "count " << k);
        if (how & 4) { M::iterator i = p.m->find(K(k)); is(i, p, k, "find"); auto e = p.m->equal_range(K(k)); is(e.first, p, k, "equal_range"); }
    }
    quick(p, true);
}
static void ins(P& p, int k, int v)
{
    transition();
    bool fresh = !p.r.count(k);
    auto x = p.m->insert(M::value_type(K(k), v)); p.r.insert(std::make_pair(k, v));
    MC_CHECK(x.second == fresh, "insert " << k << " reports " << x.second);
    is(x.first, p, k, "iterator returned by insert");
}
static void hist(M* a, M* b, P& x, P& y, int depth, int first, int& c)
{
    for (int i = 0; i < depth; ++i)
    {
        int op = i == 0 && first >= 0 ? first : choose(b ? 18 : 16);
        std::vector<int> ks; for (auto& e : x.r) ks.push_back(e.first);
        auto pos = [&]() -> size_t { size_t n = ks.size(); if (n <= 4) return n ? choose(n) : 0; size_t q[] = { 0, n / 3, 2 * n / 3, n - 1 }; return q[choose(4)]; };
        auto key = [&](bool present) { return ks.empty() ? 50 : ks[pos()] + !present; };
        switch (op)
        {
        case 0: { int k = key(choose(2)); MC_NOTE("insert " << k); ins(x, k, c++); break; }
        case 1: { int k = key(choose(2)); MC_NOTE("insert_oblivious " << k); { M::iterator it = x.m->insert_oblivious(M::value_type(K(k), c)); x.r[k] = c++; is(it, x, k, "insert_oblivious"); } break; }
        case 2: { int k = key(choose(2)); MC_NOTE("erase " << k); x.gone(k); size_t w = x.r.erase(k), g = x.m->erase(K(k)); MC_CHECK(g == w, "erase " << k << " returns " << g); break; }
        case 3: { int k = key(choose(2)); MC_NOTE("erase_oblivious " << k); x.gone(k); x.r.erase(k); x.m->erase_oblivious(K(k)); break; }
        case 4: if (!ks.empty()) { int k = key(true); int cc = choose(2); MC_NOTE("erase iterator " << k << " const " << cc); x.gone(k); if (cc) { const M& q = *x.m; M::const_iterator it = q.find(K(k)); x.m->erase(it); } else { M::iterator it = x.m->find(K(k)); x.m->erase(M::const_iterator(it)); } x.r.erase(k); } break;
        case 5: { int k = key(choose(2)); MC_NOTE("operator[] " << k << " = " << c); (*x.m)[K(k)] = c; x.r[k] = c++; break; }
        case 6: { int k = key(choose(2)); MC_NOTE("read operator[] " << k); int v = (*x.m)[K(k)]; MC_CHECK(v == x.r[k], "operator[] gives " << v << " instead of " << x.r[k]); break; }
        case 7: if (!ks.empty()) { int k = key(true); MC_NOTE("modify through find " << k); auto it = x.m->find(K(k)); is(it, x, k, "find"); it->second = c; x.r[k] = c++; } break;
        case 8: { MC_NOTE("modify all through iteration"); if (choose(2)) x.m->rehash(choose(2) * 7); for (M::iterator it = x.m->begin(); it != x.m->end(); ++it) { int k = it->first.k; it->second = c; MC_CHECK(x.r.count(k), "iteration delivers " << k); x.r[k] = c++; } break; }
        case 9: { int n = choose(3); MC_NOTE("rehash " << n); x.m->rehash(n == 0 ? 0 : n == 1 ? 1 : 9); break; }
        case 10: MC_NOTE("clear"); x.allgone(); x.m->clear(); x.r.clear(); break;
        case 11: if (x.live.size() < 3 && !ks.empty()) { int k = key(true); int kind = choose(4); MC_NOTE("keep iterator kind " << kind << " to " << k);
                     const M& q = *x.m;
                     if (kind == 0) x.live.push_back({ new M::iterator(x.m->find(K(k))), nullptr, k });
                     if (kind == 1) x.live.push_back({ nullptr, new M::const_iterator(q.find(K(k))), k });
                     if (kind == 2) { M::iterator it = x.m->begin(); while (it != x.m->end() && it->first.k != k) ++it; x.live.push_back({ new M::iterator(it), nullptr, k }); }
                     if (kind == 3) { M::const_iterator it = q.begin(); while (it != q.end() && (*it).first.k != k) ++it; x.live.push_back({ nullptr, new M::const_iterator(it), k }); x.live.back().c->operator * (); } } break;
        case 12: { MC_NOTE("step kept iterators to the end"); // everything behind a kept iterator is delivered once and exists
                   for (auto& l : x.live) { std::set<int> s; size_t n = 0; if (l.k == INT_MAX) continue;
                       if (l.i) { M::iterator it = *l.i; for (; it != x.m->end(); ++it) { int k = it->first.k; MC_CHECK(x.r.count(k) && s.insert(k).second, "stepping delivers " << k << " wrongly"); MC_CHECK(it->second == x.r[k], "stepping delivers an old value of " << k); MC_CHECK(++n <= x.r.size(), "endless"); } }
                       else { M::const_iterator it = *l.c; for (; it != x.m->end(); ++it) { int k = (*it).first.k; MC_CHECK(x.r.count(k) && s.insert(k).second, "stepping delivers " << k << " wrongly"); MC_CHECK((*it).second == x.r[k], "stepping delivers an old value of " << k); MC_CHECK(++n <= x.r.size(), "endless"); } }
                       // the rest of the order: a fresh iteration reaches the same elements behind it
                       size_t behind = 0; bool on = false; const M& q = *x.m; for (M::const_iterator it = q.begin(); it != q.end(); ++it) { if ((*it).first.k == l.k) on = true; if (on) ++behind; }
                       MC_CHECK(n == behind, "stepping from " << l.k << " delivers " << n << " elements instead of " << behind); }
                   break; }
        case 13: { int n = choose(3); MC_NOTE("bulk insert kind " << n); std::vector<M::value_type> v; R nr;
                   if (n == 1) for (int j = 0; j < 9; ++j) { int k = (ks.empty() ? 50 : ks[ks.size() / 2]) + 1 + j; v.push_back(M::value_type(K(k), c)); nr[k] = c++; }
                   if (n == 2) { for (size_t j = 0; j < ks.size(); j += 2) { v.push_back(M::value_type(K(ks[j]), c)); v.push_back(M::value_type(K(ks[j]), c)); nr[ks[j]] = c++; } for (int j = 0; j < 5; ++j) if (!nr.count(1000 - j)) { v.push_back(M::value_type(K(1000 - j), c)); nr[1000 - j] = c++; } }
                   x.m->insert(v.begin(), v.end(), 1 << 20); for (auto& e : nr) x.r[e.first] = e.second; break; }
        case 14: { MC_NOTE("erase every second, insert 4"); for (size_t j = 0; j < ks.size(); j += 2) { x.gone(ks[j]); x.r.erase(ks[j]); MC_CHECK(x.m->erase(K(ks[j])) == 1, "erase"); } for (int j = 0; j < 4; ++j) { ins(x, 300 + j, c++); } break; }
        case 15: { int n = choose(2); MC_NOTE("buffer size, load factor " << n); if (n) x.m->opt_load_factor(0.3f); else x.m->max_buffer_size(3 * NodeSize + 100); break; }
        case 16: { MC_NOTE("swap"); x.m->swap(*y.m); std::swap(x.r, y.r); std::swap(x.live, y.live); break; }
        case 17: { MC_NOTE("other: inserts, keep"); for (int j = 0; j < 4; ++j) ins(y, 500 + j * 3, c++); if (y.live.empty()) { y.live.push_back({ new M::iterator(y.m->find(K(503))), nullptr, 503 }); const M& q = *y.m; y.live.push_back({ nullptr, new M::const_iterator(q.find(K(500))), 500 }); } break; }
        }
        if (i % 2 == 0 || i == depth - 1) { lives(x); if (b) lives(y); }
        if (i == depth - 1) { quick(x, true); if (b) quick(y, true); }
        else if (deviate(2)) { quick(x, true); }       // size() has the effect of counting
        state(mix(mix(x.r.size(), y.r.size()), mix(x.live.size() * 32 + op, x.m->bucket_count())));
        if (x.r.size() > 6) nontrivial();
    }
    full(x, choose(2) ? 7 : 1); if (b) full(y, 3); lives(x); if (b) lives(y);
    outcome(mix(mix(x.r.size(), c), x.m->buffer_size()));
}
struct H : Harness
{
    const char* id() { return "C09"; }
    void init() { cont::setup(2, 16); }
    std::string rule() { return "all operation histories (insert, insert_oblivious, erase by key, erase_oblivious, erase by iterator, operator[], modification through find and iteration, rehash, clear, kept iterators of four origins and stepping them, bulk insertion, buffer and load factor changes, swap) to the depth, over maps holding their elements in the buffer, externally, or both, for five hash functions (spread, collisions, constant, ends of the range) and several buffer and block cache sizes; non-trivial: several subblocks"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        int n = 0;
        int dl = th ? 3 : 2;
        for (int hk = 0; hk < 5; ++hk)
            for (int buf : { 3, 6, 1000 })
                for (int start : { -1, 0, 5, 14, 37 })
                    for (int st = 0; st < 3; ++st)     // how the start elements got there: inserts, bulk, inserts + rehash + more inserts
                    {
                        if (start <= 0 && st) continue;
                        ++n;
                        auto body = [=](int first, bool two, int d) {
                            cont::Scope sc;
                            {
                                hash_kind = hk;
                                auto* tu = stxxl::hash_map::tuning::get_instance();
                                tu->blockcache_size = n % 2 ? 8 : 24; tu->prefetch_page_size = 1 + n % 2; tu->prefetch_pages = 1;
                                int c = 1000;
                                M m(start < 0 ? 0 : 4, Hash(), Cmp(), buf * NodeSize + 64), o(3, Hash(), Cmp(), 4 * NodeSize + 64);
                                {
                                    P x = { &m, {}, {} }, y = { &o, {}, {} };
                                    if (st == 1 && start > 0) { std::vector<M::value_type> v; for (int j = 0; j < start; ++j) { v.push_back(M::value_type(K(100 + 2 * j), j)); x.r[100 + 2 * j] = j; } m.insert(v.begin(), v.end(), 1 << 20); }
                                    else for (int j = 0; j < start; ++j) { ins(x, 100 + 2 * (j * 7 % start), j); if (st == 2 && j == start * 2 / 3) m.rehash(3); }
                                    hist(&m, two ? &o : nullptr, x, y, d, first, c);
                                }
                            }
                            sc.finish();
                        };
                        std::string nm = "h" + std::to_string(hk) + "b" + std::to_string(buf) + "s" + std::to_string(start) + "t" + std::to_string(st);
                        bool some = th || n % 7 == 0 || (start < 5 && n % 2);
                        for (int f = 0; f < 16; ++f)
                            cont::family(out, nm + ".op" + std::to_string(f), [=](int d) { body(f, false, d); }, start == 37 && !th && (f != 11 || n % 4) ? 1 : some ? dl : dl - 1, th && some ? dl - 1 : 0, 0, 1, 1);
                        if (n % 9 == 0 || th) { cont::family(out, nm, [=](int d) { body(-1, false, d); }, 0, 1, 0, 1, 1); if (start == 5 || th) for (int f : { 2, 5, 8, 9 }) cont::family(out, nm + ".op" + std::to_string(f), [=](int d) { body(f, false, d); }, 0, 0, 1, 1, 1, 2); }
                        if (n % 4 == 0 || th) for (int f : { 11, 16, 17 }) cont::family(out, nm + ".two" + std::to_string(f), [=](int d) { body(f, true, d); }, dl, 0, 0, 1, 0);
                    }
    }
};
MC_MAIN(H)
