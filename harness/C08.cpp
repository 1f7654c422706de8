// C08: the external map equals std::map for every history, including its iterators, bulk construction and swap
#include "cont.h"
#include <stxxl/map>
#include <map>
using namespace mc;
using cont::El; using cont::check_el;
typedef El<784> K;
struct Cmp { bool operator () (const K& a, const K& b) const { return a.k < b.k; } static K max_value() { return K(INT_MAX); } };
typedef stxxl::map<K, int, Cmp, 4096, 4096> M;
typedef std::map<int, int> R;
static_assert(M::leaf_block_type::size <= 6 && M::leaf_block_type::size >= 5, "leaf size");

struct P
{
    M* m; R r;
    std::vector<std::pair<M::iterator, int> > live;     // iterators kept across operations, with the key they point to (INT_MAX: end)
};
static void is(const M::iterator& cit, P& p, R::iterator w, const char* what)
{
    M::iterator it = cit;
    if (w == p.r.end()) { MC_CHECK(it == p.m->end(), what << ": not end()"); return; }
    MC_CHECK(it != p.m->end(), what << ": end() instead of " << w->first);
    check_el((*it).first, w->first, what); MC_CHECK(it->second == w->second, what << ": value " << it->second << " of key " << w->first << " instead of " << w->second);
}
static void is(const M::const_iterator& cit, P& p, R::iterator w, const char* what)
{
    M::const_iterator it = cit; const M& m = *p.m;
    if (w == p.r.end()) { MC_CHECK(it == m.end(), what << ": not end()"); return; }
    MC_CHECK(it != m.end(), what << ": end() instead of " << w->first);
    check_el((*it).first, w->first, what); MC_CHECK(it->second == w->second, what << ": value " << it->second << " of key " << w->first << " instead of " << w->second);
}
static void quick(P& p)
{
    MC_CHECK(p.m->size() == p.r.size(), "size " << p.m->size() << " instead of " << p.r.size());
    MC_CHECK(p.m->empty() == p.r.empty(), "empty()");
    for (auto& l : p.live)
    {
        if (l.second == INT_MAX) is(l.first, p, p.r.end(), "iterator kept at the end");
        else is(l.first, p, p.r.find(l.second), "iterator kept");
    }
}
static void lookups(P& p, int k)
{
    const M& c = *p.m;
    is(p.m->find(K(k)), p, p.r.find(k), "find"); is(c.find(K(k)), p, p.r.find(k), "const find");
    MC_CHECK(p.m->count(K(k)) == p.r.count(k), "count " << k);
    is(p.m->lower_bound(K(k)), p, p.r.lower_bound(k), "lower_bound"); is(c.lower_bound(K(k)), p, p.r.lower_bound(k), "const lower_bound");
    is(p.m->upper_bound(K(k)), p, p.r.upper_bound(k), "upper_bound"); is(c.upper_bound(K(k)), p, p.r.upper_bound(k), "const upper_bound");
    auto e = p.m->equal_range(K(k)); is(e.first, p, p.r.lower_bound(k), "equal_range.first"); is(e.second, p, p.r.upper_bound(k), "equal_range.second");
    auto f = c.equal_range(K(k)); is(f.first, p, p.r.lower_bound(k), "const equal_range.first"); is(f.second, p, p.r.upper_bound(k), "const equal_range.second");
}
static void walk(P& p, bool back)
{
    if (!back)
    {
        M::iterator it = p.m->begin();
        for (auto w = p.r.begin(); ; ++w) { is(it, p, w, "iteration"); if (w == p.r.end()) break; if (w->first % 3) ++it; else { M::iterator o = it++; is(o, p, w, "post increment"); } }
        const M& c = *p.m; M::const_iterator ci = c.begin();
        for (auto w = p.r.begin(); ; ++w) { is(ci, p, w, "const iteration"); if (w == p.r.end()) break; ++ci; }
    }
    else
    {
        M::iterator it = p.m->end();
        for (auto w = p.r.end(); ; ) { is(it, p, w, "backward iteration"); if (w == p.r.begin()) break; --w; if (w->first % 3) --it; else { M::iterator o = it--; } }
        MC_CHECK(it == p.m->begin(), "backward iteration does not reach begin()");
        size_t n = 0; auto w = p.r.rbegin();
        for (auto q = p.m->rbegin(); q != p.m->rend(); ++q, ++w, ++n) { MC_CHECK(w != p.r.rend(), "reverse iteration too long"); check_el((*q).first, w->first, "reverse iteration"); }
        MC_CHECK(n == p.r.size(), "reverse iteration stops after " << n);
    }
}
static void full(P& p, bool all = true)
{
    quick(p);
    int lo = p.r.empty() ? 0 : p.r.begin()->first, hi = p.r.empty() ? 0 : p.r.rbegin()->first;
    walk(p, false); walk(p, true);
    for (int k = lo - 1; k <= hi + 1; k += all ? 1 : std::max(1, (hi - lo) / 13)) lookups(p, k);
}
static void ins(P& p, int k, int v)
{
    transition();
    bool fresh = !p.r.count(k);
    auto x = p.m->insert(std::make_pair(K(k), v)); auto y = p.r.insert(std::make_pair(k, v));
    MC_CHECK(x.second == fresh, "insert " << k << " reports " << x.second);
    is(x.first, p, y.first, "iterator returned by insert");
}
static void del(P& p, int k)
{
    transition();
    p.live.erase(std::remove_if(p.live.begin(), p.live.end(), [k](const std::pair<M::iterator, int>& l) { return l.second == k; }), p.live.end());
    size_t w = p.r.erase(k); size_t g = p.m->erase(K(k)); MC_CHECK(g == w, "erase(" << k << ") returns " << g);
}
static void hist(M* a, M* b, const R& r0, int depth, int first, bool pf)
{
    P x = { a, r0, {} }, y = { b, {}, {} }; int c = 1000;
    if (b)
    {
        int n = choose(3) * 7, w = choose(4); MC_NOTE("second map of " << n << ", cleaned " << w);
        for (int i = 0; i < n; ++i) ins(y, 60 + i * 2, c++);
        if (w & 1) { const M& q = *a; for (auto i = q.begin(); i != q.end(); ++i) (void)*i; for (auto i = q.begin(); i != q.end(); ++i) (void)*i; }
        if (w & 2) { const M& q = *b; for (auto i = q.begin(); i != q.end(); ++i) (void)*i; for (auto i = q.begin(); i != q.end(); ++i) (void)*i; }
    }
    if (pf) a->enable_prefetching();
    for (int i = 0; i < depth; ++i)
    {
        int op = i == 0 && first >= 0 ? first : choose(b ? 17 : 15);
        std::vector<int> ks; for (auto& e : x.r) ks.push_back(e.first);
        // a position in the key order: every key when it is the last operation of a history, some spread keys otherwise
        auto pos = [&]() -> size_t { size_t n = ks.size(); if (n == 0) return 0; if (n <= 6) return choose(n); size_t q[] = { 0, n / 4, n / 2, n / 2 + 1, n - 2, n - 1 }; return i == depth - 1 && (depth < 2 || first >= 15 || n < 24) && i > 0 ? choose(n) : q[choose(6)]; };
        switch (op)
        {
        case 0: { int k = ks.empty() ? 50 : ks[0] - 1; MC_NOTE("insert smallest " << k); ins(x, k, c++); break; }
        case 1: { int k = ks.empty() ? 50 : ks.back() + 1; MC_NOTE("insert largest " << k); ins(x, k, c++); break; }
        case 2: { int k = ks.empty() ? 50 : ks[pos()] + 1; MC_NOTE("insert " << k); ins(x, k, c++); break; }
        case 3: { int k = ks.empty() ? 50 : ks[pos()]; MC_NOTE("erase key " << k); del(x, k); break; }
        case 4: if (!ks.empty()) { int k = ks[pos()]; MC_NOTE("erase iterator " << k); x.live.erase(std::remove_if(x.live.begin(), x.live.end(), [k](const std::pair<M::iterator, int>& l) { return l.second == k; }), x.live.end()); { M::iterator it = x.m->find(K(k)); x.m->erase(it); } x.r.erase(k); } break;
        case 5: { size_t f = ks.empty() ? 0 : pos(), l = ks.empty() ? 0 : (choose(2) ? std::min(f + 5, ks.size()) : ks.size());
                  MC_NOTE("erase range " << f << ".." << l);
                  if (f == 0 && l == ks.size()) x.live.clear();
                  for (size_t q = f; q < l; ++q) { int k = ks[q]; x.live.erase(std::remove_if(x.live.begin(), x.live.end(), [k](const std::pair<M::iterator, int>& z) { return z.second == k; }), x.live.end()); }
                  { M::iterator ia = f < ks.size() ? x.m->find(K(ks[f])) : x.m->end(), ib = l < ks.size() ? x.m->find(K(ks[l])) : x.m->end(); x.m->erase(ia, ib); }
                  for (size_t q = f; q < l; ++q) x.r.erase(ks[q]); break; }
        case 6: MC_NOTE("clear"); x.live.clear(); x.m->clear(); x.r.clear(); break;
        case 7: { int k = ks.empty() ? 50 : ks[pos()] + choose(2); MC_NOTE("operator[] " << k << " = " << c); (*x.m)[K(k)] = c; x.r[k] = c; ++c; MC_CHECK((*x.m)[K(k)] == c - 1, "operator[] lost the value"); break; }
        case 8: { int k = ks.empty() ? 50 : ks[pos()]; MC_NOTE("modify through iterator " << k); auto it = x.m->find(K(k)); if (it != x.m->end()) { it->second = c; x.r[k] = c++; } break; }
        case 9: { MC_NOTE("keep an iterator"); if (ks.empty() || choose(3) == 0) x.live.push_back({ x.m->end(), INT_MAX }); else { int k = ks[pos()]; x.live.push_back({ x.m->find(K(k)), k }); x.live.push_back({ x.m->lower_bound(K(k)), k }); } break; }
        case 10: { int n = 7; MC_NOTE("insert 7 at the end"); int k = ks.empty() ? 50 : ks.back() + 2; for (int j = 0; j < n; ++j) ins(x, k + j * 2, c++); break; }
        case 11: { MC_NOTE("insert 7 descending at the front"); int k = ks.empty() ? 50 : ks[0] - 2; for (int j = 0; j < 7; ++j) ins(x, k - j * 2, c++); break; }
        case 12: { MC_NOTE("erase every second"); for (size_t j = 0; j < ks.size(); j += 2) del(x, ks[j]); break; }
        case 13: { MC_NOTE("hint insert, range insert"); int k = ks.empty() ? 50 : ks[ks.size() / 2] + 1; { auto it = x.m->insert(x.m->begin(), std::make_pair(K(k), c)); auto w = x.r.insert(std::make_pair(k, c)); ++c; is(it, x, w.first, "hint insert"); }
                   std::vector<std::pair<K, int> > v; for (int j = 0; j < 4; ++j) { int kk = k + j * 3; v.push_back(std::make_pair(K(kk), c)); x.r.insert(std::make_pair(kk, c)); ++c; } x.m->insert(v.begin(), v.end()); break; }
        case 14: { MC_NOTE("walk " << i % 2); if (x.m->prefetching_enabled()) x.m->disable_prefetching(); else x.m->enable_prefetching(); walk(x, false); if (choose(2)) walk(x, true); break; }
        case 15: MC_NOTE("swap"); x.live.clear(); y.live.clear(); x.m->swap(*y.m); std::swap(x.r, y.r); break;
        case 16: { MC_NOTE("other inserts"); for (int j = 0; j < 4; ++j) ins(y, 10 + c % 37 * 3, c), ++c; break; }
        }
        quick(x); if (b) quick(y);
        state(mix(mix(x.r.size(), y.r.size()), x.live.size() * 32 + op));
        if (x.r.size() > 16) nontrivial();
    }
    full(x, false);
    if (b)
    {
        full(y, false);
        bool eq = x.r == y.r, lt = std::lexicographical_compare(x.r.begin(), x.r.end(), y.r.begin(), y.r.end());
        (void)lt;
        MC_CHECK((*x.m == *y.m) == eq && (*x.m != *y.m) == !eq, "comparison of two maps");
    }
    outcome(mix(x.r.size(), c)); x.live.clear();
}
static void fill(M& m, R& r, int n, int order)
{
    std::vector<int> ks;
    for (int i = 0; i < n; ++i) ks.push_back(100 + 3 * (order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n));
    int v = 1; for (int k : ks) { m.insert(std::make_pair(K(k), v)); r.insert(std::make_pair(k, v)); ++v; }
}
struct H : Harness
{
    const char* id() { return "C08"; }
    void init() { cont::setup(2); }
    std::string rule() { return "all operation histories (insert, hinted and range insert, [], erase by key, iterator and range, clear, modification, kept iterators, prefetching, swap with a second map) to the depth, with all positions in the key order, from trees of height 2 to 5 filled ascending, descending and mixed, for several cache sizes; bulk construction of every size with several fill factors; every lookup of every key and both iteration directions checked; non-trivial: more leaves than the cache holds"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        int dl = th ? 3 : 2;
        // every start size alone, then erased in all three orders
        for (int nc : { 3, 5 })
            for (int lc : { 3, 6 })
                for (int order = 0; order < 3; ++order)
                {
                    std::string nm = "n" + std::to_string(nc) + "l" + std::to_string(lc) + "o" + std::to_string(order);
                    cont::family(out, "grow." + nm, [=](int d) {
                                     cont::Scope sc;
                                     {
                                         int n = choose(nc == 3 ? 20 : th ? 90 : 44); P x = { nullptr, {}, {} };
                                         M m(4096 * nc, 4096 * lc); x.m = &m; if (choose(2)) m.enable_prefetching();
                                         fill(m, x.r, n, order); full(x);
                                         int eo = choose(4);
                                         std::vector<int> ks; for (auto& e : x.r) ks.push_back(e.first);
                                         if (eo == 1) std::reverse(ks.begin(), ks.end());
                                         if (eo == 2) for (size_t i = 0; i < ks.size(); ++i) std::swap(ks[i], ks[(i * 7 + 3) % ks.size()]);
                                         if (eo == 3) for (size_t i = 0; i + 1 < ks.size(); i += 1) std::swap(ks[i], ks[i + (ks.size() - i) / 2]);
                                         for (int k : ks) x.live.push_back({ m.find(K(k)), k });
                                         for (size_t i = 0; i < ks.size(); ++i) { del(x, ks[i]); if (i % 3 == 0) quick(x); else lookups(x, ks[(i * 5) % ks.size()]); }
                                         full(x); x.live.clear(); fill(m, x.r, 9, 2); full(x); nontrivial();
                                     }
                                     sc.finish();
                                 }, 1, 1, 0);
                    for (int n : { 0, 4, 9, 16, 30, 61 }) if (nc > 3 || n <= 9)
                    {
                        bool some = th || ((n + nc + lc + order) % 5) == 0;
                        auto body = [=](int first, bool two, bool pf, int d) {
                            cont::Scope sc;
                            {
                                R r; M m(4096 * nc, 4096 * lc); fill(m, r, n, order);
                                if (two) { M o(4096 * nc, 4096 * lc); hist(&m, &o, r, d, first, pf); }
                                else hist(&m, nullptr, r, d, first, pf);
                            }
                            sc.finish();
                        };
                        for (int f = 0; f < 15; ++f)
                            cont::family(out, nm + "." + std::to_string(n) + ".op" + std::to_string(f), [=](int d) { body(f, false, nc == 3, d); }, some ? dl : dl - 1, 0, 0);
                        if (th || order == 2) cont::family(out, nm + "." + std::to_string(n), [=](int d) { body(-1, false, lc == 3, d); }, 0, dl - 1, n <= 9 || (th && n <= 16) ? 1 : 0);
                        if (order == 0 && (th || (lc == 3 && (n == 9 || n == 30 || n == 0)))) for (int f : { 15, 16 }) cont::family(out, nm + "." + std::to_string(n) + ".two" + std::to_string(f), [=](int d) { body(f, true, nc == 5, d); }, dl, 0, 0);
                    }
                }
        // bulk construction
        for (int nf = 0; nf < 3; ++nf)
            for (int lf = 0; lf < 3; ++lf)
                for (int kind = 0; kind < 3; ++kind)
                    cont::family(out, "bulk." + std::to_string(nf) + std::to_string(lf) + "k" + std::to_string(kind), [=](int d) {
                                     cont::Scope sc;
                                     {
                                         double fs[] = { 0.75, 0.5, 1.0 }, ls[] = { 0.6, 0.5, 1.0 };
                                         int n = choose(th ? 130 : 70); P x = { nullptr, {}, {} };
                                         std::vector<std::pair<K, int> > v;
                                         for (int i = 0; i < n; ++i) { int k = 100 + 2 * (kind == 2 ? i * 7 % n : i); v.push_back(std::make_pair(K(k), i)); x.r.insert(std::make_pair(k, i)); if (kind == 1 && i % 4 == 1) v.push_back(std::make_pair(K(k), i)); }
                                         M m(v.begin(), v.end(), 4096 * 6, 4096 * 4, kind != 2, fs[nf], ls[lf]); x.m = &m;
                                         full(x, n < 24);
                                         int op = choose(5); int c = 500;
                                         if (op == 0) for (int i = 0; i < n; i += 3) ins(x, 101 + 2 * i, c++);
                                         if (op == 1) for (int i = 0; i < n; ++i) del(x, 100 + 2 * i);
                                         if (op == 2) for (int i = n; i-- > 0; ) if (i % 3) del(x, 100 + 2 * i);
                                         if (op == 3) { ins(x, 1, c++); ins(x, 1000, c++); }
                                         full(x, n < 24); nontrivial();
                                     }
                                     sc.finish();
                                 }, 1, th, 0);
    }
};
MC_MAIN(H)
