// U07: small data-structure helpers equal their reference structures
#include "cont.h"
#include "h.h"
#include <stxxl/bits/common/addressable_queues.h>
#include <stxxl/bits/common/swap_vector.h>
#include <stxxl/bits/common/simple_vector.h>
#include <stxxl/bits/common/tuple.h>
#include <stxxl/bits/common/tmeta.h>
#include <stxxl/bits/common/is_heap.h>
#include <stxxl/bits/common/is_sorted.h>
#include <stxxl/bits/common/utils.h>
#include <sstream>
using namespace mc;
// ---- addressable queues; a key keeps its own memory, so reading an erased one is an address error
struct K { std::string s; K(int i = 0) : s(40, char('a' + i)) { } int n() const { return s[0] - 'a'; } bool operator < (const K& o) const { return s < o.s; } };
static void fifo(int depth, int keys)
{
    typedef stxxl::addressable_fifo_queue<K> Q; Q q; std::vector<int> ref; std::map<int, Q::handle> h;
    auto check = [&] { transition(); if (q.empty() != ref.empty()) fail("empty() is wrong"); if (!ref.empty() && q.top().n() != ref[0]) fail("the top is " + std::to_string(q.top().n()) + " instead of " + std::to_string(ref[0])); uint64_t x = 3; for (int k : ref) x = mix(x, k); state(x); if (ref.size() > 1) nontrivial(); };
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(7); if (op == 0) break;
        if (op == 1 || op == 5) { bool self = op == 5; if (self && ref.empty()) continue; int k = self ? ref[0] : choose(keys); MC_NOTE((self ? "insert the top " : "insert ") << k); auto it = std::find(ref.begin(), ref.end(), k); bool was = it != ref.end(); if (was) ref.erase(it); ref.push_back(k);
            std::pair<Q::handle, bool> r = self ? q.insert(q.top()) : q.insert(K(k)); if (r.second == was) fail("insert reports the wrong novelty"); if (r.first->first.n() != k) fail("insert returns a handle of another element"); h[k] = r.first; }
        if (op == 2) { int k = choose(keys); MC_NOTE("erase " << k); auto it = std::find(ref.begin(), ref.end(), k); bool was = it != ref.end(); if (was) ref.erase(it); if (q.erase(K(k)) != was) fail("erase reports the wrong presence"); h.erase(k); }
        if (op == 3) { int k = choose(keys); if (!h.count(k)) continue; MC_NOTE("erase by handle " << k); ref.erase(std::find(ref.begin(), ref.end(), k)); q.erase(h[k]); h.erase(k); }
        if (op == 4) { if (ref.empty()) continue; int want = ref[0]; MC_NOTE("pop"); ref.erase(ref.begin()); h.erase(want); int got = q.pop().n(); if (got != want) fail("pop returns " + std::to_string(got) + " instead of " + std::to_string(want)); outcome(got); }
        if (op == 6) { if (ref.empty()) continue; MC_NOTE("erase the top"); h.erase(ref[0]); ref.erase(ref.begin()); if (!q.erase(q.top())) fail("the top is not found"); }
        check();
    }
    while (!ref.empty()) { if (q.pop().n() != ref[0]) fail("the remaining elements come out in another order"); ref.erase(ref.begin()); } if (!q.empty()) fail("not empty at the end");
}
template <class Cmp> static void prio(int depth, int keys)
{
    typedef stxxl::addressable_priority_queue<K, int, Cmp> Q; typedef typename Q::handle Hn; Q q; std::map<int, int> ref; std::map<int, Hn> h; Cmp c;
    auto best = [&] { int b = -1; for (auto& p : ref) if (b < 0 || c(p.second, ref[b])) b = p.first; return b; };      // smallest key among equal priorities
    auto check = [&] { transition(); if (q.empty() != ref.empty()) fail("empty() is wrong"); if (!ref.empty() && q.top().n() != best()) fail("the top is " + std::to_string(q.top().n()) + " instead of " + std::to_string(best())); uint64_t x = 5; for (auto& p : ref) x = mix(mix(x, p.first), p.second); state(x); if (ref.size() > 1) nontrivial(); };
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(6); if (op == 0) break;
        if (op == 1 || op == 5) { bool self = op == 5; if (self && ref.empty()) continue; int k = self ? best() : choose(keys), p = choose(3); MC_NOTE("insert " << k << " with priority " << p); bool was = ref.count(k); std::pair<Hn, bool> r = self ? q.insert(q.top(), p) : q.insert(K(k), p); ref[k] = p; if (r.second == was) fail("insert reports the wrong novelty"); if (r.first->first.n() != k) fail("insert returns a handle of another element"); h[k] = r.first; }
        if (op == 2) { int k = choose(keys); MC_NOTE("erase " << k); bool was = ref.erase(k); if (q.erase(K(k)) != was) fail("erase reports the wrong presence"); h.erase(k); }
        if (op == 3) { int k = choose(keys); if (!h.count(k)) continue; MC_NOTE("erase by handle " << k); ref.erase(k); q.erase(h[k]); h.erase(k); }
        if (op == 4) { if (ref.empty()) continue; int want = best(); MC_NOTE("pop"); ref.erase(want); h.erase(want); int got = q.pop().n(); if (got != want) fail("pop returns " + std::to_string(got) + " instead of " + std::to_string(want)); outcome(got); }
        check();
    }
    while (!ref.empty()) { int w = best(); ref.erase(w); if (q.pop().n() != w) fail("the remaining elements come out in another order"); } if (!q.empty()) fail("not empty at the end");
}
// ---- vectors of values that can only be swapped
static int g_live;
struct SV { int* p; SV() : p(0) { ++g_live; } ~SV() { delete p; --g_live; } void set(int v) { delete p; p = new int(v); } int get() const { return p ? *p : -1; }
    SV(const SV&) = delete; SV& operator = (const SV&) = delete; void swap(SV& o) { std::swap(p, o.p); } };
static void swap(SV& a, SV& b) { a.swap(b); }
static void swapvec(int depth, int init)
{
    {
        stxxl::swap_vector<SV> a(init), b(1, 3); stxxl::swap_vector<SV>* v[2] = { &a, &b }; std::vector<int> ref[2]; ref[0].assign(init, -1); ref[1].assign(1, -1); int id = 0; for (int i = 0; i < init; ++i) { a[i].set(id); ref[0][i] = id++; } b[0].set(id); ref[1][0] = id++;
        for (int d = 0; d < depth; ++d)
        {
            int op = choose(9); if (op == 0) break; stxxl::swap_vector<SV>& x = *v[0]; std::vector<int>& r = ref[0];
            if (op == 1) { SV s; s.set(id); MC_NOTE("push " << id); x.swap_back(s); r.push_back(id++); }
            if (op == 2) { if (r.empty()) continue; int i = choose((int)r.size()); MC_NOTE("erase " << i); auto it = x.erase(x.begin() + i); if (it != x.begin() + i) fail("erase returns another position"); r.erase(r.begin() + i); }
            if (op == 3) { int i = choose((int)r.size() + 1), j = i + choose((int)r.size() - i + 1); MC_NOTE("erase " << i << ".." << j); if (x.begin() == 0) continue; auto it = x.erase(x.begin() + i, x.begin() + j); if (it != x.begin() + i) fail("erase returns another position"); r.erase(r.begin() + i, r.begin() + j); }
            if (op == 4) { int n = choose(7); MC_NOTE("resize " << n); size_t o = r.size(); x.resize(n); r.resize(n); for (size_t i = o; i < (size_t)n; ++i) { x[i].set(id); r[i] = id++; } }
            if (op == 5) { int n = 1 + choose(3) * 3; MC_NOTE("reserve " << n); x.reserve(n); if (x.capacity() < (size_t)n) fail("capacity after reserve"); }
            if (op == 6) { MC_NOTE("clear"); x.clear(); r.clear(); }
            if (op == 7) { MC_NOTE("swap"); if (choose(2)) x.swap(*v[1]); else std::swap(x, *v[1]); std::swap(ref[0], ref[1]); }
            if (op == 8) { int m = choose(3); MC_NOTE("remove if " << m); std::vector<int> k; for (int e : r) if (e % 3 != m) k.push_back(e); SV* e = stxxl::swap_remove_if(x.begin(), x.end(), [m](const SV& s) { return s.get() % 3 == m; }); if (e - x.begin() != (int)k.size()) fail("swap_remove_if keeps " + std::to_string(e - x.begin()) + " elements instead of " + std::to_string(k.size())); if (e) x.erase(e, x.end()); r = k; }
            transition();
            for (int w = 0; w < 2; ++w)
            {
                const stxxl::swap_vector<SV>& y = *v[w]; if (y.size() != ref[w].size() || y.empty() != ref[w].empty() || y.capacity() < y.size() || (size_t)(y.end() - y.begin()) != y.size()) fail("size is " + std::to_string(y.size()) + " instead of " + std::to_string(ref[w].size()));
                for (size_t i = 0; i < y.size(); ++i) if (y[i].get() != ref[w][i]) fail("element " + std::to_string(i) + " is " + std::to_string(y[i].get()) + " instead of " + std::to_string(ref[w][i]));
                if (y.size() && (y.front().get() != ref[w][0] || y.back().get() != ref[w].back())) fail("front or back");
            }
            uint64_t h = 9; for (int e : r) h = mix(h, e); state(mix(h, x.capacity())); outcome(r.size()); if (r.size() > 1) nontrivial();
        }
    }
    if (g_live) fail(std::to_string(g_live) + " values were not destroyed"); 
}
static void simplevec(int depth)
{
    int n0 = choose(4); stxxl::simple_vector<int> a(n0), b; std::vector<int> ra(n0), rb; for (int i = 0; i < n0; ++i) a[i] = ra[i] = 10 + i;
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(5); if (op == 0) break;
        if (op == 1) { int n = choose(6); MC_NOTE("resize " << n); size_t o = ra.size(); a.resize(n); ra.resize(n); for (size_t i = o; i < (size_t)n; ++i) a[i] = ra[i] = 100 * d + i; }
        if (op == 2) { MC_NOTE("swap"); if (choose(2)) a.swap(b); else std::swap(a, b); std::swap(ra, rb); }
        if (op == 3) { if (ra.empty()) continue; a.memzero(); std::fill(ra.begin(), ra.end(), 0); }
        if (op == 4) { if (ra.empty()) continue; *(a.end() - 1) = ra.back() = -d; }
        transition(); if (a.size() != ra.size() || !std::equal(a.begin(), a.end(), ra.begin()) || b.size() != rb.size() || !std::equal(b.begin(), b.end(), rb.begin())) fail("an array differs"); state(hash_seq(ra)); outcome(ra.size()); if (ra.size() > 1) nontrivial();
    }
}
// ---- tuples of one to six components
template <class T> static std::string show_(const T& t) { std::ostringstream o; o << t; return o.str(); }
template <class T> static void same(const T& t, const T& u, bool eq) { transition(); if ((t == u) != eq || (t != u) == eq) fail("comparison of " + show_(t) + " and " + show_(u)); }
static void tuples()
{
    static const int v[3] = { 0, 1, -7 }; int x[6], y[6]; int diff = choose(64), base = choose(3); bool z = diff == 0; std::string want;
    for (int i = 0; i < 6; ++i) { x[i] = v[(base + i) % 3]; y[i] = diff >> i & 1 ? x[i] + 1 : x[i]; }
    auto w = [&](int n) { std::string s = "("; for (int i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(x[i]); return s + ")"; };
    using stxxl::tuple;
    { tuple<int> t(x[0]), u(y[0]), c; c = t; same(t, u, !(diff & 1)); same(c, t, true); if (t.first != x[0] || show_(t) != w(1)) fail("1-tuple"); }
    { tuple<int, long> t(x[0], x[1]), u(y[0], y[1]), c(t); same(t, u, !(diff & 3)); same(c, t, true); if (t.first != x[0] || t.second != x[1] || show_(t) != w(2)) fail("2-tuple");
      typedef tuple<int, long> T; bool l1 = x[0] < y[0], l2 = x[1] < y[1]; if (stxxl::tuple_less1st<T>()(t, u) != l1 || stxxl::tuple_greater1st<T>()(t, u) != (x[0] > y[0]) || stxxl::tuple_less2nd<T>()(t, u) != l2 || stxxl::tuple_less1st_less2nd<T>()(t, u) != (std::make_pair(x[0], x[1]) < std::make_pair(y[0], y[1])) || stxxl::tuple_less2nd_less1st<T>()(t, u) != (std::make_pair(x[1], x[0]) < std::make_pair(y[1], y[0]))) fail("a tuple order is wrong");
      if (stxxl::tuple_less1st_less2nd<T>()(u, t) != (std::make_pair(y[0], y[1]) < std::make_pair(x[0], x[1])) || stxxl::tuple_less2nd_less1st<T>()(u, t) != (std::make_pair(y[1], y[0]) < std::make_pair(x[1], x[0])) || stxxl::tuple_greater1st<T>()(u, t) != (y[0] > x[0])) fail("a tuple order is wrong");
      if (stxxl::tuple_less1st_less2nd<T>()(t, T::min_value()) || stxxl::tuple_less1st_less2nd<T>()(T::max_value(), t) || stxxl::tuple_greater1st<T>()(t, stxxl::tuple_greater1st<T>::min_value()) || stxxl::tuple_greater1st<T>()(stxxl::tuple_greater1st<T>::max_value(), t) || stxxl::tuple_less2nd<T>()(t, stxxl::tuple_less2nd<T>::min_value()) || stxxl::tuple_less2nd_less1st<T>()(stxxl::tuple_less2nd_less1st<T>::max_value(), t)) fail("a sentinel value of a tuple order is not extreme"); }
    { tuple<int, long, short> t(x[0], x[1], x[2]), u(y[0], y[1], y[2]); same(t, u, !(diff & 7)); if (t.first != x[0] || t.second != x[1] || t.third != x[2] || show_(t) != w(3)) fail("3-tuple"); }
    { tuple<int, long, short, int> t(x[0], x[1], x[2], x[3]), u(y[0], y[1], y[2], y[3]); same(t, u, !(diff & 15)); if (t.fourth != x[3] || t.third != x[2] || show_(t) != w(4)) fail("4-tuple"); }
    { tuple<int, long, short, int, int> t(x[0], x[1], x[2], x[3], x[4]), u(y[0], y[1], y[2], y[3], y[4]); same(t, u, !(diff & 31)); if (t.fifth != x[4] || t.fourth != x[3] || show_(t) != w(5)) fail("5-tuple"); }
    { tuple<int, long, short, int, int, long> t(x[0], x[1], x[2], x[3], x[4], x[5]), u(y[0], y[1], y[2], y[3], y[4], y[5]); same(t, u, z); if (t.sixth != x[5] || t.fifth != x[4] || show_(t) != w(6)) fail("6-tuple");
      typedef tuple<int, long, short, int, int, long> T; T mi = T::min_value(), ma = T::max_value(); if (mi.third != std::numeric_limits<short>::min() || ma.sixth != std::numeric_limits<long>::max() || mi.first != std::numeric_limits<int>::min() || ma.fifth != std::numeric_limits<int>::max()) fail("extreme values of a 6-tuple");
      if (!std::is_same<T::item_type<3>::result, short>::value || !std::is_same<T::item_type<6>::result, long>::value || !std::is_same<T::item_type<1>::result, int>::value) fail("item_type"); }
    outcome(diff); state(mix(diff, base)); if (diff) nontrivial();
}
// ---- integer logarithms and rounding
template <class I> static void logs1(I i)
{
    unsigned f = 0; while (f + 1 < 8 * sizeof(I) && (i >> f >> 1)) ++f; unsigned c = (I)((I)1 << f) == i ? f : f + 1; transition();
    if (stxxl::ilog2_floor(i) != f) fail("ilog2_floor(" + std::to_string(i) + ") is " + std::to_string(stxxl::ilog2_floor(i)) + " instead of " + std::to_string(f));
    if (stxxl::ilog2_ceil(i) != c) fail("ilog2_ceil(" + std::to_string(i) + ") is " + std::to_string(stxxl::ilog2_ceil(i)) + " instead of " + std::to_string(c));
    if (c < 8 * sizeof(I) - (std::is_signed<I>::value ? 1 : 0)) { I p = stxxl::round_up_to_power_of_two(i); if (p != (I)((I)1 << c)) fail("round_up_to_power_of_two(" + std::to_string(i) + ")"); }
    for (unsigned k = 0; k < 8 * sizeof(I) - 2; k += 5) { unsigned __int128 w = (((unsigned __int128)i + ((unsigned __int128)1 << k) - 1) >> k) << k; if (w <= (unsigned __int128)std::numeric_limits<I>::max() && stxxl::round_up_to_power_of_two(i, k) != (I)w) fail("rounding " + std::to_string(i) + " up to a multiple of 2^" + std::to_string(k)); }
    for (I d : { (I)1, (I)2, (I)3, (I)7, (I)64 }) { I q = i / d + (i % d ? 1 : 0); if (stxxl::div_ceil(i, d) != q) fail("div_ceil(" + std::to_string(i) + "," + std::to_string(d) + ")"); }
}
static void logs(int w)
{
    int k = choose(64); uint64_t c = (uint64_t)1 << k; MC_NOTE("around 2^" << k);
    for (int d = -w; d <= w; ++d) { uint64_t i = c + d; if (i == 0 || (k < 20 && d < 0 && i > c)) continue; logs1<unsigned long>(i); if (i <= 0x7fffffffffffffffull) logs1<long>(i); if (i <= 0xffffffffu) logs1<unsigned>(i); if (i <= 0x7fffffffu) logs1<int>(i); if (i <= 0xffff) logs1<unsigned short>(i); if (i <= 255) logs1<unsigned char>(i); }
    outcome(k); state(k); nontrivial();
}
template <unsigned N> struct TL { static void go() { unsigned f = 0; while (N >> f >> 1) ++f; unsigned c = (1u << f) == N ? f : f + 1; if ((unsigned)stxxl::LOG2<N>::floor != f || (unsigned)stxxl::LOG2<N>::ceil != c) fail("LOG2<" + std::to_string(N) + ">"); transition(); TL<N - 1>::go(); } };
template <> struct TL<0> { static void go() { } };
static void heaps(int n)
{   // every array of n values: is it a heap, is it sorted?
    std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(choose(3)); bool h = true, s = true; for (int i = 1; i < n; ++i) { if (v[(i - 1) / 2] < v[i]) h = false; if (v[i] < v[i - 1]) s = false; }
    if (stxxl::is_heap(v.begin(), v.end(), std::less<int>()) != h) fail("is_heap of " + show(v)); if (stxxl::is_sorted(v.begin(), v.end()) != s || stxxl::is_sorted(v.rbegin(), v.rend(), std::greater<int>()) != s) fail("is_sorted of " + show(v)); transition(); outcome(h + 2 * s); state(hash_seq(v)); if (n > 1) nontrivial();
}
struct H : Harness {
    const char* id() override { return "U07"; }
    void init() override { cont::quiet_log(); }
    std::string rule() override { return "all histories of operations (including operations whose argument is an element of the structure itself, and stale or reused handles) up to the depth on both addressable queues, swap_vector and simple_vector, compared with reference structures after every step; tuples of one to six components differing in every subset of components; integer logarithms and roundings in a window around every power of two for every integer type; is_heap and is_sorted on every array of up to 7 values"; }
    void jobs(bool th, std::vector<Job>& out) override
    {
        Opts o; o.max_points = 4000000; auto add = [&](const char* n, std::function<void()> f) { out.push_back(Job { n, f, o }); };
        add("fifo queue", [th] { fifo(th ? 7 : 5, 3); }); add("fifo queue, 5 keys", [th] { fifo(th ? 6 : 4, 5); });
        add("priority queue", [th] { prio<std::less<int> >(th ? 6 : 4, 3); }); add("priority queue, largest first", [th] { prio<std::greater<int> >(th ? 5 : 4, 2); });
        for (int i = 0; i < 4; ++i) out.push_back(Job { "swap_vector " + std::to_string(i), [i, th] { swapvec(th ? 4 : 3, i); }, o });
        add("simple_vector", [th] { simplevec(th ? 6 : 4); }); add("tuples", tuples);
        add("logarithms", [th] { logs(th ? 20000 : 700); }); add("compile-time logarithms", [] { TL<600>::go(); outcome(1); state(1); });
        for (int n = 0; n <= (th ? 9 : 7); ++n) out.push_back(Job { "heaps of " + std::to_string(n), [n] { heaps(n); }, o });
    }
};
MC_MAIN(H)
