// A04: for_each, for_each_m, generate, find on external ranges
#include "algo.h"
#include <stxxl/scan>
using namespace mc; using namespace algo;
template <class T> struct Visit { std::vector<int>* ids; int* calls; void operator () (const T& e) { if (!e.ok()) mc::fail("for_each: damaged record"); ids->push_back(e.id); ++*calls; } };
template <class T> struct Modify { std::vector<int>* ids; int add; int n; void operator () (T& e) { if (!e.ok()) mc::fail("for_each_m: damaged record"); ids->push_back(e.id); e = T(e.k + add + n, e.id); ++n; } };
template <class T> struct Store { int base; int n; void operator () (T& e) { e = T(base + n, n); ++n; } };
template <class T> struct Gen { int base; int* n; T operator () () { T t(base + *n, *n + 500); ++*n; return t; } };
enum { FOREACH, FOREACH_M, GENERATE, FIND, NOPS };
template <class V> static void check_all(const V& c, const Ref& r, const std::vector<bool>& init, const char* what)
{
    MC_CHECK(c.size() == r.size(), what << ": size of the vector changed to " << c.size());
    for (size_t i = 0; i < r.size(); ++i) if (init[i])
    {
        typename V::value_type e = c[i];
        MC_CHECK(e.ok() && e.k == r[i].first && e.id == r[i].second, what << ": element " << i << " of " << r.size() << " is " << e << (e.ok() ? "" : " (damaged)") << " instead of " << r[i].first << "/" << r[i].second);
    }
}
// one scan; init: which elements have defined values
template <class V> static void scan(V& v, Ref& r, std::vector<bool>& init, int op, int f, int l, int nb, int step)
{
    typedef typename V::value_type T;
    typedef typename V::iterator It;
    It b = v.begin() + f, e = v.begin() + f + l;
    std::vector<int> ids; int calls = 0;
    switch (op)
    {
    case FOREACH:
    {
        MC_NOTE("for_each [" << f << "," << f + l << ") of " << r.size() << " nbuffers " << nb); transition(l + 1);
        Visit<T> fn = { &ids, &calls };
        if (step % 2) { const V& c = v; fn = stxxl::for_each(c.begin() + f, c.begin() + f + l, fn, nb); } else fn = stxxl::for_each(b, e, fn, nb);
        MC_CHECK((int)ids.size() == l, "for_each visited " << ids.size() << " elements instead of " << l);
        for (int i = 0; i < l; ++i) MC_CHECK(ids[i] == r[f + i].second, "for_each: visit " << i << " saw element " << ids[i] << " instead of " << r[f + i].second);
        break;
    }
    case FOREACH_M:
    {
        MC_NOTE("for_each_m [" << f << "," << f + l << ") of " << r.size() << " nbuffers " << nb); transition(l + 1);
        Modify<T> fn = { &ids, 1000 * (step + 1), 0 };
        fn = stxxl::for_each_m(b, e, fn, nb);
        MC_CHECK(fn.n == l && (int)ids.size() == l, "for_each_m visited " << fn.n << " elements instead of " << l);
        for (int i = 0; i < l; ++i) { MC_CHECK(ids[i] == r[f + i].second, "for_each_m: visit " << i << " saw element " << ids[i] << " instead of " << r[f + i].second); r[f + i].first += 1000 * (step + 1) + i; }
        break;
    }
    case GENERATE:
    {
        MC_NOTE("generate [" << f << "," << f + l << ") of " << r.size() << " nbuffers " << nb); transition(l + 1);
        int n = 0; Gen<T> g = { 5000 * (step + 1), &n };
        stxxl::generate(b, e, g, nb);
        MC_CHECK(n == l, "generate called the generator " << n << " times for " << l << " elements");
        for (int i = 0; i < l; ++i) { r[f + i] = std::make_pair(5000 * (step + 1) + i, i + 500); init[f + i] = true; }
        break;
    }
    case FIND:
        for (int w = 0; w < 4; ++w)
        {
            // first, middle, behind the range, absent
            int at = w == 0 ? f : w == 1 ? f + l / 2 : w == 2 ? f + l : -1;
            if (w < 2 && l == 0) continue;
            if (at >= (int)r.size() || (at < 0 && w < 3)) continue;
            T x = at < 0 ? T(-77, -77) : T(r[at].first, r[at].second);
            MC_NOTE("find in [" << f << "," << f + l << ") of " << r.size() << " nbuffers " << nb << ": " << x);
            It it = stxxl::find(b, e, x, nb); transition(l + 1);
            int want = f + l; for (int i = f; i < f + l; ++i) if (at >= 0 && r[i] == r[at]) { want = i; break; }
            MC_CHECK(it - v.begin() == want, "find returned position " << (it - v.begin()) << " instead of " << want);
        }
        break;
    }
}
template <class V> static void history(int n, int depth, int op0, bool full)
{
    typedef typename V::value_type T;
    cont::Scope sc;
    {
        int B = V::block_type::size;
        V v(n); Ref r(n); std::vector<bool> init(n, false);
        for (int i = 0; i < n; ++i) r[i] = std::make_pair(i / 2 * 10, i % 2 ? i : i);
        // how much of the vector has been written before the first scan
        int pre = full ? 0 : choose(3);
        if (pre == 0) for (int i = 0; i < n; ++i) { v[i] = T(r[i].first, r[i].second); init[i] = true; }
        if (pre == 1) for (int i = 0; i < n / 2; ++i) { v[i] = T(r[i].first, r[i].second); init[i] = true; }
        MC_NOTE("vector of " << n << (pre == 0 ? " written" : pre == 1 ? " first half written" : " unwritten"));
        if (n > 0 && init[0] && !full && choose(2)) { const V& c = v; (void)c[0]; v.flush(); MC_NOTE("flushed"); }
        for (int s = 0; s < depth; ++s)
        {
            int op = s == 0 ? op0 : choose(NOPS);
            int f, l;
            if (full || s == 0) { f = choose(n < 2 * B + 1 ? n + 1 : 2 * B + 1); l = choose(n - f + 1); }
            else { int fs[] = { 0, 1, B, n / 2 }; f = std::min(n, fs[choose(4)]); int k = choose(4); l = k == 0 ? n - f : k == 1 ? (n - f) / 2 : k == 2 ? std::min(B, n - f) : std::min(1, n - f); }
            bool defd = true; for (int i = f; i < f + l; ++i) defd = defd && init[i];
            static const int nbs[] = { 0, 2, 3, 5 };
            int nb = nbs[full ? choose(n > 3 * B ? 2 : 4) : s == 0 ? choose(3) : choose(2)];
            if (op != GENERATE && !defd)
            {
                if (op != FOREACH_M) return;
                // a mutating scan that stores every element defines the range
                MC_NOTE("for_each_m storing into unwritten [" << f << "," << f + l << ") of " << r.size() << " nbuffers " << nb); transition(l + 1);
                Store<T> fn = { 9000, 0 };
                fn = stxxl::for_each_m(v.begin() + f, v.begin() + f + l, fn, nb);
                MC_CHECK(fn.n == l, "for_each_m visited " << fn.n << " elements instead of " << l);
                for (int i = 0; i < l; ++i) { r[f + i] = std::make_pair(9000 + i, i); init[f + i] = true; }
            }
            else scan(v, r, init, op, f, l, nb, s);
            if (s + 1 == depth || full) check_all(v, r, init, "after the scan");
            state(mix(mix(f * 64 + l, n), op)); outcome(mix(mix(f, l), mix(op, nb)));
            if (f % B && (f + l) % B && l > B) nontrivial();
        }
    }
    sc.finish();
}
struct H : Harness
{
    const char* id() { return "A04"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "for every scan: every range start within the first two blocks, every length of vectors of up to seven blocks, four buffer counts; histories of two and three scans over written, half written, unwritten and flushed vectors; non-trivial: a range of more than one block that neither starts nor ends at a block boundary"; }
    template <class V> void cfg(std::vector<Job>& out, bool th, const std::string& nm)
    {
        int B = V::block_type::size;
        for (int op = 0; op < NOPS; ++op)
        {
            std::string o = nm + ".op" + std::to_string(op);
            for (int n = 0; n <= (th ? 12 : 7) * B; n += n < 3 * B || th ? 1 : B - 1)
                cont::family(out, o + ".n" + std::to_string(n), [=](int d) { history<V>(n, 1, op, true); }, 1, 1, 0);
            for (int n : { 2 * B - 1, 3 * B, 5 * B + 1 })
                cont::family(out, o + ".h.n" + std::to_string(n), [=](int d) { history<V>(n, d, op, false); }, th ? 3 : n < 3 * B && B > 2 ? 2 : n < 5 * B ? 1 : 0, th ? 2 : 1, 0);
            for (int n : { 4 * B + 1 })
                cont::family(out, o + ".sched.n" + std::to_string(n), [=](int d) {
                    cont::Scope sc;
                    { V v(n); Ref r(n); std::vector<bool> init(n, true); for (int i = 0; i < n; ++i) { r[i] = std::make_pair(i, i); } fill(v, r, 0, 1);
                      int f = choose(2); scan(v, r, init, op, f, n - f - choose(2), 2, 0); check_all(v, r, init, "after the scan"); nontrivial(); }
                    sc.finish();
                }, 0, 0, 1, th ? 2 : 1, 0, 4);
        }
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<2048>, 3, stxxl::lru_pager<2>, 4096> V2;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::random_pager<3>, 4096> VR;
        cfg<V4>(out, th, "b4");
        cfg<V3>(out, th, "b3");
        cfg<V2>(out, th, "b2");
        if (th) cfg<VR>(out, th, "r3");
    }
};
MC_MAIN(H)
