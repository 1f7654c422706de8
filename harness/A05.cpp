// A05: random shuffling permutes the range
#include "algo.h"
#include <stxxl/random_shuffle>
using namespace mc; using namespace algo;
// the random source: every outcome is explored around a base stream
struct Rnd
{
    unsigned s; int nchoice; bool choices;
    Rnd(unsigned seed, int n) : s(seed), nchoice(n) { }
    unsigned next(unsigned n)
    {
        if (n == 0) return 0;
        s = s * 1664525u + 1013904223u; unsigned v = (s >> 8) % n;
        if (s == 0) v = 0;
        if (nchoice > 0 && n > 1) { --nchoice; int lim = n > 4 ? 4 : n; return (v + (unsigned)deviate(lim) * (n > 4 ? n / 4 : 1)) % n; }
        return v;
    }
    template <class I> I operator () (I n) { return (I)next((unsigned)n); }
};
struct RndC { unsigned v; int left; Rnd rest; RndC(unsigned v_, int l) : v(v_), left(l), rest(v_ + 5, 0) { } template <class I> I operator () (I n) { if (left-- > 0) return n ? (I)(v % (unsigned)n) : 0; return rest(n); } };   // the same outcome for every element of the first distribution (for ever would recurse for ever)
template <class V, class R>
static void shuffle_job(int f, int l, int g, int m, R rnd, unsigned tag)
{
    cont::Scope sc;
    {
        Ref r(f + l + g); for (size_t i = 0; i < r.size(); ++i) r[i] = std::make_pair((int)i / 2, (int)i);
        std::vector<int> res[2]; unsigned same = 0;
        MC_NOTE("random_shuffle [" << f << "," << f + l << ") of " << r.size() << " with " << m << " blocks, source " << tag);
        V v(r.size()); fill(v, r, 0, 1); transition(l + 1);
        stxxl::random_shuffle(v.begin() + f, v.begin() + f + l, rnd, m * V::block_type::raw_size);
        struct NoLess { bool operator () (const typename V::value_type&, const typename V::value_type&) const { return false; } };
        check_range(v, r, f, l, (NoLess*)nullptr, false, "random_shuffle");
        uint64_t h = mix(f * 64 + l, m); const V& c = v; for (size_t i = 0; i < r.size(); ++i) h = mix(h, c[i].id);
        state(h); outcome(h); if (l > m) nontrivial();
    }
    sc.finish();
}
struct H : Harness
{
    const char* id() { return "A05"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "every range start, tail and length up to eight blocks, three memory sizes, four base streams of the random source with up to two deviating outcomes, and constant outcomes that put everything into one bucket (recursion); non-trivial: more elements than blocks of memory"; }
    template <class V> void cfg(std::vector<Job>& out, bool th, const std::string& n, int maxl, int step)
    {
        int B = V::block_type::size;
        for (int m : { 7, 9, 12 })
            for (int l = 0; l <= maxl; l += l < 2 * B + 2 ? 1 : step)
            {
                std::string nm = n + ".m" + std::to_string(m) + ".l" + std::to_string(l);
                cont::family(out, nm, [=](int d) { int f = choose(B + 1), g = choose(3), gg[] = { 0, 1, B + 1 }; int s = choose(2); shuffle_job<V>(f, l, gg[g], m, Rnd(s * 77 + l, d), s); }, th ? 24 : 12, 4, 0, 1, 1);
                cont::family(out, nm + ".const", [=](int d) { int f = choose(B + 1), g = choose(2); static const unsigned vs[] = { 0, 1, 2, 3, 0xffffffffu }; RndC c(vs[choose(5)], l * (1 + choose(2))); shuffle_job<V>(f, l, g, m, c, 100 + c.v); }, 1, l % 3 == 0, 0);
            }
        for (int l : { 3 * B, 4 * B + 1 }) cont::family(out, n + ".sched.l" + std::to_string(l), [=](int d) { shuffle_job<V>(1, l, 2, 7, Rnd(3, 0), 3); }, 0, 0, 1, 1, 0, 4);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<2048>, 3, stxxl::lru_pager<2>, 4096> V2;
        cfg<V4>(out, th, "b4", th ? 64 : 44, th ? 3 : 5);
        cfg<V3>(out, th, "b3", th ? 48 : 30, 3);
        cfg<V2>(out, th, "b2", th ? 48 : 32, 3);
    }
};
MC_MAIN(H)
