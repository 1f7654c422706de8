// A01: external comparison sorting of every range
#include "algo.h"
#include <stxxl/sort>
using namespace mc; using namespace algo;
template <class V, class Less>
static void sort_job(int f, int l, int g, int m, int pat, bool file = false)
{
    cont::Scope sc;
    {
        Ref r(f + l + g);
        for (int i = 0; i < f + l + g; ++i)
        {
            int k = i < f || i >= f + l ? 1000 - i * 13 % 7 * 300 : pat >= 0 ? pattern(pat, i - f, l) : choose(-pat);
            r[i] = std::make_pair(k, i);
        }
        stxxl::file* fl = file ? new stxxl::mem_file(0) : nullptr;
        {
            std::unique_ptr<V> v(file ? new V(fl, r.size()) : new V(r.size()));
            fill(*v, r, 0, 1);
            transition(l ? l : 1);
            MC_NOTE("sort [" << f << "," << f + l << ") of " << r.size() << " with " << m << " blocks: " << show(r));
            Less less;
            stxxl::sort(v->begin() + f, v->begin() + f + l, less, m * V::block_type::raw_size);
            check_range(*v, r, f, l, &less, false, "sort");
            state(mix(mix(f * 64 + l, g * 16 + m), pat));
            if (file) { v.reset(); v.reset(new V(fl, r.size())); check_range(*v, r, f, l, &less, false, "sort, file after closing"); }
        }
        delete fl;
        if (l > m * (int)V::block_type::size) nontrivial();
        outcome(mix(f, l));
    }
    sc.finish();
}
struct H : Harness
{
    const char* id() { return "A01"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "every range start (over two blocks), tail and length up to ten blocks, memory of 2 to 8 blocks (up to four merge passes), ten input patterns each, plus all inputs over small key alphabets for short ranges; ascending and descending comparators, 2-4 records per block; non-trivial: more than one run"; }
    template <class V, class Less> void cfg(std::vector<Job>& out, bool th, const std::string& n, int maxl, int mstep)
    {
        int B = V::block_type::size;
        for (int m = 2; m <= 8; m += mstep)
            for (int l = 0; l <= maxl; l += (l < 3 * B + 2 || th) ? 1 : l + 2 < 6 * B ? 2 : 3)
            {
                if (m > 2 && l * (int)sizeof(typename V::value_type) < m * 4096 && l % 3) continue;
                cont::family(out, n + ".m" + std::to_string(m) + ".l" + std::to_string(l), [=](int d) {
                    int f = choose(B + 2), g = choose(3), gg[] = { 0, 1, B + 1 };
                    int pat = choose(d);
                    if (d < NPAT) pat = (pat * 3 + l) % NPAT;
                    sort_job<V, Less>(f, l, gg[g], m, pat);
                }, th ? NPAT : 8, th ? 6 : 3, 0);
            }
        for (int m : { 2, 4 }) for (int f : { 0, 1 }) for (int l : { 3 * B, 5 * B - 1 })
            cont::family(out, n + ".sched.m" + std::to_string(m) + "f" + std::to_string(f) + "l" + std::to_string(l), [=](int d) { sort_job<V, Less>(f, l, 1, m, 4); }, 0, 0, 1, th ? 2 : 1, 0, 6);
    }
    template <class V, class Less> void exh(std::vector<Job>& out, bool th, const std::string& n, int f, int l, int alpha, int m)
    {
        cont::family(out, n + ".all" + std::to_string(alpha) + "^" + std::to_string(l) + "f" + std::to_string(f) + "m" + std::to_string(m), [=](int d) { sort_job<V, Less>(f, l, 1, m, -alpha); }, 1, 0, 0);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<2048>, 1, stxxl::lru_pager<1>, 4096, stxxl::FR> V2;
        typedef stxxl::vector<Rec<1024>, 2, stxxl::lru_pager<2>, 4096, stxxl::SR> VF;
        cfg<V4, Asc<Rec<1024> > >(out, th, "b4", th ? 40 : 30, 2);
        cfg<V3, Desc<Rec<1360> > >(out, th, "b3", th ? 33 : 24, 3);
        cfg<V2, Asc<Rec<2048> > >(out, th, "b2", th ? 24 : 18, 1);
        for (int f : { 0, 1 }) for (int l : { 6, 7, 8 }) { exh<V2, Asc<Rec<2048> > >(out, th, "b2", f, l, l == 8 ? 2 : 3, 2); exh<V2, Asc<Rec<2048> > >(out, th, "b2", f, l + 1, 2, 3); }
        for (int f : { 0, 2 }) exh<V3, Desc<Rec<1360> > >(out, th, "b3", f, th ? 12 : 9, 2, 2);
        for (int f : { 0, 1, 4 }) for (int l : { 5, 8, 12, 17, 24 }) for (int g : { 0, 1, 4 }) for (int m : { 2, 3 })
            cont::family(out, "file.f" + std::to_string(f) + "l" + std::to_string(l) + "g" + std::to_string(g) + "m" + std::to_string(m), [=](int d) { int p = choose(d); sort_job<VF, Asc<Rec<1024> > >(f, l, g, m, p * 3 % 10, true); }, 4, 2, 0);
    }
};
MC_MAIN(H)
