// A02: external sorting by integer key, and its internal building blocks
#include "algo.h"
#include <stxxl/ksort>
#include <stxxl/bits/algo/intksort.h>
using namespace mc; using namespace algo;
// keys are unsigned over the whole range; the order of records is that of key()
template <class T> struct KeyLess { bool operator () (const T& a, const T& b) const { return (unsigned)a.k < (unsigned)b.k; } };
template <class T> struct Ex { typedef unsigned key_type; key_type operator () (const T& a) const { return a.key(); } T min_value() const { return T(0, -1); } T max_value() const { return T(-1, -2); } };
template <class T> struct Ex64 { typedef stxxl::uint64 key_type; key_type operator () (const T& a) const { return (key_type(a.key()) << 32) | 5; } T min_value() const { return T(0, -1); } T max_value() const { return T(-1, -2); } };
template <class T> struct Key4 { typedef unsigned key_type; };
template <class V>
static void sort_job(int f, int l, int g, int m, int pat, int scale, bool file = false)
{
    typedef typename V::value_type T;
    cont::Scope sc;
    {
        Ref r(f + l + g);
        static const int mul[] = { 1, 40000000, 12582917, 0x01010101 };
        for (int i = 0; i < f + l + g; ++i)
        {
            unsigned k = i < f || i >= f + l ? 1000u + i * 1357924680u : pat >= 0 ? (unsigned)(pattern(pat, i - f, l) + 2000) * (unsigned)mul[scale & 3] : 5u + (unsigned)choose(-pat) * 0x55555500u;
            if (k == 0) k = 1; if (k == ~0u) k = 7;
            r[i] = std::make_pair((int)k, i);
        }
        stxxl::file* fl = file ? new stxxl::mem_file(0) : nullptr;
        {
            std::unique_ptr<V> v(file ? new V(fl, r.size()) : new V(r.size()));
            fill(*v, r, 0, 1);
            transition(l ? l : 1);
            MC_NOTE("ksort [" << f << "," << f + l << ") of " << r.size() << " with " << m << " blocks: " << show(r));
            KeyLess<T> less;
            if (scale & 4) stxxl::ksort(v->begin() + f, v->begin() + f + l, Ex<T>(), m * V::block_type::raw_size);
            else if (scale & 8) stxxl::ksort(v->begin() + f, v->begin() + f + l, Ex64<T>(), m * V::block_type::raw_size);
            else stxxl::ksort(v->begin() + f, v->begin() + f + l, m * V::block_type::raw_size);
            check_range(*v, r, f, l, &less, false, "ksort");
            if (file) { v.reset(); v.reset(new V(fl, r.size())); check_range(*v, r, f, l, &less, false, "ksort, file after closing"); }
            state(mix(mix(f * 64 + l, g * 16 + m), pat * 16 + scale));
        }
        delete fl;
        if (l > m * (int)V::block_type::size) nontrivial();
        outcome(mix(f, l));
    }
    sc.finish();
}
// classify / l1sort: order of pointers is that of a stable key sort
static void internal(int n, int nkeys, int log_k1, int log_k2, int keybits)
{
    std::vector<Rec<64> > a; std::vector<std::pair<unsigned, int> > ref;
    unsigned shiftv = keybits - 3;
    for (int i = 0; i < n; ++i) { unsigned k = (unsigned)choose(nkeys) << shiftv | (i % 2 && nkeys < 8 ? 1u : 0u); a.push_back(Rec<64>((int)k, i)); ref.push_back(std::make_pair(k, i)); }
    std::stable_sort(ref.begin(), ref.end(), [](const std::pair<unsigned, int>& x, const std::pair<unsigned, int>& y) { return x.first < y.first; });
    typedef stxxl::ksort_local::type_key<Rec<64>, unsigned> tk;
    std::vector<tk> r1(n + 1), r2(n + 1); unsigned k1 = 1u << log_k1, k2 = 1u << log_k2; std::vector<stxxl::int_type> b1(k1 + 1, 0), b2(k2 + 1, 0);
    unsigned shift1 = keybits - log_k1;
    tk* p = &r1[0];
    stxxl::classify_block(a.data(), a.data() + n, p, &b1[0], 0u, shift1, Ex<Rec<64> >());
    stxxl::exclusive_prefix_sum(&b1[0], (stxxl::int_type)k1);
    stxxl::classify(&r1[0], &r1[0] + n, &r2[0], &b1[0], 0u, shift1);
    tk* c = &r2[0]; tk* d = &r1[0]; std::vector<std::pair<unsigned, int> > got;
    for (unsigned i = 0; i < k1; ++i)
    {
        tk* cEnd = &r2[0] + b1[i]; tk* dEnd = &r1[0] + b1[i];
        stxxl::l1sort(c, cEnd, d, &b2[0], (stxxl::int_type)k2, (unsigned)(shift1 >= 32 ? 0 : i << shift1), shift1 - log_k2);
        for (tk* q = d; q < dEnd; ++q) got.push_back(std::make_pair((unsigned)q->ptr->k, q->ptr->id));
        c = cEnd; d = dEnd;
    }
    transition(n); nontrivial();
    MC_CHECK((int)got.size() == n, "internal key sort lost elements: " << got.size() << " of " << n);
    for (int i = 0; i < n; ++i) { MC_CHECK(got[i].first == ref[i].first, "internal key sort: key " << got[i].first << " at " << i << " instead of " << ref[i].first); }
    std::sort(got.begin(), got.end()); std::sort(ref.begin(), ref.end()); MC_CHECK(got == ref, "internal key sort: not a permutation");
    uint64_t h = n; for (auto& x : got) h = mix(h, x.first); state(h);
}
struct H : Harness
{
    const char* id() { return "A02"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "every range start (over two blocks), tail and length up to ten blocks, memory of 2 to 8 blocks, ten patterns at four key scales over the whole 32-bit range, three ways to give the key; all inputs over small key alphabets for short ranges; file-mapped vectors; all inputs for the internal bucket sort; non-trivial: more than one run"; }
    template <class V> void cfg(std::vector<Job>& out, bool th, const std::string& n, int maxl, int mstep)
    {
        int B = V::block_type::size;
        for (int m = 2; m <= 8; m += mstep)
            for (int l = 0; l <= maxl; l += (l < 3 * B + 2 || th) ? 1 : l + 2 < 6 * B ? 2 : 3)
            {
                if (m > 2 && l * (int)sizeof(typename V::value_type) < m * 4096 && l % 3) continue;
                cont::family(out, n + ".m" + std::to_string(m) + ".l" + std::to_string(l), [=](int d) {
                    int f = choose(B + 2), g = choose(3), gg[] = { 0, 1, B + 1 };
                    int pat = choose(d);
                    if (d < NPAT) pat = (pat * 3 + l) % NPAT;
                    sort_job<V>(f, l, gg[g], m, pat, (f + l + pat) % 12);
                }, th ? NPAT : 8, th ? 6 : 3, 0);
            }
        for (int m : { 2, 4 }) for (int f : { 0, 1 }) for (int l : { 3 * B, 5 * B - 1 })
            cont::family(out, n + ".sched.m" + std::to_string(m) + "f" + std::to_string(f) + "l" + std::to_string(l), [=](int d) { sort_job<V>(f, l, 1, m, 4, m); }, 0, 0, 1, th ? 2 : 1, 0, 6);
    }
    template <class V> void exh(std::vector<Job>& out, const std::string& n, int f, int l, int alpha, int m)
    {
        cont::family(out, n + ".all" + std::to_string(alpha) + "^" + std::to_string(l) + "f" + std::to_string(f) + "m" + std::to_string(m), [=](int d) { sort_job<V>(f, l, 1, m, -alpha, f * 4); }, 1, 0, 0);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<2048>, 1, stxxl::lru_pager<1>, 4096, stxxl::FR> V2;
        typedef stxxl::vector<Rec<1024>, 2, stxxl::lru_pager<2>, 4096, stxxl::SR> VF;
        typedef stxxl::vector<Rec<16>, 1, stxxl::lru_pager<2>, 4096> V256;
        cfg<V4>(out, th, "b4", th ? 40 : 30, 2);
        cfg<V3>(out, th, "b3", th ? 33 : 24, 3);
        cfg<V2>(out, th, "b2", th ? 24 : 18, 1);
        for (int f : { 0, 1 }) for (int l : { 6, 7, 8 }) { exh<V2>(out, "b2", f, l, l == 8 ? 2 : 3, 2); exh<V2>(out, "b2", f, l + 1, 2, 3); }
        for (int f : { 0, 2 }) exh<V3>(out, "b3", f, th ? 12 : 9, 2, 2);
        for (int f : { 0, 1, 4 }) for (int l : { 5, 8, 12, 17, 24 }) for (int g : { 0, 1, 4 }) for (int m : { 2, 3 })
            cont::family(out, "file.f" + std::to_string(f) + "l" + std::to_string(l) + "g" + std::to_string(g) + "m" + std::to_string(m), [=](int d) { int p = choose(d); sort_job<VF>(f, l, g, m, p * 3 % 10, p % 12, true); }, 4, 2, 0);
        // many records per block: the bucket sort works on buckets of different size
        for (int l : { 500, 513, 767, 1024, 1300 }) for (int m : { 2, 4 })
            cont::family(out, "b256.l" + std::to_string(l) + "m" + std::to_string(m), [=](int d) { int f = choose(3), fs[] = { 0, 1, 255 }; int pat = choose(NPAT), sc = choose(4); sort_job<V256>(fs[f], l, 3, m, pat, sc); }, 1, l < 600 ? 1 : 0, 0);
        for (int n = 0; n <= (th ? 9 : 7); ++n) for (int k1 : { 1, 2, 3 }) for (int k2 : { 1, 2 }) for (int kb : { 32, 6 })
        { Job j; j.name = "bucket.n" + std::to_string(n) + "k" + std::to_string(k1) + std::to_string(k2) + "b" + std::to_string(kb); j.body = [=] { internal(n, n > 5 ? 4 : 8, k1, k2, kb); }; out.push_back(j); }
    }
};
MC_MAIN(H)
