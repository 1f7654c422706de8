// A03: stable key sort
#include "algo.h"
#include <stxxl/stable_ksort>
using namespace mc; using namespace algo;
template <class T> struct KeyLess { bool operator () (const T& a, const T& b) const { return (unsigned)a.k < (unsigned)b.k; } };
// keys spread over the buckets: the bucket of an element is its top bits; nb buckets hold at most cap elements each
template <class V>
static void sort_job(int f, int l, int g, int m, int mode)
{
    typedef typename V::value_type T;
    cont::Scope sc;
    {
        int nb = 1; while (nb * 2 <= m - 8) nb *= 2;
        int cap = (m - 4) / 2 * (int)V::block_type::size; std::vector<int> fill_(nb, 0);
        Ref r(f + l + g);
        int sh = 32; for (int x = nb; x > 1; x /= 2) --sh;
        for (int i = 0; i < f + l + g; ++i)
        {
            unsigned k;
            if (i < f || i >= f + l) k = 99;
            else if (mode < 0) k = (unsigned)choose(-mode) * (0xffffffffu / (-mode - 1 ? -mode - 1 : 1));
            else
            {
                int j = i - f, p = mode % 8; unsigned b, low;
                switch (p) { case 0: b = j; low = j; break; case 1: b = l - j; low = l - j; break; case 2: b = j / 2; low = 5; break; case 3: b = j; low = 3; break;
                case 4: b = j * 5 / 3; low = j % 3; break; case 5: b = 1 + j % (nb > 1 ? nb - 1 : 1); low = j % 2 ? 0xffffff : 0; break; case 6: b = 0; low = l - j; break; default: b = j % 2 * (nb - 1); low = j / 4; }
                k = (b % nb) << sh | ((low * (mode >= 8 ? 0x1234567u : 1u)) & ((1u << sh) - 1));
            }
            if (i >= f && i < f + l && ++fill_[k >> sh] > cap) { --fill_[k >> sh]; k = (unsigned)nb << sh; for (unsigned b = 0; b < (unsigned)nb; ++b) if (fill_[b] < cap) { k = b << sh; ++fill_[b]; break; } }
            r[i] = std::make_pair((int)k, i);
        }
        int tot = 0; for (int x : fill_) tot += x;
        if (tot == l)
        {
            V v(r.size()); fill(v, r, 0, 1); transition(l ? l : 1);
            MC_NOTE("stable_ksort [" << f << "," << f + l << ") of " << r.size() << " with " << m << " blocks: " << show(r));
            KeyLess<T> less;
            stxxl::stable_ksort(v.begin() + f, v.begin() + f + l, m * V::block_type::raw_size);
            check_range(v, r, f, l, &less, true, "stable_ksort");
            state(mix(mix(f * 64 + l, g * 16 + m), mode)); nontrivial(); outcome(mix(f, l));
        }
    }
    sc.finish();
}
struct H : Harness
{
    const char* id() { return "A03"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "every range start, tail and length up to the capacity of the buckets, 2 to 8 buckets, sixteen key patterns including empty and one-element buckets, all inputs over small key alphabets for short ranges; non-trivial: sorted"; }
    template <class V> void cfg(std::vector<Job>& out, bool th, const std::string& n)
    {
        int B = V::block_type::size;
        for (int m : { 10, 12, 16 })
            for (int l = 0; l <= (th ? 30 : 24); l += l < 2 * B + 2 || th ? 1 : 2)
                cont::family(out, n + ".m" + std::to_string(m) + ".l" + std::to_string(l), [=](int d) {
                    int f = choose(B + 2), g = choose(3), gg[] = { 0, 1, B + 1 };
                    sort_job<V>(f, l, gg[g], m, (choose(d) * 3 + l) % 16);
                }, th ? 16 : 8, th ? 6 : 2, 0);
        for (int l = 1; l <= (th ? 8 : 6); ++l) for (int f : { 0, 1 })
            cont::family(out, n + ".all.l" + std::to_string(l) + "f" + std::to_string(f), [=](int d) { sort_job<V>(f, l, 1, 12, -4); }, 1, 0, 0);
        for (int l : { 7, 12 }) cont::family(out, n + ".sched.l" + std::to_string(l), [=](int d) { sort_job<V>(1, l, 2, 10, 3); }, 0, 0, 1, 1, 0, 4);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<64>, 1, stxxl::lru_pager<2>, 4096> V64;
        cfg<V4>(out, th, "b4");
        cfg<V3>(out, th, "b3");
        for (int l : { 64, 100, 128, 150, 200, 256 }) for (int m : { 10, 12, 16 })
            cont::family(out, "b64.l" + std::to_string(l) + "m" + std::to_string(m), [=](int d) { int f = choose(2), mode = choose(16); sort_job<V64>(f * 5, l, 3, m, mode); }, 1, 1, 0);
    }
};
MC_MAIN(H)
