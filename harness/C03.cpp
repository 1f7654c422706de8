// C03: buffered vector readers and writers: every range, buffer count, position of switching, several I/O timings
#include "cont.h"
#include <stxxl/vector>
using namespace mc;
using cont::El; using cont::check_el;

template <class V>
struct T3
{
    typedef typename V::value_type T;
    enum { B = V::block_type::size };
    struct Pair { V v; std::vector<int> r; Pair(size_t n, unsigned np) : v(n, np), r(n, -1) { } };
    static void all(Pair& p, const char* what)
    {
        const V& c = p.v;
        MC_CHECK(c.size() == p.r.size(), what << ": size " << c.size() << " instead of " << p.r.size());
        for (size_t i = 0; i < p.r.size(); ++i) if (p.r[i] >= 0) check_el(c[i], p.r[i], what);
    }
    // prepare a vector whose elements 0..known-1 are set, in one of several cache states
    static void prep(Pair& p, size_t known, int cache)
    {
        for (size_t i = 0; i < known; ++i) { p.v[i] = T(1000 + (int)i); p.r[i] = 1000 + (int)i; }
        if (cache == 0) p.v.flush();                                  // everything on disk, nothing cached
        else if (cache == 1 && known) { const V& c = p.v; p.v.flush(); T x = c[0]; x = c[known / 2]; (void)x; }   // clean pages in the cache
        // cache == 2: dirty pages stay in the cache
    }
    // write k elements from position pos, growing if necessary, mode of use of the writer
    static void write(size_t n, unsigned np, bool known, int cache, size_t pos, size_t k, unsigned nbuf, int mode)
    {
        cont::Scope sc;
        {
            Pair p(n, np);
            prep(p, known ? n : 0, cache);
            MC_NOTE("size " << n << " cache state " << cache << " write " << k << " from " << pos << " with " << nbuf << " buffers mode " << mode);
            typedef stxxl::vector_bufwriter<typename V::iterator> W;
            {
                W* w = (pos == 0 && mode == 1) ? new W(p.v, nbuf) : new W(p.v.begin() + pos, nbuf);
                for (size_t i = 0; i < k; ++i)
                {
                    T x(5000 + (int)i);
                    if (mode == 2) { *(*w) = x; ++(*w); } else (*w) << x;
                    transition();
                    if (pos + i < p.r.size()) p.r[pos + i] = x.k; else p.r.push_back(x.k);
                    if (mode == 3 && i + 1 == k / 2) w->finish();     // finish and go on
                }
                if (mode != 4) w->finish();
                delete w;
            }
            state(mix(mix(n * 100 + pos, k), mix(nbuf * 8 + mode, cache * 2 + known)));
            all(p, "after buffered writing");
            // the vector stays usable through its cache
            if (!p.r.empty()) { p.v[p.r.size() / 2] = T(77); p.r[p.r.size() / 2] = 77; p.v.push_back(T(78)); p.r.push_back(78); }
            p.v.flush();
            all(p, "after flush");
            if (k) nontrivial();
            outcome(hash_seq(p.r, nbuf));
        }
        sc.finish();
    }
    template <class R>
    static void readseq(R& r, std::vector<int> want, int mode, size_t stop)
    {
        for (size_t i = 0; i < want.size(); ++i)
        {
            if (i == stop) return;
            MC_CHECK(!r.empty(), "reader empty after " << i << " of " << want.size());
            MC_CHECK(r.size() == want.size() - i, "remaining size " << r.size() << " instead of " << want.size() - i);
            transition();
            if (mode == 1) { T x; r >> x; check_el(x, want[i], "reader >>"); }
            else { check_el(*r, want[i], "reader *"); MC_CHECK(r->k == want[i], "reader ->"); ++r; }
        }
        MC_CHECK(r.empty() && r.size() == 0, "reader not empty at the end");
    }
    static void read(size_t n, unsigned np, int cache, size_t b, size_t e, unsigned nbuf, int mode, bool rev)
    {
        cont::Scope sc;
        {
            Pair p(n, np);
            prep(p, n, cache);
            MC_NOTE((rev ? "reverse " : "") << "read [" << b << "," << e << ") of " << n << " cache state " << cache << " buffers " << nbuf << " mode " << mode);
            std::vector<int> want(p.r.begin() + b, p.r.begin() + e);
            if (rev) std::reverse(want.begin(), want.end());
            state(mix(mix(n * 100 + b, e), mix(nbuf * 8 + mode, cache * 2 + rev)));
            if (!rev)
            {
                typedef stxxl::vector_bufreader<typename V::const_iterator> R;
                const V& cv = p.v;
                R* r = (mode == 2 && b == 0 && e == n) ? new R(cv, nbuf) : new R(cv.begin() + b, cv.begin() + e, nbuf);
                if (mode == 3) { readseq(*r, want, 0, want.size() / 2); r->rewind(); }
                if (mode == 4) { size_t i = 0; for (typename R::bufreader_iterator it = r->begin(); it != r->end(); ++it, ++i) { MC_CHECK(i < want.size(), "range loop too long"); check_el(*it, want[i], "range loop"); } MC_CHECK(i == want.size(), "range loop length " << i); }
                else if (mode == 5) readseq(*r, want, 0, want.size() / 2);   // destroyed half way
                else readseq(*r, want, mode, size_t(-1));
                if (mode == 0) { r->rewind(); readseq(*r, want, 1, size_t(-1)); }
                delete r;
            }
            else
            {
                typedef stxxl::vector_bufreader_reverse<typename V::const_iterator> R;
                const V& cv = p.v;
                R* r = (mode == 2 && b == 0 && e == n) ? new R(cv, nbuf) : new R(cv.begin() + b, cv.begin() + e, nbuf);
                if (mode == 3) { readseq(*r, want, 0, want.size() / 2); r->rewind(); }
                if (mode == 5) readseq(*r, want, 0, want.size() / 2);
                else readseq(*r, want, mode, size_t(-1));
                if (mode == 0) { r->rewind(); readseq(*r, want, 1, size_t(-1)); }
                delete r;
            }
            all(p, "after reading");
            if (e > b) nontrivial();
        }
        sc.finish();
    }
    // a reader and a writer on different vectors, copy through them (overlapped I/O of both)
    static void copy(size_t n, unsigned nb1, unsigned nb2)
    {
        cont::Scope sc;
        {
            Pair p(n, 2), q(0, 2);
            prep(p, n, 2);
            {
                stxxl::vector_bufreader<typename V::iterator> r(p.v.begin(), p.v.end(), nb1);
                stxxl::vector_bufwriter<typename V::iterator> w(q.v.begin(), nb2);
                while (!r.empty()) { w << *r; ++r; transition(); }
                w.finish();
            }
            q.r = p.r;
            all(p, "source"); all(q, "copy"); nontrivial(); state(mix(n, nb1 * 8 + nb2));
        }
        sc.finish();
    }
};

struct H : Harness
{
    const char* id() { return "C03"; }
    void init() { cont::setup(2); }
    std::string rule() { return "every (size, range, buffer count, cache state, mode) of buffered reading (forward, reverse, rewind, range loop, abandoned) and writing (in place, growing, finish and continue) on vectors of up to 3-4 blocks; lazy and eager I/O, and all schedules with one preemption for short cases; non-trivial: at least one element transferred"; }
    template <class V> void fam(std::vector<Job>& out, const std::string& nm, unsigned np, bool th, bool sched)
    {
        enum { B = V::block_type::size };
        size_t maxn = 3 * B + 1 + (th ? B : 0);
        for (int rev = 0; rev < 2; ++rev)
            for (size_t n = 0; n <= maxn; ++n)
                cont::family(out, nm + ".read" + std::to_string(rev) + "." + std::to_string(n), [=](int d) {
                                 int cache = choose(3); size_t b = choose((int)n + 1); size_t e = b + choose((int)(n - b) + 1);
                                 static const unsigned nbs[] = { 0, 1, 3, 5 };
                                 unsigned nb = nbs[choose(d >= 2 ? 4 : 2)]; int mode = choose(6);
                                 if (rev && mode == 4) return;
                                 if (mode == 2 && !(b == 0 && e == n)) return;
                                 T3<V>::read(n, np, cache, b, e, nb, mode, rev);
                             }, 2, 2, 0);
        size_t maxk = 3 * B + 2 + (th ? 2 * B : 0);
        for (size_t n = 0; n <= 2 * B + 1; ++n)
            for (size_t pos = 0; pos <= n; ++pos)
                cont::family(out, nm + ".write" + std::to_string(n) + "." + std::to_string(pos), [=](int d) {
                                 int cache = choose(3); bool known = choose(2);
                                 size_t k = choose((int)maxk + 1);
                                 static const unsigned nbs[] = { 2, 0, 3, 1, 6 };
                                 unsigned nb = nbs[choose(d >= 2 ? 5 : 2)]; int mode = choose(5);
                                 if (mode == 1 && pos != 0) return;
                                 T3<V>::write(n, np, known, cache, pos, k, nb, mode);
                             }, 2, 2, 0);
        if (sched)
        {
            cont::family(out, nm + ".readsched", [=](int) { size_t n = 2 * B + 1; int rev = choose(2); size_t b = choose(2); T3<V>::read(n, np, 0, b, n - choose(2), 1, choose(2) ? 5 : 1, rev); }, 0, 0, 1, th ? 2 : 1);
            cont::family(out, nm + ".writesched", [=](int) { size_t n = choose(2) ? B : 0; T3<V>::write(n, np, true, 2, choose(2) && n ? 1 : 0, 3 * B + 1, 2, 0); }, 0, 0, 1, th ? 2 : 1);
        }
        cont::family(out, nm + ".copy", [=](int) { size_t n = choose(4 * B + 2); T3<V>::copy(n, choose(4), 1 + choose(4)); }, 1, 1, 0);
        if (sched) cont::family(out, nm + ".copysched", [=](int) { T3<V>::copy(2 * B + choose(2), 1, 2); }, 0, 0, 1, 1);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<El<1024>, 1, stxxl::lru_pager<>, 4096> V1;
        typedef stxxl::vector<El<2048>, 2, stxxl::lru_pager<>, 4096, stxxl::striping> V2;
        typedef stxxl::vector<El<1360>, 3, stxxl::lru_pager<>, 4096, stxxl::SR> V3;
        fam<V1>(out, "p1b4", 2, th, true);
        fam<V2>(out, "p2b2", 1, th, true);
        fam<V3>(out, "p3b3", 2, th, false);
    }
};
MC_MAIN(H)
