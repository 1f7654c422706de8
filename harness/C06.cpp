// C06: the external deque equals std::deque for every operation history with wrap-around and growth
#include "cont.h"
#include <stxxl/vector>
#include <stxxl/deque>
#include <deque>
using namespace mc;
using cont::El; using cont::check_el;

template <class D>
struct T6
{
    typedef typename D::value_type T;
    typedef std::deque<int> R;
    static void quick(D& d, R& r, const char* w)
    {
        MC_CHECK(d.size() == r.size(), w << ": size " << d.size() << " instead of " << r.size());
        MC_CHECK(d.empty() == r.empty(), w << ": empty()");
        MC_CHECK((size_t)(d.end() - d.begin()) == r.size(), w << ": end - begin");
        if (r.empty()) return;
        const D& c = d;
        if (r.front() >= 0) { check_el(d.front(), r.front(), "front"); check_el(c.front(), r.front(), "const front"); }
        if (r.back() >= 0) { check_el(d.back(), r.back(), "back"); check_el(c.back(), r.back(), "const back"); }
    }
    static void full(D& d, R& r, const char* w)
    {
        quick(d, r, w);
        const D& c = d;
        for (size_t i = 0; i < r.size(); ++i) if (r[i] >= 0) check_el(c[i], r[i], "operator[]");
        size_t i = 0;
        for (typename D::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { MC_CHECK(i < r.size(), w << ": iteration too long"); if (r[i] >= 0) check_el(*it, r[i], "iterator"); }
        MC_CHECK(i == r.size(), w << ": iteration length " << i);
        for (typename D::reverse_iterator it = d.rbegin(); it != d.rend(); ++it) { --i; MC_CHECK(i < r.size(), w << ": reverse iteration too long"); if (r[i] >= 0) check_el(*it, r[i], "reverse iterator"); }
        MC_CHECK(i == 0, w << ": reverse iteration length");
        for (size_t a = 0; a <= r.size(); a += 1 + r.size() / 3)
            for (size_t b = a; b <= r.size(); b += 1 + r.size() / 2)
            {
                typename D::iterator x = d.begin() + a, y = d.begin() + b; typename D::const_iterator cx = c.begin() + a;
                MC_CHECK((size_t)(y - x) == b - a && (x < y) == (a < b) && (x <= y) && (y >= x) && (x == y) == (a == b) && (y > x) == (b > a) && (cx <= y), w << ": iterator arithmetic " << a << " " << b);
                MC_CHECK(y - (b - a) == x, w << ": iterator minus");
                if (b < r.size() && r[b] >= 0) { check_el(x[b - a], r[b], "iterator[]"); typename D::iterator z = x; z += b - a; check_el(*z, r[b], "+="); z -= b - a; MC_CHECK(z == x, "-="); MC_CHECK(y->k == r[b], "->"); }
            }
    }
    static void hist(D& d, R r, int depth, D* other)
    {
        R r2; if (other) for (size_t i = 0; i < other->size(); ++i) r2.push_back(-1);
        int ctr = 100;
        for (int i = 0; i < depth; ++i)
        {
            int op = choose(13);
            switch (op)
            {
            case 0: MC_NOTE("push_back"); d.push_back(T(ctr)); r.push_back(ctr++); break;
            case 1: MC_NOTE("push_front"); d.push_front(T(ctr)); r.push_front(ctr++); break;
            case 2: MC_NOTE("pop_back"); if (r.empty()) break; d.pop_back(); r.pop_back(); break;
            case 3: MC_NOTE("pop_front"); if (r.empty()) break; d.pop_front(); r.pop_front(); break;
            case 4: MC_NOTE("5 x push_back"); for (int k = 0; k < 5; ++k) { d.push_back(T(ctr)); r.push_back(ctr++); } break;
            case 5: MC_NOTE("5 x push_front"); for (int k = 0; k < 5; ++k) { d.push_front(T(ctr)); r.push_front(ctr++); } break;
            case 6: MC_NOTE("3 x pop_front"); for (int k = 0; k < 3 && !r.empty(); ++k) { d.pop_front(); r.pop_front(); } break;
            case 7: MC_NOTE("write every third element"); for (size_t k = 0; k < r.size(); k += 3) { d[k] = T(ctr); r[k] = ctr++; } if (r.size() > 1) { *(d.begin() + 1) = T(ctr); r[1] = ctr++; } break;
            case 8: { size_t n = r.size() + 3; MC_NOTE("resize " << n); d.resize(n); r.resize(n, -1); break; }
            case 9: { size_t n = 2 * r.size() + 1; MC_NOTE("resize " << n); d.resize(n); r.resize(n, -1); break; }
            case 10: { size_t n = r.size() / 2; MC_NOTE("resize " << n); d.resize(n); r.resize(n); break; }
            case 11: if (other) { MC_NOTE("swap"); std::swap(d, *other); r.swap(r2); quick(*other, r2, "swapped"); } else { MC_NOTE("clear"); d.clear(); r.clear(); } break;
            case 12: MC_NOTE("read all"); full(d, r, "read all"); break;
            }
            transition(); quick(d, r, "after operation");
            state(mix(mix(r.size(), ctr % 8), op));
        }
        full(d, r, "at the end");
        if (other) full(*other, r2, "other at the end");
        if (depth) nontrivial();
        outcome(hash_seq(r));
    }
    // start state: n elements, the front at array offset off (reached by pushing and popping)
    static void start(D& d, R& r, size_t n, size_t off)
    {
        for (size_t i = 0; i < off; ++i) d.push_back(T(9));
        for (size_t i = 0; i < off; ++i) d.pop_front();
        for (size_t i = 0; i < n; ++i) { d.push_back(T((int)i)); r.push_back((int)i); }
        quick(d, r, "start");
    }
    static void run(int depth, size_t n, size_t off, bool oth)
    {
        cont::Scope sc;
        { D d; R r; start(d, r, n, off); D o(3); hist(d, r, depth, oth ? &o : nullptr); }
        sc.finish();
    }
    static void compare(int)
    {
        // every pair of short contents (values 0..1, length up to 3) at two offsets
        cont::Scope sc;
        {
            D a, b; std::deque<int> x, y;
            size_t oa = choose(2) * 6, ob = choose(2) * 7;
            T6::start(a, x, 0, oa); T6::start(b, y, 0, ob);
            int la = choose(4), lb = choose(4);
            for (int i = 0; i < la; ++i) { int v = choose(2); a.push_back(T(v)); x.push_back(v); }
            for (int i = 0; i < lb; ++i) { int v = choose(2); b.push_back(T(v)); y.push_back(v); }
            MC_NOTE("compare " << show(x) << " and " << show(y));
            MC_CHECK((a == b) == (x == y), "operator == says " << (a == b) << " for " << show(x) << " and " << show(y));
            MC_CHECK((a < b) == (x < y), "operator < says " << (a < b) << " for " << show(x) << " and " << show(y));
            transition(); nontrivial(); state(mix(hash_seq(x), hash_seq(y)));
        }
        sc.finish();
    }
};

struct H : Harness
{
    const char* id() { return "C06"; }
    void init() { cont::setup(2); }
    std::string rule() { return "all operation histories of the deque to the depth, from several fill levels and front offsets in the circular array (wrap-around at every position), checked against std::deque after every operation; all pairs of short contents for the comparisons; non-trivial: at least one operation"; }
    template <class D> void fam(std::vector<Job>& out, const std::string& nm, int d, bool th, size_t arr)
    {
        for (size_t n = 0; n < arr; n += th ? 1 : 2)
            for (size_t off = 0; off < arr; off += th ? 1 : (n % 4 ? 3 : 4))
                cont::family(out, nm + ".n" + std::to_string(n) + "o" + std::to_string(off), [=](int dd) { T6<D>::run(dd, n, off, off % 2); }, d, off % 3 ? 0 : d - 1, n == 6 ? 1 : 0);
        cont::family(out, nm + ".compare", [](int dd) { T6<D>::compare(dd); }, 1, 0, 0);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef stxxl::vector<El<1024>, 1, stxxl::lru_pager<2>, 4096> V1;
        typedef stxxl::vector<El<2048>, 2, stxxl::lru_pager<2>, 4096, stxxl::striping> V2;
        fam<stxxl::deque<El<1024>, V1> >(out, "d1", th ? 5 : 4, th, 8);
        fam<stxxl::deque<El<2048>, V2> >(out, "d2", th ? 4 : 3, th, 4);
    }
};
MC_MAIN(H)
