// common part of the harnesses for algorithms on ranges of external vectors
#pragma once
#include "cont.h"
#include <stxxl/vector>
#include <set>
#include <stxxl/bits/io/mem_file.h>
namespace algo {
using namespace mc;
// record of N bytes: key k, identity id, check word
template <int N>
struct Rec
{
    typedef unsigned key_type;
    int k, id; int pad[(N - 12) / 4]; int chk;
    Rec() { }
    Rec(int key, int i) : k(key), id(i) { for (int& p : pad) p = key ^ (i << 8); chk = ~(key * 7 + i); }
    bool ok() const { for (const int& p : pad) if (p != (k ^ (id << 8))) return false; return chk == ~(k * 7 + id); }
    key_type key() const { return (unsigned)k; }
    static Rec min_value() { return Rec(0, -1); }
    static Rec max_value() { return Rec(-1, -2); }
    bool operator == (const Rec& o) const { return k == o.k && id == o.id; }
};
template <int N> std::ostream& operator << (std::ostream& o, const Rec<N>& e) { return o << e.k << "/" << e.id; }
template <class T> struct Asc { bool operator () (const T& a, const T& b) const { return a.k < b.k; } T min_value() const { return T(INT_MIN, -1); } T max_value() const { return T(INT_MAX, -2); } };
template <class T> struct Desc { bool operator () (const T& a, const T& b) const { return a.k > b.k; } T min_value() const { return T(INT_MAX, -1); } T max_value() const { return T(INT_MIN, -2); } };

// keys of the i-th of l elements under a pattern
inline int pattern(int p, int i, int l)
{
    switch (p)
    {
    case 0: return i;
    case 1: return l - i;
    case 2: return 7;
    case 3: return i % 3;
    case 4: return (i * 7) % 11;
    case 5: { int r = 0; for (int b = 0; b < 6; ++b) if (i >> b & 1) r |= 32 >> b; return r; }
    case 6: return i % 2 ? i : l + i;
    case 7: return i < l / 2 ? i : l - i;
    case 8: return i == l - 1 ? -1000 : i == 0 ? 1000 : i / 5;
    case 9: return (i / 4) % 2 ? 1 : 0;
    }
    return 0;
}
enum { NPAT = 10 };
typedef std::vector<std::pair<int, int> > Ref;   // (key, id)
template <class V> void fill(V& v, Ref& r, int off, int mul)
{
    for (size_t i = 0; i < r.size(); ++i) { r[i].first = r[i].first * mul + off; v[i] = typename V::value_type(r[i].first, r[i].second); }
}
// the range [f,f+l) holds a permutation of what it held (ordered if wanted), everything else is as before
template <class V, class Less> void check_range(V& v, const Ref& before, size_t f, size_t l, const Less* less, bool stable, const char* what)
{
    const V& c = v;
    MC_CHECK(c.size() == before.size(), what << ": size of the vector changed to " << c.size());
    std::multiset<std::pair<int, int> > in(before.begin() + f, before.begin() + f + l);
    typename V::value_type last;
    for (size_t i = 0; i < before.size(); ++i)
    {
        typename V::value_type e = c[i];
        MC_CHECK(e.ok(), what << ": damaged record at " << i);
        if (i < f || i >= f + l) { MC_CHECK(e.k == before[i].first && e.id == before[i].second, what << ": element " << i << " outside the range [" << f << "," << f + l << ") changed from " << before[i].first << "/" << before[i].second << " to " << e); continue; }
        auto it = in.find(std::make_pair(e.k, e.id));
        MC_CHECK(it != in.end(), what << ": " << e << " at " << i << " is not an element of the range, or occurs twice");
        in.erase(it);
        if (less && i > f)
        {
            MC_CHECK(!(*less)(e, last), what << ": " << e << " at " << i << " follows " << last);
            if (stable && !(*less)(last, e)) MC_CHECK(last.id < e.id, what << ": equal elements " << last << " and " << e << " changed their order");
        }
        last = e;
    }
}
inline std::string show(const Ref& r) { std::ostringstream o; for (auto& x : r) o << x.first << " "; return o.str(); }
}
