// U01: five- and six-byte integers behave like native integers modulo their width
#include "cont.h"
#include <stxxl/bits/common/uint_types.h>
#include <sstream>
using namespace mc;
typedef stxxl::uint64 u64;
template <class T> struct W { };
template <> struct W<stxxl::uint40> { enum { bits = 40 }; };
template <> struct W<stxxl::uint48> { enum { bits = 48 }; };
template <class T> static u64 mask() { return (((u64)1) << W<T>::bits) - 1; }
static std::vector<u64> lows(int w)
{   // offsets within the lower 32 bits, in windows around the places where carries and borrows happen
    std::vector<u64> v; for (u64 c : { (u64)0, (u64)1 << 31, (u64)1 << 32, (u64)1 << 16, (u64)255, (u64)0x55555555 }) for (int d = -w; d <= w; ++d) v.push_back((c + d) & 0xffffffffull);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
template <class T> static std::vector<u64> vals(int w)
{   // windows around every power of two and around every boundary between the two parts, up to the extremes
    std::vector<u64> v; for (int k = 0; k <= W<T>::bits; ++k) for (int d = -w; d <= w; ++d) v.push_back(((((u64)1) << k) + d) & mask<T>());
    for (u64 h : { 1, 2, 127, 128, 254, 255 }) for (int d = -w; d <= w; ++d) v.push_back(((h << 32) + d) & mask<T>());
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
template <class T> static void pad_eq(const T& x, u64 v, const char* what)
{
    if (x.ull() != v || x.u64() != v || (u64)x != v) fail(std::string(what) + ": value is " + std::to_string(x.ull()) + " instead of " + std::to_string(v));
    T c(x); if ((u64)c != v) fail(std::string(what) + ": a copy differs"); T d; d = x; if (!(d == x) || (d != x)) fail(std::string(what) + ": an assigned copy differs");
}
// an integer between two guard bytes: an operation touches only its own bytes
template <class T> struct __attribute__ ((packed)) Box { unsigned char a; T x; unsigned char b; };
template <class T> static void unary(u64 v)
{
    u64 m = mask<T>();
    T x(v); pad_eq(x, v, "from uint64");
    T lh((stxxl::uint32)(v & 0xffffffffu), (typename T::high_type)(v >> 32)); pad_eq(lh, v, "from its parts");
    if (v <= 0xffffffffu) { T y((stxxl::uint32)v); pad_eq(y, v, "from uint32"); }
    stxxl::int32 s = (stxxl::int32)(stxxl::uint32)v; T z(s); pad_eq(z, (u64)(stxxl::int64)s & m, "from int32");
    Box<T> bx; bx.a = 0xa5; bx.b = 0x5a; bx.x = T(v);
    T t(v); T& r = ++t; if (&r != &t) fail("++ does not return itself"); pad_eq(t, (v + 1) & m, "++"); ++bx.x;
    pad_eq(T(bx.x), (v + 1) & m, "++ in a structure"); --t; pad_eq(t, v, "-- after ++");
    T q(v); T& rq = --q; if (&rq != &q) fail("-- does not return itself"); pad_eq(q, (v - 1) & m, "--"); ++q; pad_eq(q, v, "++ after --");
    --bx.x; --bx.x; pad_eq(T(bx.x), (v - 1) & m, "-- in a structure"); bx.x += T(v); pad_eq(T(bx.x), (2 * v - 1) & m, "+= in a structure");
    if (bx.a != 0xa5 || bx.b != 0x5a) fail("an operation changed bytes beside the integer");
    T self(v); self += self; pad_eq(self, (2 * v) & m, "+= itself");
    std::ostringstream os; os << T(v); if (os.str() != std::to_string(v)) fail("printed as " + os.str() + " instead of " + std::to_string(v));
    if (T(v) < T::min() || T(v) > T::max() || !(T::min() <= T(v)) || !(T::max() >= T(v))) fail("a value lies outside min..max");
    transition(12);
}
template <class T> static void binary(u64 a, u64 b)
{
    u64 m = mask<T>(); T x(a), y(b);
    if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) fail("comparison of " + std::to_string(a) + " and " + std::to_string(b));
    T s(a); T& r = s += y; if (&r != &s || s.ull() != ((a + b) & m) || y.ull() != b) fail(std::to_string(a) + " += " + std::to_string(b) + " gives " + std::to_string(s.ull()));
    if (x + y != a + b || x - y != a - b || (b && (x / y != a / b || x % y != a % b)) || x * 3 != a * 3 || (x >> 1) != (a >> 1)) fail("arithmetic of " + std::to_string(a) + " and " + std::to_string(b));
    if (x + 1 != a + 1 || (u64)(x - 1) != a - 1) fail("mixed arithmetic of " + std::to_string(a));
    transition(10);
}
template <class T> static void limits()
{
    typedef std::numeric_limits<T> L;
    if (L::min().ull() != 0 || L::max().ull() != mask<T>() || L::lowest().ull() != 0 || T::min().ull() != 0 || T::max().ull() != mask<T>()) fail("minimum or maximum");
    if (!L::is_specialized || L::is_signed || !L::is_integer || !L::is_exact || L::radix != 2 || L::digits != (int)W<T>::bits || L::has_infinity || L::epsilon().ull() != 0 || L::round_error().ull() != 0) fail("numeric_limits field");
    if (sizeof(T) != W<T>::bits / 8 || (size_t)T::digits != W<T>::bits || (size_t)T::bytes != W<T>::bits / 8 || sizeof(T[3]) != 3 * sizeof(T)) fail("size");
    T x = T::max(); ++x; pad_eq(x, 0, "++ of the maximum"); --x; pad_eq(x, mask<T>(), "-- of zero"); transition(8);
}
template <class T> static void all(std::vector<Job>& out, const char* n, int w, int uw)
{
    Opts o; o.max_points = 4000000;
    out.push_back(Job { std::string(n) + ": extremes", [] { limits<T>(); outcome(1); state(1); }, o });
    out.push_back(Job { std::string(n) + ": all pairs of values around every boundary", [w] {
        static std::vector<u64> v = vals<T>(w); u64 a = v[choose((int)v.size())]; MC_NOTE(a); unary<T>(a); for (u64 b : v) binary<T>(a, b);
        outcome(a); state(a); if (a > 0xffffffffu) nontrivial(); }, o });
    out.push_back(Job { std::string(n) + ": every upper part with lower parts around the carries", [uw] {
        static std::vector<u64> l = lows(uw); int nh = 1 << (W<T>::bits - 32); u64 h = nh > 256 ? (u64)choose(nh / 256) * 256 + choose(256) : choose(nh); MC_NOTE("upper part " << h);
        for (u64 x : l) { unary<T>(h << 32 | x); binary<T>(h << 32 | x, (u64)0xffffffff); binary<T>(h << 32 | x, mask<T>()); binary<T>(h << 32 | x, h << 32 | (u64)0xffffffff); binary<T>(h << 32 | x, (h << 32) ^ x ^ 1); }
        outcome(h); state(h); nontrivial(); }, o });
}
struct H : Harness {
    const char* id() override { return "U01"; }
    void init() override { cont::quiet_log(); }
    std::string rule() override { return "all pairs of values within a window of every power of two and of every boundary between the two parts of a 40- and 48-bit integer, and every upper part with lower parts around the carries; oracle: native 64-bit arithmetic modulo the width"; }
    void jobs(bool th, std::vector<Job>& out) override
    {
        all<stxxl::uint40>(out, "uint40", th ? 9 : 4, th ? 3000 : 100);
        all<stxxl::uint48>(out, "uint48", th ? 9 : 4, th ? 40 : 6);
    }
};
MC_MAIN(H)
