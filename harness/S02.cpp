// S02: stream operators
#include "algo.h"
#include <stxxl/stream>
using namespace mc; using namespace algo; namespace st = stxxl::stream;
// input stream of n values of its own type; counts what is consumed
template <int Tag> struct Val { int v; Val() : v(-1) { } Val(int x) : v(x * 7 + Tag) { } int get() const { return (v - Tag) / 7; } bool ok() const { return (v - Tag) % 7 == 0; } bool operator == (const Val& o) const { return v == o.v; } };
template <int Tag> struct Src
{
    typedef Val<Tag> value_type; std::vector<int> d; size_t i; value_type cur;
    Src(const std::vector<int>& x) : d(x), i(0) { load(); }
    void load() { cur = i < d.size() ? value_type(d[i]) : value_type(); }
    bool empty() const { return i == d.size(); }
    const value_type& operator * () const { if (empty()) mc::fail("an input stream is read beyond its end"); return cur; }
    const value_type* operator -> () const { return &**this; }
    Src& operator ++ () { if (empty()) mc::fail("an input stream is advanced beyond its end"); ++i; load(); return *this; }
};
static std::vector<int> seq(int n, int base) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(base + i * 3); return r; }
struct Sum
{
    typedef long value_type; int calls; Sum() : calls(0) { }
    long operator () (const Val<1>& a) { ++calls; return a.get(); }
    long operator () (const Val<1>& a, const Val<2>& b) { ++calls; return a.get() + 100 * b.get(); }
    long operator () (const Val<1>& a, const Val<2>& b, const Val<3>& c) { ++calls; return a.get() + 100 * b.get() + 10000 * c.get(); }
    long operator () (const Val<1>& a, const Val<2>& b, const Val<3>& c, const Val<4>& d) { return (*this)(a, b, c) + 1000000 * d.get(); }
    long operator () (const Val<1>& a, const Val<2>& b, const Val<3>& c, const Val<4>& d, const Val<5>& e) { return (*this)(a, b, c, d) + 100000000L * e.get(); }
    long operator () (const Val<1>& a, const Val<2>& b, const Val<3>& c, const Val<4>& d, const Val<5>& e, const Val<6>& f) { return (*this)(a, b, c, d, e) + 10000000000L * f.get(); }
};
template <class S> static void run_transform(S& s, Sum& op, int n, int nin, const int* len)
{
    static const long mul[] = { 1, 100, 10000, 1000000, 100000000L, 10000000000L };
    int k = 0;
    for ( ; !s.empty(); ++s, ++k)
    {
        MC_CHECK(k < n, "transform of " << nin << " streams yields more than " << n << " values");
        long want = 0; for (int i = 0; i < nin; ++i) want += mul[i] * (i * 10 % 37 + k * 3);
        MC_CHECK(*s == want && *s.operator -> () == want, "transform of " << nin << " streams: value " << k << " is " << *s << " instead of " << want);
        (void)len;
    }
    MC_CHECK(k == n, "transform of " << nin << " streams yields " << k << " values instead of " << n);
    MC_CHECK(op.calls == n, "transform of " << nin << " streams called its function " << op.calls << " times for " << n << " values");
}
template <class S> static void check_consumed(const S& s, int n, int i) { MC_CHECK((int)s.i == n, "input " << i << " was advanced " << s.i << " times instead of " << n); }
static void zip_job(int nin, const int* len)
{
    int n = len[0]; for (int i = 1; i < nin; ++i) n = std::min(n, len[i]);
    Src<1> a(seq(len[0], 0)); Src<2> b(seq(len[1], 10)); Src<3> c(seq(len[2], 20)); Src<4> d(seq(len[3], 30)); Src<5> e(seq(len[4], 3)); Src<6> f(seq(len[5], 13));
    std::ostringstream o; for (int i = 0; i < nin; ++i) o << len[i] << " ";
    MC_NOTE("transform and make_tuple of streams of " << o.str()); transition(n + 1);
    Sum op;
    switch (nin)
    {
    case 1: { st::transform<Sum, Src<1> > t(op, a); run_transform(t, op, n, nin, len); break; }
    case 2: { st::transform<Sum, Src<1>, Src<2> > t(op, a, b); run_transform(t, op, n, nin, len); break; }
    case 3: { st::transform<Sum, Src<1>, Src<2>, Src<3> > t(op, a, b, c); run_transform(t, op, n, nin, len); break; }
    case 4: { st::transform<Sum, Src<1>, Src<2>, Src<3>, Src<4> > t(op, a, b, c, d); run_transform(t, op, n, nin, len); break; }
    case 5: { st::transform<Sum, Src<1>, Src<2>, Src<3>, Src<4>, Src<5> > t(op, a, b, c, d, e); run_transform(t, op, n, nin, len); break; }
    case 6: { st::transform<Sum, Src<1>, Src<2>, Src<3>, Src<4>, Src<5>, Src<6> > t(op, a, b, c, d, e, f); run_transform(t, op, n, nin, len); break; }
    }
    check_consumed(a, n, 1); if (nin > 1) check_consumed(b, n, 2); if (nin > 2) check_consumed(c, n, 3); if (nin > 3) check_consumed(d, n, 4); if (nin > 4) check_consumed(e, n, 5); if (nin > 5) check_consumed(f, n, 6);
    state(mix(nin, n)); outcome(mix(mix(len[0], len[1]), mix(len[2], nin)));
}
template <int N, class S> static void run_choose(S& t, const std::vector<int>& want)
{
    st::choose<S, N> ch(t); size_t k = 0;
    for ( ; !ch.empty(); ++ch, ++k)
    {
        MC_CHECK(k < want.size(), "choose " << N << " yields too many values");
        MC_CHECK((*ch).ok() && (*ch).get() == want[k] && ch->get() == want[k], "choose " << N << ": value " << k << " is " << (*ch).get() << " instead of " << want[k]);
    }
    MC_CHECK(k == want.size(), "choose " << N << " yields " << k << " values instead of " << want.size());
}
static void tuple_job(int nin, const int* len, int which)
{
    int n = len[0]; for (int i = 1; i < nin; ++i) n = std::min(n, len[i]);
    std::vector<int> all[6]; for (int i = 0; i < 6; ++i) all[i] = seq(len[i], i * 10 + 1);
    Src<1> a(all[0]); Src<2> b(all[1]); Src<3> c(all[2]); Src<4> d(all[3]); Src<5> e(all[4]); Src<6> f(all[5]);
    MC_NOTE("make_tuple of " << nin << " streams, shortest " << n << ", choose " << which); transition(n + 1);
    std::vector<int> want(all[which - 1].begin(), all[which - 1].begin() + n);
#define CH(T) switch (which) { case 1: run_choose<1>(T, want); break; case 2: run_choose<2>(T, want); break;
    switch (nin)
    {
    case 2: { st::make_tuple<Src<1>, Src<2> > t(a, b); CH(t) } break; }
    case 3: { st::make_tuple<Src<1>, Src<2>, Src<3> > t(a, b, c); CH(t) case 3: run_choose<3>(t, want); break; } break; }
    case 4: { st::make_tuple<Src<1>, Src<2>, Src<3>, Src<4> > t(a, b, c, d); CH(t) case 3: run_choose<3>(t, want); break; case 4: run_choose<4>(t, want); break; } break; }
    case 5: { st::make_tuple<Src<1>, Src<2>, Src<3>, Src<4>, Src<5> > t(a, b, c, d, e); CH(t) case 3: run_choose<3>(t, want); break; case 4: run_choose<4>(t, want); break; case 5: run_choose<5>(t, want); break; } break; }
    case 6: { st::make_tuple<Src<1>, Src<2>, Src<3>, Src<4>, Src<5>, Src<6> > t(a, b, c, d, e, f); CH(t) case 3: run_choose<3>(t, want); break; case 4: run_choose<4>(t, want); break; case 5: run_choose<5>(t, want); break; case 6: run_choose<6>(t, want); break; } break; }
    }
    check_consumed(a, n, 1); check_consumed(b, n, 2); if (nin > 2) check_consumed(c, n, 3); if (nin > 3) check_consumed(d, n, 4); if (nin > 4) check_consumed(e, n, 5); if (nin > 5) check_consumed(f, n, 6);
    state(mix(mix(nin, n), which)); nontrivial();
}
struct Mod3 { bool operator () (const Val<1>& a, const Val<1>& b) const { return a.get() % 3 == b.get() % 3; } };
template <class S> static void check_seq(S& s, const std::vector<int>& want, const char* what)
{
    size_t k = 0;
    for ( ; !s.empty(); ++s, ++k)
    {
        MC_CHECK(k < want.size(), what << " yields more than " << want.size() << " values");
        MC_CHECK((*s).get() == want[k] && s->get() == want[k], what << ": value " << k << " is " << (*s).get() << " instead of " << want[k]);
    }
    MC_CHECK(k == want.size(), what << " yields " << k << " values instead of " << want.size());
}
static void unique_job(int n, int alpha)
{
    std::vector<int> in; for (int i = 0; i < n; ++i) in.push_back(choose(alpha));
    MC_NOTE("unique of " << show(in)); transition(n + 1);
    std::vector<int> w1, w2; for (int x : in) { if (w1.empty() || w1.back() != x) w1.push_back(x); if (w2.empty() || w2.back() % 3 != x % 3) w2.push_back(x); }
    { Src<1> s(in); st::unique<Src<1> > u(s); check_seq(u, w1, "unique"); check_consumed(s, n, 1); }
    { Src<1> s(in); st::unique<Src<1>, Mod3> u(s, Mod3()); check_seq(u, w2, "unique with a predicate"); check_consumed(s, n, 1); }
    state(hash_seq(in)); outcome(hash_seq(w1)); if (w1.size() > 1 && (int)w1.size() < n) nontrivial();
}
struct GenInt { typedef Val<1> value_type; int* n; Val<1> operator () () { return Val<1>((*n)++ * 2); } };
// streams over ranges of external vectors
template <class S> static void check_range_stream(S& s, const Ref& r, int f, int l, const char* what)
{
    int k = 0;
    for ( ; !s.empty(); ++s, ++k)
    {
        MC_CHECK(k < l, what << " of [" << f << "," << f + l << ") yields more than " << l << " elements");
        auto e = *s;
        MC_CHECK(e.ok() && e.id == r[f + k].second && s->id == e.id, what << " of [" << f << "," << f + l << ") of " << r.size() << ": element " << k << " is " << e << " instead of " << r[f + k].first << "/" << r[f + k].second);
    }
    MC_CHECK(k == l, what << " of [" << f << "," << f + l << ") yields " << k << " elements instead of " << l);
}
template <class V> static void streamify_job(int n, bool part)
{
    cont::Scope sc;
    {
        V v(n); Ref r(n); for (int i = 0; i < n; ++i) r[i] = std::make_pair(i, i * 3 % 17 * 100 + i); fill(v, r, 0, 1); const V& c = v;
        int f = choose(n + 1), l = choose(n - f + 1), nb = part ? 0 : choose(4), kind = choose(5);
        MC_NOTE("streamify kind " << kind << " [" << f << "," << f + l << ") of " << n << ", " << nb << " buffers"); transition(l + 1);
        switch (kind)
        {
        case 0: { auto s = st::streamify(v.begin() + f, v.begin() + f + l, nb); check_range_stream(s, r, f, l, "streamify"); break; }
        case 1: { auto s = st::streamify(c.begin() + f, c.begin() + f + l, nb); check_range_stream(s, r, f, l, "streamify (const)"); break; }
        case 2: { auto s = st::streamify_sr(v.begin() + f, v.begin() + f + l, nb); check_range_stream(s, r, f, l, "streamify_sr"); break; }
        case 3: { auto s = st::streamify_sr(c.begin() + f, c.begin() + f + l, nb); auto s2(s); check_range_stream(s2, r, f, l, "copy of streamify_sr (const)"); break; }
        case 4: { auto s = st::streamify(v.begin() + f, v.begin() + f + l, nb); int k = l / 2; for (int i = 0; i < k; ++i) ++s; auto s2(s); check_range_stream(s2, r, f + k, l - k, "copy of a stream"); break; }
        }
        state(mix(mix(f, l), mix(n, kind))); if (l > (int)V::block_type::size) nontrivial();
    }
    sc.finish();
}
// a source of records
template <class T> struct RSrc
{
    typedef T value_type; int n, i; T cur;
    RSrc(int n_) : n(n_), i(0) { load(); }
    void load() { if (i < n) cur = T(7000 + i, 9000 + i); }
    bool empty() const { return i == n; }
    const T& operator * () const { if (empty()) mc::fail("the input stream is read beyond its end"); return cur; }
    RSrc& operator ++ () { if (empty()) mc::fail("the input stream is advanced beyond its end"); ++i; load(); return *this; }
};
template <class V> static void materialize_job(int n, int kind)
{
    typedef typename V::value_type T; cont::Scope sc;
    {
        int B = V::block_type::size; V v(n); Ref r(n); std::vector<bool> def(n, false); int pre = choose(4);
        for (int i = 0; i < n; ++i) r[i] = std::make_pair(i, i);
        for (int i = 0; i < n; ++i) if (pre == 0 || pre == 3 || (pre == 1 && i < n / 2) ) { v[i] = T(i, i); def[i] = true; }
        if (pre == 3) { v.flush(); const V& c = v; (void)c[n - 1]; }
        int f = choose(std::min(n, 2 * B) + 1), room = n - f, len = kind == 1 ? choose(room + 3) : choose(room + 1), lim = kind == 1 ? choose(room + 1) : len, nb = choose(3); static const int nbs[] = { 0, 2, 5 };
        int w = std::min(len, lim);
        MC_NOTE("materialize " << len << " elements at " << f << (kind == 1 ? " limit " + std::to_string(lim) : std::string()) << " of a vector of " << n << " prepared " << pre << ", " << nbs[nb] << " buffers"); transition(w + 1);
        RSrc<T> s(len); typename V::iterator e;
        if (kind == 1) e = st::materialize(s, v.begin() + f, v.begin() + f + lim, nbs[nb]); else e = st::materialize(s, v.begin() + f, nbs[nb]);
        MC_CHECK(e - v.begin() == f + w, "materialize returned position " << e - v.begin() << " instead of " << f + w);
        MC_CHECK(s.i == w, "materialize consumed " << s.i << " of " << len << " elements, " << w << " fit");
        const V& c = v;
        MC_CHECK((int)c.size() == n, "materialize changed the size of the vector");
        for (int i = 0; i < n; ++i)
        {
            bool in = i >= f && i < f + w; if (!in && !def[i]) continue;
            T x = c[i]; int id = in ? 9000 + i - f : i;
            MC_CHECK(x.ok() && x.id == id, "materialize: element " << i << " is " << x << (x.ok() ? "" : " (damaged)") << " instead of " << id);
        }
        state(mix(mix(f, w), mix(n, pre))); outcome(mix(f, w)); if (w > B && (f + w) % B) nontrivial();
    }
    sc.finish();
}
// vector -> transform -> unique -> materialize into another vector
template <class V> static void pipe_job(int n, int f, int l)
{
    typedef typename V::value_type T; cont::Scope sc;
    {
        V v(n), o(n + 3); Ref r(n); for (int i = 0; i < n; ++i) r[i] = std::make_pair(i / 2, i); fill(v, r, 0, 1);
        struct Half { typedef T value_type; T operator () (const T& x) { return T(x.k / 2, x.k / 2); } } half;
        auto s = st::streamify(v.begin() + f, v.begin() + f + l); typedef decltype(s) S; st::transform<Half, S> t(half, s); st::unique<st::transform<Half, S> > u(t);
        std::vector<int> want; for (int i = f; i < f + l; ++i) { int x = r[i].first / 2; if (want.empty() || want.back() != x) want.push_back(x); }
        MC_NOTE("vector [" << f << "," << f + l << ") of " << n << " through transform and unique into a vector"); transition(l + 1);
        auto e = st::materialize(u, o.begin() + 1);
        MC_CHECK(e - o.begin() == 1 + (long)want.size(), "materialize returned position " << e - o.begin() << " instead of " << 1 + want.size());
        const V& c = o; for (size_t i = 0; i < want.size(); ++i) { T x = c[i + 1]; MC_CHECK(x.ok() && x.id == want[i], "pipeline: element " << i << " is " << x << " instead of " << want[i]); }
        state(mix(mix(f, l), n)); if (l > 2 * (int)V::block_type::size) nontrivial();
    }
    sc.finish();
}
static void plain_job(int n)
{
    std::vector<int> want = seq(n, 5); int k = choose(4);
    MC_NOTE("streams of memory ranges, generators, materialize into memory: " << n << " values, kind " << k); transition(n + 1);
    std::vector<Val<1> > a; for (int x : want) a.push_back(Val<1>(x));
    if (k == 0) { auto s = st::streamify(a.begin(), a.end()); auto s2(s); check_seq(s, want, "streamify of memory"); check_seq(s2, want, "copy of a stream of memory"); }
    if (k == 1) { Src<1> s(want); std::vector<Val<1> > o(n + 2, Val<1>(77)); auto e = st::materialize(s, o.begin()); MC_CHECK(e - o.begin() == n && s.empty(), "materialize returned position " << e - o.begin() << " instead of " << n); for (int i = 0; i < n + 2; ++i) MC_CHECK(o[i].get() == (i < n ? want[i] : 77), "materialize into memory: element " << i << " is " << o[i].get()); }
    if (k == 2) { int lim = choose(n + 3); Src<1> s(want); std::vector<Val<1> > o(n + 5, Val<1>(77)); auto e = st::materialize(s, o.begin(), o.begin() + lim); int w = std::min(n, lim); MC_CHECK(e - o.begin() == w && (int)s.i == w, "materialize with limit " << lim << " wrote " << e - o.begin() << " and consumed " << s.i << " of " << n); for (int i = 0; i < n + 5; ++i) MC_CHECK(o[i].get() == (i < w ? want[i] : 77), "materialize into memory: element " << i << " is " << o[i].get()); }
    if (k == 3)
    {
        Src<1> s(want); st::discard(s); MC_CHECK(s.empty(), "discard left elements");
        int c = 0; GenInt g = { &c }; auto gs = st::streamify(g); for (int i = 0; i < n; ++i) { MC_CHECK(!gs.empty() && (*gs).get() == 2 * i && gs->get() == 2 * i, "generator stream: value " << i << " is " << (*gs).get()); ++gs; }
    }
    state(mix(n, k)); outcome(mix(n, k));
}
struct H : Harness
{
    const char* id() { return "S02"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "every combination of input lengths (zip), every input over small alphabets (unique), every range, buffer count and preparation of vectors of up to five blocks (streamify, materialize); non-trivial: tuples, sequences with duplicates, ranges of more than one block"; }
    template <class V> void cfg(std::vector<Job>& out, bool th, const std::string& nm)
    {
        int B = V::block_type::size;
        for (int n = 1; n <= (th ? 9 : 5) * B; n += n < 2 * B + 1 || th ? 1 : 2)
        {
            cont::family(out, nm + ".streamify.n" + std::to_string(n), [=](int d) { streamify_job<V>(n, n > 3 * B); }, 1, n <= 3 * B, 0);
            for (int k = 0; k < 2; ++k) cont::family(out, nm + ".materialize" + std::to_string(k) + ".n" + std::to_string(n), [=](int d) { materialize_job<V>(n, k); }, 1, k == 0 || n <= 3 * B, 0);
            cont::family(out, nm + ".pipe.n" + std::to_string(n), [=](int d) { int f = choose(n + 1), l = choose(n - f + 1); pipe_job<V>(n, f, l); }, 1, 1, 0);
        }
        for (int n : { 3 * B + 1 }) cont::family(out, nm + ".sched.pipe", [=](int d) { pipe_job<V>(n, 1, n - 1); }, 0, 0, 1, th ? 2 : 1, 0, 4);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        int m = th ? 5 : 4;
        for (int nin = 1; nin <= 6; ++nin)
            cont::family(out, "zip" + std::to_string(nin), [=](int d) { int len[6]; for (int i = 0; i < 6; ++i) len[i] = i < nin ? choose(nin > 4 ? m - 1 : m) : 0; zip_job(nin, len); }, 1, 0, 0);
        for (int nin = 2; nin <= 6; ++nin) for (int w = 1; w <= nin; ++w)
            cont::family(out, "tuple" + std::to_string(nin) + "." + std::to_string(w), [=](int d) { int len[6]; for (int i = 0; i < 6; ++i) len[i] = i < nin ? choose(nin > 4 ? m - 1 : m) : 0; tuple_job(nin, len, w); }, 1, 0, 0);
        for (int n = 0; n <= (th ? 9 : 7); ++n) cont::family(out, "unique" + std::to_string(n), [=](int d) { unique_job(n, n <= 6 ? 4 : 3); }, 1, 0, 0);
        cont::family(out, "plain", [=](int d) { plain_job(choose(7)); }, 1, 0, 0);
        typedef stxxl::vector<Rec<1024>, 1, stxxl::lru_pager<2>, 4096> V4;
        typedef stxxl::vector<Rec<1360>, 2, stxxl::lru_pager<2>, 4096> V3;
        typedef stxxl::vector<Rec<2048>, 3, stxxl::lru_pager<2>, 4096> V2;
        cfg<V4>(out, th, "b4"); cfg<V3>(out, th, "b3"); cfg<V2>(out, th, "b2");
    }
};
MC_MAIN(H)
