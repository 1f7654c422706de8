// S01: stream sorting, fed in every way
#include "algo.h"
#include <stxxl/stream>
using namespace mc; using namespace algo;
typedef std::vector<std::pair<int, int> > In;
template <class T> struct Src
{
    typedef T value_type; const In* in; size_t i; T cur; int reads;
    Src(const In& x) : in(&x), i(0) { load(); }
    void load() { if (i < in->size()) cur = T((*in)[i].first, (*in)[i].second); }
    bool empty() const { return i == in->size(); }
    const T& operator * () const { if (empty()) mc::fail("the input stream is read beyond its end"); return cur; }
    const T* operator -> () const { return &**this; }
    Src& operator ++ () { if (empty()) mc::fail("the input stream is advanced beyond its end"); ++i; load(); return *this; }
};
// reads the sorted stream s (at most n elements) and compares
template <class S> static void check_sorted(S& s, const In& in, const char* what, bool sz, size_t n = 1u << 30)
{
    std::multiset<std::pair<int, int> > left(in.begin(), in.end()); std::vector<int> keys; for (auto& p : in) keys.push_back(p.first);
    std::sort(keys.begin(), keys.end()); (void)sz;
    size_t pos = 0;
    for ( ; !s.empty() && pos < n; ++pos)
    {
        MC_CHECK(pos < in.size(), what << ": more than the " << in.size() << " elements put in come out");
        auto e = *s;
        MC_CHECK(e.ok(), what << ": damaged record at " << pos);
        MC_CHECK(s->id == e.id, what << ": operator -> differs from operator *");
        MC_CHECK(e.k == keys[pos], what << ": element " << pos << " of " << in.size() << " is " << e << " instead of key " << keys[pos]);
        auto it = left.find(std::make_pair(e.k, e.id));
        MC_CHECK(it != left.end(), what << ": " << e << " at " << pos << " was not put in, or comes out twice");
        left.erase(it); ++s;
    }
    MC_CHECK(pos == std::min(n, in.size()), what << ": only " << pos << " of " << in.size() << " elements come out");
}
template <class T> struct Cmp : Asc<T> { };
enum { PULL, PUSH, SEQ, ITER, TWICE, NMODES };
// for SEQ the input is cut into sorted runs of the sizes given by the pattern
template <class T, unsigned BS> static void job(int mode, int cm, int mm, const In& in, int cut, size_t part)
{
    using namespace stxxl::stream; typedef Asc<T> C; const unsigned cb = cm * BS, mb = mm * BS; int B = BS / sizeof(T);
    cont::Scope sc; transition(in.size() + 1);
    switch (mode)
    {
    case PULL:
    {
        MC_NOTE("stream::sort with " << cm << "+" << mm << " blocks of " << in.size() << ": " << show(in));
        Src<T> src(in); typedef sort<Src<T>, C, BS> S;
        if (cm == mm) { S s(src, C(), cb); MC_CHECK(src.empty(), "the sorter left elements in its input"); check_sorted(s, in, "sort", false, part); }
        else { S s(src, C(), cb, mb); MC_CHECK(src.empty(), "the sorter left elements in its input"); check_sorted(s, in, "sort", false, part); }
        break;
    }
    case PUSH:
    {
        MC_NOTE("runs_creator<use_push> and runs_merger with " << cm << "+" << mm << " blocks of " << in.size() << ": " << show(in));
        typedef runs_creator<use_push<T>, C, BS> RC; RC rc(C(), cb);
        for (size_t i = 0; i < in.size(); ++i) { rc.push(T(in[i].first, in[i].second)); MC_CHECK(rc.size() == i + 1, "runs_creator reports size " << rc.size() << " after " << i + 1 << " pushes"); }
        typename RC::sorted_runs_type r = rc.result();
        MC_CHECK(check_sorted_runs(r, C()), "check_sorted_runs rejects the sorted runs");
        runs_merger<typename RC::sorted_runs_type, C> m(r, C(), mb);
        MC_CHECK(m.size() == in.size(), "runs_merger reports size " << m.size() << " instead of " << in.size());
        check_sorted(m, in, "push and merge", true, part);
        break;
    }
    case SEQ:
    {
        typedef runs_creator<from_sorted_sequences<T>, C, BS> RC; RC rc(C(), cb);
        size_t i = 0; int nr = 0; std::ostringstream d;
        // cut 0: runs of one, 1: growing runs, 2: one block, 3: B+1, 4: with empty runs between, 5: everything
        while (i < in.size())
        {
            size_t l = cut == 0 ? 1 : cut == 1 ? nr + 1 : cut == 2 ? B : cut == 3 ? B + 1 : cut == 4 ? nr % 2 ? 0 : 2 * B - 1 : in.size();
            l = std::min(l, in.size() - i); In run(in.begin() + i, in.begin() + i + l); std::stable_sort(run.begin(), run.end(), [](const std::pair<int, int>& a, const std::pair<int, int>& b) { return a.first < b.first; });
            for (auto& p : run) rc.push(T(p.first, p.second));
            d << l << " "; i += l; ++nr;
            if (i < in.size() || cut % 2) rc.finish();
        }
        MC_NOTE("sorted sequences of " << d.str() << " with " << cm << "+" << mm << " blocks of " << in.size() << ": " << show(in));
        typename RC::sorted_runs_type r = rc.result();
        MC_CHECK(check_sorted_runs(r, C()), "check_sorted_runs rejects the sorted runs");
        runs_merger<typename RC::sorted_runs_type, C> m(r, C(), mb);
        MC_CHECK(m.size() == in.size(), "runs_merger reports size " << m.size() << " instead of " << in.size());
        check_sorted(m, in, "sorted sequences", true, part);
        break;
    }
    case ITER:
    {
        MC_NOTE("stxxl::sort<block size> of an array with " << cm << " blocks of " << in.size() << ": " << show(in));
        std::vector<T> a(in.size() + 1); for (size_t i = 0; i < in.size(); ++i) a[i] = T(in[i].first, in[i].second); a[in.size()] = T(5, -5);
        stxxl::sort<BS>(a.begin(), a.begin() + in.size(), C(), cb, STXXL_DEFAULT_ALLOC_STRATEGY());
        In o; for (auto& x : a) o.push_back(std::make_pair(x.k, x.id));
        MC_CHECK(o.back() == std::make_pair(5, -5), "sorting an array changed the element behind it");
        Src<T> s(o); o.pop_back(); s.i = 0; s.load(); check_sorted(s, in, "sort of an array", false);
        break;
    }
    case TWICE:
    {
        MC_NOTE("runs of a stream merged twice with " << cm << "+" << mm << " blocks of " << in.size() << ": " << show(in));
        Src<T> src(in); typedef runs_creator<Src<T>, C, BS> RC; RC rc(src, C(), cb);
        runs_merger<typename RC::sorted_runs_type, C> m(C(), mb);
        m.initialize(rc.result()); check_sorted(m, in, "first merge", true, part); m.deallocate();
        m.initialize(rc.result()); check_sorted(m, in, "second merge", true);
        break;
    }
    }
    sc.finish();
    state(mix(mix(in.size(), mode), mix(cm, mm))); { uint64_t hh = 0; for (auto& p : in) hh = mix(hh, p.first); outcome(hh); } if ((int)in.size() > cm / 2 * B) nontrivial();
}
static In make(int n, int pat) { In in; for (int i = 0; i < n; ++i) in.push_back(std::make_pair(pattern(pat, i, n), i)); return in; }
struct H : Harness
{
    const char* id() { return "S01"; }
    void init() { cont::setup(NDISKS, 8); }
    std::string rule() { return "every way of feeding (pulled, pushed, sorted sequences, array, merged twice), every length up to ten blocks, memory sizes from the minimum on including recursive merging, ten key patterns, all inputs over small alphabets for short lengths, readers that stop early; non-trivial: more than one run"; }
    template <class T, unsigned BS> void cfg(std::vector<Job>& out, bool th, const std::string& nm, bool small)
    {
        int B = BS / sizeof(T), mn = 4 * NDISKS + 3;
        for (int mode = 0; mode < NMODES; ++mode)
        {
            std::string p = nm + ".mode" + std::to_string(mode);
            for (int n = 0; n <= (th ? 18 : 10) * B; n += n < 3 * B || (th && !small) ? 1 : 5)
                cont::family(out, p + ".n" + std::to_string(n), [=](int d) {
                    static const int cms[] = { 2, 3, 4, 7 }; int cm = mode == ITER ? mn + choose(2) * 3 : mode == SEQ ? 4 + choose(2) * 3 : cms[choose(small ? 2 : 4)]; int mm = mode == ITER ? cm : mn + choose(3) * 2;
                    int pat = choose(d), part = choose(2); if (part && mode == ITER) return; int cut = mode == SEQ ? choose(6) : 0;
                    job<T, BS>(mode, cm, mm, make(n, pat), cut, part ? n / 2 : 1u << 30);
                }, th ? (int)NPAT : small ? 2 : 4, small ? 0 : 2, 0);
            if (small) continue;
            for (int n = 1; n <= (th ? 7 : 5); ++n)
                cont::family(out, p + ".all.n" + std::to_string(n), [=](int d) { In in; for (int i = 0; i < n; ++i) in.push_back(std::make_pair((int)choose(3), i)); job<T, BS>(mode, mode == ITER ? mn : mode == SEQ ? 4 : 2, mn, in, mode == SEQ ? choose(3) : 0, 1u << 30); }, 1, 0, 0);
            for (int n : { 2 * B, 5 * B + 1 })
                cont::family(out, p + ".sched.n" + std::to_string(n), [=](int d) { job<T, BS>(mode, mode == ITER ? mn : 4, mn, make(n, 1), 3, 1u << 30); }, 0, 0, 1, 1, 0, 4);
        }
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        cfg<Rec<1024>, 4096>(out, th, "b4", false);
        cfg<Rec<1360>, 4096>(out, th, "b3", true);
        cfg<Rec<2048>, 4096>(out, th, "b2", !th);
    }
};
MC_MAIN(H)
