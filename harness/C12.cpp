// C12: the sorter over whole use cycles
#include "algo.h"
#include <stxxl/sorter>
using namespace mc; using namespace algo;
// abstract state of a sorter and the checks of its output
struct Model
{
    std::vector<std::pair<int, int> > in; bool output; size_t pos; std::multiset<std::pair<int, int> > left; std::vector<int> keys; int nextid; bool done;
    Model() : output(false), pos(0), nextid(0), done(false) { }
    void start() { output = true; pos = 0; left.clear(); left.insert(in.begin(), in.end()); keys.clear(); for (auto& p : in) keys.push_back(p.first); std::sort(keys.begin(), keys.end()); }
};
template <class S> static void check_top(S& s, Model& m)
{
    MC_CHECK(s.size() == m.in.size() - m.pos, "sorter reports " << s.size() << " remaining instead of " << m.in.size() - m.pos);
    MC_CHECK(s.empty() == (m.pos == m.in.size()), "sorter empty() is " << s.empty() << " with " << m.in.size() - m.pos << " remaining");
    if (s.empty()) return;
    auto e = *s;
    MC_CHECK(e.ok(), "sorter: damaged record at " << m.pos);
    MC_CHECK(s->k == e.k && s->id == e.id, "sorter: operator -> differs from operator *");
    int want = m.keys[m.pos];
    MC_CHECK(e.k == want, "sorter: element " << m.pos << " of " << m.in.size() << " is " << e << " instead of key " << want);
    MC_CHECK(m.left.count(std::make_pair(e.k, e.id)), "sorter: " << e << " at " << m.pos << " was not pushed, or is delivered twice");
}
template <class S> static void advance(S& s, Model& m, size_t n)
{
    for (size_t i = 0; i < n && m.pos < m.in.size(); ++i)
    {
        check_top(s, m); m.left.erase(m.left.find(std::make_pair((*s).k, (*s).id)));
        ++s; ++m.pos;
    }
    check_top(s, m);
}
template <class S> static void push_n(S& s, Model& m, int n, int pat)
{
    for (int i = 0; i < n; ++i)
    {
        int k = pattern(pat, i, n);
        s.push(typename S::value_type(k, m.nextid)); m.in.push_back(std::make_pair(k, m.nextid)); ++m.nextid;
    }
    MC_CHECK(s.size() == m.in.size(), "sorter reports size " << s.size() << " after pushing " << m.in.size());
}
// one full cycle: push n, sort, read everything, rewind after part of it, read everything
template <class S, class C> static void cycle(int cm, int mm, int n, int pat, int part, int again)
{
    cont::Scope sc;
    {
        MC_NOTE("sorter with " << cm << "+" << mm << " blocks: push " << n << " pattern " << pat << ", read " << part << ", rewind; again " << again); transition(n + 2);
        S s(C(), cm * S::block_size, mm * S::block_size); Model m;
        push_n(s, m, n, pat);
        s.sort(); m.start(); advance(s, m, part);
        if (again & 1) { s.rewind(); m.start(); }
        if (again & 2) { s.sort(); m.start(); }
        advance(s, m, 1u << 30);
        if (again & 4) { s.clear(); m = Model(); push_n(s, m, n / 2 + 1, pat + 1); s.sort(); m.start(); advance(s, m, 1u << 30); }
        state(mix(mix(n, pat), mix(cm, mm))); outcome(mix(n, part)); if (n > cm / 2 * (int)(S::block_size / sizeof(typename S::value_type))) nontrivial();
    }
    sc.finish();
}
template <class S, class C> static void history(int cm, int mm, int depth, int op0)
{
    cont::Scope sc;
    {
        S s(C(), cm * S::block_size, mm * S::block_size); Model m; int B = S::block_size / sizeof(typename S::value_type);
        MC_NOTE("sorter with " << cm << "+" << mm << " blocks");
        bool finished = false; uint64_t h = mix(cm, mm);
        for (int d = 0; d < depth; ++d)
        {
            int op = d == 0 ? op0 : choose(8);
            h = mix(h, op); transition();
            switch (op)
            {
            case 0: case 1: if (m.output || finished) return; { int n = op ? B * (cm / 2) * 2 + 1 : B - 1 + (int)m.in.size() % 3; MC_NOTE("push " << n); push_n(s, m, n, op + d); if (op) nontrivial(); } break;
            case 2: MC_NOTE("sort"); s.sort(); finished = false; m.start(); check_top(s, m); break;
            case 3: if (!m.output || finished) return; { int n = d % 2 ? B + 1 : 1000; MC_NOTE("read " << n); advance(s, m, n); } break;
            case 4: if (!m.output || finished) return; MC_NOTE("rewind"); s.rewind(); m.start(); check_top(s, m); break;
            case 5: MC_NOTE("clear"); s.clear(); m.in.clear(); m.output = false; finished = false; MC_CHECK(s.size() == 0, "sorter reports size " << s.size() << " after clear"); break;
            case 6: MC_NOTE("finish"); s.finish(); finished = true; break;
            case 7: if (m.output || finished) return; MC_NOTE("sort_reuse"); s.sort_reuse(); m.start(); check_top(s, m); break;
            }
            state(mix(mix(m.in.size(), m.pos), mix(m.output, finished)));
        }
        outcome(h);
    }
    sc.finish();
}
struct H : Harness
{
    const char* id() { return "C12"; }
    void init() { cont::setup(2, 8); }
    std::string rule() { return "full cycles with every number of pushes up to twelve blocks, several memory sizes including recursive merging, ten key patterns, with rewind, re-sort and clear; every history of push, sort, read, rewind, clear, finish, sort_reuse up to the depth; destruction in every state; non-trivial: more than one run"; }
    template <class T, class C, unsigned BS> void cfg(std::vector<Job>& out, bool th, const std::string& nm, bool small)
    {
        typedef stxxl::sorter<T, C, BS> S; int B = BS / sizeof(T);
        for (int cm : { 2, 4, 5, 8 }) for (int mm : { 11, 13, 16 })
        {
            if (small && (cm != 4 || mm != 11)) continue;
            if (!th && cm == 8 && mm != 11) continue;
            for (int n = 0; n <= (th ? 20 : 12) * B; n += n < 4 * B ? 1 : th ? 3 : 5)
                cont::family(out, nm + ".m" + std::to_string(cm) + "+" + std::to_string(mm) + ".n" + std::to_string(n), [=](int d) {
                    int pat = choose(d), pa = choose(3), part = pa == 0 ? 0 : pa == 1 ? n / 2 : n; cycle<S, C>(cm, mm, n, pat, part, choose(8)); }, th ? (int)NPAT : 5, th ? 3 : 2, 0);
        }
        if (small) return;
        for (int cm : { 2, 4 }) for (int op : { 0, 1, 2, 5, 6, 7 })
            cont::family(out, nm + ".h.m" + std::to_string(cm) + ".op" + std::to_string(op), [=](int d) { history<S, C>(cm, 11, d, op); }, th ? 8 : 6, th ? 7 : 5, op == 1 || op == 0 ? 3 : 0, 1, 0, 4);
        for (int n : { 3 * B, 6 * B + 1 })
            cont::family(out, nm + ".sched.n" + std::to_string(n), [=](int d) { cycle<S, C>(4, 11, n, 1, 0, 1); }, 0, 0, 1, 1, 0, 4);
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        cfg<Rec<1024>, Asc<Rec<1024> >, 4096>(out, th, "b4", false);
        cfg<Rec<1360>, Asc<Rec<1360> >, 4096>(out, th, "b3", true);
        cfg<Rec<2048>, Asc<Rec<2048> >, 4096>(out, th, "b2", !th);
    }
};
MC_MAIN(H)
