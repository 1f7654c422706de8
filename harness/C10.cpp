// C10: the external priority queue delivers the elements of a multiset in order, whatever its levels
#include "cont.h"
#include <stxxl/priority_queue>
#include <set>
using namespace mc;
template <int N> struct E { int k, id; int pad[(N - 12) / 4]; int chk; E() { } E(int key, int i) : k(key), id(i) { for (int& p : pad) p = key ^ i; chk = ~(key * 7 + i); } bool ok() const { for (const int& p : pad) if (p != (k ^ id)) return false; return chk == ~(k * 7 + id); } };
template <class T> struct CmpG { bool operator () (const T& a, const T& b) const { return a.k > b.k; } T min_value() const { return T(INT_MAX, 0); } };
template <class T> struct CmpL { bool operator () (const T& a, const T& b) const { return a.k < b.k; } T min_value() const { return T(INT_MIN, 0); } };

template <class PQ, int Sign>
struct T10
{
    typedef typename PQ::value_type T;
    PQ* q; std::set<std::pair<int, int> > r; int id = 0;
    void check()
    {
        MC_CHECK(q->size() == r.size(), "size " << q->size() << " instead of " << r.size()); MC_CHECK(q->empty() == r.empty(), "empty()");
        if (r.empty()) return;
        const T& t = q->top();
        MC_CHECK(t.k * Sign == r.begin()->first, "top is " << t.k << " instead of " << r.begin()->first * Sign);
        MC_CHECK(t.ok(), "top: damaged element"); MC_CHECK(r.count({ t.k * Sign, t.id }), "top: element " << t.k << "/" << t.id << " is not in the queue");
    }
    void push(int k) { transition(); q->push(T(k, ++id)); r.insert({ k * Sign, id }); check(); }
    void pop() { if (r.empty()) return; transition(); T t = q->top(); r.erase({ t.k * Sign, t.id }); q->pop(); check(); }
    void run(int depth, int start, int step, int first)
    {
        int hi = 1000, lo = 1000;
        for (int i = 0; i < start; ++i) push(500 + (i * step) % 97);
        for (int i = 0; i < depth; ++i)
        {
            int op = i == 0 && first >= 0 ? first : choose(9);
            switch (op)
            {
            case 0: MC_NOTE("push 1 behind"); push(++hi); break;
            case 1: MC_NOTE("push 1 in front"); push(--lo - 900); break;
            case 2: MC_NOTE("pop 1"); pop(); break;
            case 3: MC_NOTE("pop 5"); for (int j = 0; j < 5; ++j) pop(); break;
            case 4: MC_NOTE("push 11 behind"); for (int j = 0; j < 11; ++j) push(++hi); break;
            case 5: MC_NOTE("push 11 in front"); for (int j = 0; j < 11; ++j) push(--lo - 900); break;
            case 6: MC_NOTE("push 13 scattered"); for (int j = 0; j < 13; ++j) push(450 + (j * 37 + i) % 150); break;
            case 7: MC_NOTE("push 9 equal to top, pop 4"); { int k = r.empty() ? 5 : r.begin()->first * Sign; for (int j = 0; j < 9; ++j) push(k); for (int j = 0; j < 4; ++j) pop(); } break;
            case 8: MC_NOTE("pop 40"); for (int j = 0; j < 40; ++j) pop(); break;
            }
            state(mix(mix(r.size(), hi * 64 + op), lo));
        }
        int fin = deviate(2);
        while (!r.empty()) { pop(); if (fin && r.size() % 3 == 0 && !r.empty()) { pop(); push(r.empty() ? 3 : r.begin()->first * Sign + 1); if (!r.empty()) pop(); } }
        if (start > 16) nontrivial();
        outcome(mix(id, start));
    }
};
// fill, pop down to every possible remainder, fill again (behind, in front or mixed), drain: groups of every remaining size are merged upwards
template <class PQ, int Sign> static void levels(PQ& q, int s1, int s2, int how)
{
    T10<PQ, Sign> t; t.q = &q;
    MC_NOTE("fill " << s1);
    for (int i = 0; i < s1; ++i) t.push(Sign * (500 + (how == 3 ? i * 31 % 97 : i)));
    int p = choose(s1 + 1);
    MC_NOTE("pop " << p << ", push " << s2 << " kind " << how);
    for (int i = 0; i < p; ++i) t.pop();
    for (int i = 0; i < s2; ++i) t.push(Sign * (how == 0 ? 1000 + i : how == 1 ? 400 - i : how == 2 ? 500 + p + i % 5 : 450 + i * 37 % 150));
    MC_NOTE("drain"); state(mix(mix(s1, s2), mix(p, how))); outcome(mix(p, how)); nontrivial();
    while (!t.r.empty()) t.pop();
}
struct H : Harness
{
    const char* id() { return "C10"; }
    void init() { cont::setup(2, 16); }
    std::string rule() { return "all operation histories (pushes behind, before, scattered and equal to the content, pops of 1, 5, 40) to the depth, from contents that fill the insert heap, the internal groups, both external groups and overflow them, for several geometries and pool sizes; fills popped down to every possible remainder and filled again in four ways; size, emptiness and top checked after every single push and pop, then emptied completely; non-trivial: external groups are in use"; }
    template <class T, class C, int Sign, int DB, int NN, int IK, int IL, int BS, int EK, int EL>
    void cfg(std::vector<Job>& out, bool th, const std::string& name)
    {
        typedef stxxl::priority_queue<stxxl::priority_queue_config<T, C, DB, NN, IK, IL, BS, EK, EL> > PQ;
        for (int s1 : { 30, 55, 110, 150 }) for (int how = 0; how < 4; ++how) if (s1 < 120 || IL == 2)
            cont::family(out, name + ".lev" + std::to_string(s1) + "." + std::to_string(how), [=](int d) {
                static const int s2s[] = { 60, 25, 120, 180 };
                cont::Scope sc; { std::unique_ptr<PQ> q(new PQ(8 * BS, 6 * BS)); levels<PQ, Sign>(*q, s1, s2s[d > 1 ? choose(d) : 0], how); } sc.finish(); }, th ? 4 : s1 < 100 ? 2 : 1, s1 < 60 || th ? 1 : 0, 0);
        int n = 0;
        for (int start : { 0, 7, 20, 45, 90, 180, 270 }) if (start < 200 || IL == 2)
            for (int step : { 1, 96, 31 })
                for (int pool = 0; pool < 3; ++pool)
                {
                    ++n; int ps[][2] = { { 2, 2 }, { 8, 6 }, { 3, 12 } };
                    int pp = ps[pool][0], pw = ps[pool][1];
                    auto body = [=](int first, int d) {
                        cont::Scope sc;
                        if (pool == 2) { stxxl::read_write_pool<typename PQ::block_type> p(pp, pw); { std::unique_ptr<PQ> q(new PQ(p)); T10<PQ, Sign> t; t.q = q.get(); t.run(d, start, step, first); } }
                        else { std::unique_ptr<PQ> q(new PQ(pp * BS, pw * BS)); T10<PQ, Sign> t; t.q = q.get(); t.run(d, start, step, first); }
                        sc.finish();
                    };
                    std::string nm = name + ".s" + std::to_string(start) + "t" + std::to_string(step) + "p" + std::to_string(pool);
                    int dl = th ? 4 : n % 5 == 0 ? 3 : 2;
                    cont::family(out, nm, [=](int d) { body(-1, d); }, dl, th || n % 3 == 0 ? 2 : 1, (th && start < 100) || ((n % 6) == 0 && start < 50) ? 1 : 0, 1, 1, 4);
                }
    }
    void jobs(bool th, std::vector<Job>& out)
    {
        typedef E<1024> T4; typedef E<1360> T3; typedef E<12> T12;
        // an internal merger must take one segment per group and a new one
        cfg<T4, CmpG<T4>, 1, 4, 6, 4, 1, 4096, 2, 2>(out, th, "a");
        cfg<T3, CmpL<T3>, -1, 3, 4, 4, 2, 4096, 4, 1>(out, th, "b");
        cfg<T4, CmpL<T4>, -1, 2, 3, 8, 2, 4096, 2, 2>(out, th, "c");
        cfg<T3, CmpG<T3>, 1, 4, 4, 4, 1, 8192, 3, 1>(out, th, "d");
        cfg<T4, CmpG<T4>, 1, 4, 5, 4, 1, 4096, 4, 2>(out, th, "e");
    }
};
MC_MAIN(H)
