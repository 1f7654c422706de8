// U04: shared objects live exactly as long as they are referenced
#include "cont.h"
#include "h.h"
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/common/external_shared_ptr.h>
#include <memory>
using namespace mc;
using stxxl::counting_ptr; using stxxl::const_counting_ptr;
#ifndef THREADS
// ---- sequential histories over objects that may refer to each other
static std::set<int> g_alive; static int g_next, g_copies;
template <class Base> struct Node : Base {
    int id, val; counting_ptr<Node> next;
    Node(int v) : id(g_next++), val(v) { g_alive.insert(id); }
    Node(const Node& o) : Base(o), id(g_next++), val(o.val), next(o.next) { g_alive.insert(id); ++g_copies; }
    Node& operator = (const Node& o) { Base::operator = (o); val = o.val; next = o.next; return *this; }
    ~Node() { if (!g_alive.erase(id)) fail("an object is destroyed twice"); }
};
template <class Base> static void histories(int depth, int first, bool withconst)
{
    typedef Node<Base> N; typedef counting_ptr<N> P; typedef const_counting_ptr<N> CP; g_alive.clear(); g_next = g_copies = 0;
    {
        // the model: which object every pointer variable refers to; objects are known by their number
        const int NV = 3, NC = 2; std::unique_ptr<P> v[NV]; std::unique_ptr<CP> c[NC]; int mv[NV], mcn[NC]; std::map<int, int> nx, val; std::map<int, N*> raw;
        for (int i = 0; i < NV; ++i) { v[i].reset(new P); mv[i] = -1; } for (int i = 0; i < NC; ++i) { c[i].reset(new CP); mcn[i] = -1; }
        auto made = [&](N* n, int vv) { raw[n->id] = n; nx[n->id] = -1; val[n->id] = vv; return n->id; };
        auto refs = [&](int id) { int r = 0; for (int x : mv) r += x == id; for (int x : mcn) r += x == id; for (auto& p : nx) r += p.second == id; return r; };
        auto settle = [&] { for (bool again = true; again; ) { again = false; for (auto it = nx.begin(); it != nx.end(); ++it) if (refs(it->first) == 0) { raw.erase(it->first); val.erase(it->first); nx.erase(it); again = true; break; } } };
        auto check = [&] {
            transition(); settle(); std::set<int> want; for (auto& p : nx) want.insert(p.first);
            if (g_alive != want) { std::string s; for (int x : g_alive) if (!want.count(x)) s += " object " + std::to_string(x) + " has no reference but lives"; for (int x : want) if (!g_alive.count(x)) s += " object " + std::to_string(x) + " is referenced but destroyed"; fail(s); }
            for (auto& p : raw) { int r = refs(p.first); if (p.second->get_reference_count() != (stxxl::unsigned_type)r) fail("object " + std::to_string(p.first) + " counts " + std::to_string(p.second->get_reference_count()) + " references instead of " + std::to_string(r)); if (p.second->unique() != (r == 1)) fail("unique() is wrong"); if (p.second->val != val[p.first]) fail("the contents of object " + std::to_string(p.first) + " changed"); if (p.second->next.get() != (nx[p.first] < 0 ? 0 : raw[nx[p.first]])) fail("a reference within an object changed"); }
            for (int i = 0; i < NV; ++i) { const P& p = *v[i]; N* w = mv[i] < 0 ? 0 : raw[mv[i]]; if (p.get() != w || p.valid() != (w != 0) || p.empty() != (w == 0) || (bool)p != (w != 0) || (N*)p != w || p.unique() != (w && refs(mv[i]) == 1)) fail("pointer " + std::to_string(i) + " is wrong"); if (w && (&*p != w || p->val != val[mv[i]])) fail("dereferencing pointer " + std::to_string(i)); for (int j = 0; j < NV; ++j) if ((p == *v[j]) != (mv[i] == mv[j]) || (p != *v[j]) == (mv[i] == mv[j])) fail("comparison of pointers"); }
            for (int i = 0; i < NC; ++i) { const CP& p = *c[i]; const N* w = mcn[i] < 0 ? 0 : raw[mcn[i]]; if (p.get() != w || p.valid() != (w != 0) || p.empty() != (w == 0) || p.unique() != (w && refs(mcn[i]) == 1)) fail("constant pointer " + std::to_string(i) + " is wrong"); for (int j = 0; j < NV; ++j) if ((p == *v[j]) != (mcn[i] == mv[j]) || (p != *v[j]) == (mcn[i] == mv[j])) fail("comparison of constant pointers"); for (int j = 0; j < NC; ++j) if ((p == *c[j]) != (mcn[i] == mcn[j])) fail("comparison of constant pointers"); }
            uint64_t h = 1; for (int x : mv) h = mix(h, x); for (int x : mcn) h = mix(h, x); for (auto& p : nx) h = mix(mix(h, p.first), p.second); state(h); outcome(nx.size()); if (nx.size() > 1) nontrivial(); };
        auto reaches = [&](int from, int to) { for (int k = 0; from >= 0 && k < 50; ++k) { if (from == to) return true; from = nx[from]; } return false; };
        for (int d = 0; d < depth; ++d)
        {
            int op = d == 0 && first ? first : choose(withconst ? 15 : 11); if (op == 0) break; int i = op < 11 ? choose(NV) : 0;
            switch (op) {
            case 1: { MC_NOTE("p" << i << " = new"); N* n = new N(d); made(n, d); mv[i] = n->id; *v[i] = n; break; }
            case 2: { int j = choose(NV); MC_NOTE("p" << i << " = p" << j); *v[i] = *v[j]; mv[i] = mv[j]; break; }
            case 3: { MC_NOTE("p" << i << " = NULL"); if (choose(2)) *v[i] = (N*)0; else *v[i] = P(); mv[i] = -1; break; }
            case 4: { int j = choose(NV); MC_NOTE("p" << i << " = p" << j << ".get()"); *v[i] = v[j]->get(); mv[i] = mv[j]; break; }
            case 5: { int j = choose(NV); MC_NOTE("swap p" << i << " p" << j); if (choose(2)) v[i]->swap(*v[j]); else swap(*v[i], *v[j]); std::swap(mv[i], mv[j]); break; }
            case 6: { bool sh = mv[i] >= 0 && refs(mv[i]) > 1; int cp = g_copies; MC_NOTE("unify p" << i); int o = mv[i]; v[i]->unify(); if (g_copies - cp != (sh ? 1 : 0)) fail("unify copied " + std::to_string(g_copies - cp) + " times"); if (sh) { N* n = v[i]->get(); if (n == raw[o]) fail("unify kept the shared object"); made(n, val[o]); nx[n->id] = nx[o]; mv[i] = n->id; } break; }
            case 7: { int j = choose(NV); MC_NOTE("p" << i << " rebuilt as a copy of p" << j); P* q = new P(*v[j]); v[i].reset(q); mv[i] = mv[j]; break; }
            case 8: { int j = choose(NV); if (mv[i] < 0 || (mv[j] >= 0 && reaches(mv[j], mv[i]))) continue; MC_NOTE("p" << i << "->next = p" << j); (*v[i])->next = *v[j]; nx[mv[i]] = mv[j]; break; }
            case 9: { if (mv[i] < 0) continue; MC_NOTE("p" << i << " = p" << i << "->next"); *v[i] = (*v[i])->next; mv[i] = nx[mv[i]]; break; }
            case 10: { int j = choose(NV); if (mv[i] < 0 || mv[j] < 0 || (nx[mv[j]] >= 0 && reaches(nx[mv[j]], mv[i]))) continue; MC_NOTE("*p" << i << " = *p" << j); **v[i] = **v[j]; val[mv[i]] = val[mv[j]]; nx[mv[i]] = nx[mv[j]]; break; }
            case 11: { int k = choose(NC), j = choose(NV); MC_NOTE("c" << k << " = p" << j); if (choose(2)) *c[k] = *v[j]; else c[k].reset(new CP(*v[j])); mcn[k] = mv[j]; break; }
            case 12: { int k = choose(NC), j = choose(NC); MC_NOTE("c" << k << " = c" << j); if (choose(2)) *c[k] = *c[j]; else { CP* q = new CP(*c[j]); c[k].reset(q); } mcn[k] = mcn[j]; break; }
            case 13: { int k = choose(NC); MC_NOTE("c" << k << " = NULL"); *c[k] = (const N*)0; mcn[k] = -1; break; }
            case 14: { MC_NOTE("swap c0 c1"); if (choose(2)) c[0]->swap(*c[1]); else swap(*c[0], *c[1]); std::swap(mcn[0], mcn[1]); break; }
            }
            check();
        }
        for (int i = 0; i < NV; ++i) { v[i].reset(); mv[i] = -1; settle(); if (g_alive.size() != nx.size()) fail("destroying a pointer leaves " + std::to_string(g_alive.size()) + " objects instead of " + std::to_string(nx.size())); }
        for (int i = 0; i < NC; ++i) { c[i].reset(); mcn[i] = -1; settle(); if (g_alive.size() != nx.size()) fail("destroying a constant pointer leaves " + std::to_string(g_alive.size()) + " objects instead of " + std::to_string(nx.size())); }
    }
    if (!g_alive.empty()) fail("an object outlives its last reference");
}
// ---- proxies that keep a reference while they lie on disk
static void proxies(int depth)
{
    typedef std::shared_ptr<int> S; typedef stxxl::external_shared_ptr<S> X; S s[2]; int ms[2] = { -1, -1 }, id = 0; std::map<int, std::weak_ptr<int> > weak; std::vector<int> wrapped; std::vector<std::vector<char> > disk;
    auto check = [&] { transition(); uint64_t h = 4; for (auto& p : weak) { int r = 0; for (int x : ms) r += x == p.first; for (int x : wrapped) r += x == p.first; if (p.second.use_count() != r) fail("object " + std::to_string(p.first) + " has " + std::to_string(p.second.use_count()) + " references instead of " + std::to_string(r)); h = mix(h, r); } state(mix(h, disk.size())); outcome(wrapped.size()); if (wrapped.size() > 1) nontrivial(); };
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(6); if (op == 0) break;
        if (op == 1) { int i = choose(2); s[i] = S(new int(id)); weak[id] = s[i]; ms[i] = id++; MC_NOTE("new object in " << i); }
        if (op == 2) { int i = choose(2); if (ms[i] < 0) continue; MC_NOTE("wrap " << i); X x(s[i]); X y(x); X z; z = y; std::vector<char> b(sizeof z); memcpy(b.data(), (void*)&z, sizeof z); disk.push_back(b); wrapped.push_back(ms[i]); }
        if (op == 3) { int i = choose(2); MC_NOTE("drop " << i); s[i].reset(); ms[i] = -1; }
        if (op == 4) { if (disk.empty()) continue; int k = choose((int)disk.size()), i = choose(2); X x; memcpy((void*)&x, disk[k].data(), sizeof x); MC_NOTE("get " << k << " into " << i); s[i] = x.get(); ms[i] = wrapped[k]; if (!s[i] || *s[i] != wrapped[k]) fail("another object comes back from disk"); for (size_t j = 0; j < disk.size(); ++j) { X y; memcpy((void*)&y, disk[j].data(), sizeof y); if ((x == y) != (wrapped[j] == wrapped[k])) fail("comparison of proxies"); } }
        if (op == 5) { if (disk.empty()) continue; int k = choose((int)disk.size()); X x; memcpy((void*)&x, disk[k].data(), sizeof x); MC_NOTE("unwrap " << k); x.unwrap(); disk.erase(disk.begin() + k); wrapped.erase(wrapped.begin() + k); }
        check();
    }
    while (!disk.empty()) { X x; memcpy((void*)&x, disk.back().data(), sizeof x); x.unwrap(); disk.pop_back(); wrapped.pop_back(); check(); }
}
struct H : Harness {
    const char* id() override { return "U04"; }
    void init() override { cont::quiet_log(); }
    std::string rule() override { return "all histories up to the depth of creating, assigning (also from itself, from a raw pointer and from a pointer inside the object being released), swapping, unifying, copying, chaining and resetting over three counting pointers and two constant ones; object lifetimes, counts and uniqueness compared with a model after every step; histories of external_shared_ptr proxies moved through raw memory"; }
    void jobs(bool th, std::vector<Job>& out) override
    {
        Opts o; o.max_points = 4000000;
        for (int f = 1; f <= (th ? 3 : 1); f += 2) out.push_back(Job { "pointers, first " + std::to_string(f), [th, f] { histories<stxxl::counted_object>(th ? 5 : 4, f, true); }, o });
        out.push_back(Job { "pointers of the thread-safe kind", [th] { histories<stxxl::atomic_counted_object>(th ? 5 : 3, 1, false); }, o });
        out.push_back(Job { "chains", [th] { histories<stxxl::counted_object>(th ? 6 : 4, 1, false); }, o });
        out.push_back(Job { "proxies", [th] { proxies(th ? 9 : 7); }, o });
    }
};
#else
// ---- threads: every thread owns pointers to shared objects and runs a program on them
static int g_alive, g_dead;
struct Obj : stxxl::atomic_counted_object { int val[3]; Obj() { val[0] = val[1] = val[2] = 0; ++g_alive; } Obj(const Obj& o) : stxxl::atomic_counted_object(o) { val[0] = o.val[0]; val[1] = o.val[1]; val[2] = o.val[2]; race_ignore(true); ++g_alive; race_ignore(false); } ~Obj() { val[0] = val[1] = val[2] = -99; race_ignore(true); ++g_dead; race_ignore(false); } };
typedef counting_ptr<Obj> P;
// op 0: drop own; 1: copy to a local and drop the local; 2: assign from the second own pointer; 3: read through it; 4: copy out and back over itself; 5: swap own pointers; 6: write own cell of the object
static void run(std::vector<std::vector<int> > prog, bool keep)
{
    g_alive = g_dead = 0; size_t n = prog.size(); Obj* a = new Obj; Obj* b = new Obj; std::vector<P> p(n), q(n); P main;
    { P x(a), y(b); for (size_t i = 0; i < n; ++i) { p[i] = x; q[i] = y; } if (keep) main = x; }
    Thr t[3];
    for (size_t i = 0; i < n; ++i) t[i].start([&, i] {
        for (int op : prog[i]) {
            P& o = p[i]; transition();
            if (op == 0) o = P(); if (op == 1) { P l(o); if (l.valid() && l->val[i] < -50) fail("a referenced object is destroyed"); } if (op == 2) o = q[i]; if (op == 3 && o.valid() && o->val[i] < -50) { fail("a referenced object is destroyed"); }
            if (op == 4) { P l; l = o; o = l; } if (op == 5) swap(o, q[i]); if (op == 6 && o.valid()) o->val[i] = 7;
        } });
    for (size_t i = 0; i < n; ++i) t[i].join();
    // now only this thread holds pointers
    int ra = main.get() == a, rb = 0; for (size_t i = 0; i < n; ++i) { ra += (p[i].get() == a) + (q[i].get() == a); rb += (p[i].get() == b) + (q[i].get() == b); }
    int dead = (ra == 0) + (rb == 0); uint64_t h = mix(ra, rb); state(h); outcome(h); if (dead) nontrivial(); MC_NOTE("references left: " << ra << " " << rb);
    if (g_dead != dead) fail(std::to_string(g_dead) + " objects destroyed, but " + std::to_string(dead) + " have no reference left");
    if (ra && (a->get_reference_count() != (stxxl::unsigned_type)ra || a->unique() != (ra == 1))) fail("count is " + std::to_string(a->get_reference_count()) + " with " + std::to_string(ra) + " references");
    if (rb && (b->get_reference_count() != (stxxl::unsigned_type)rb || b->unique() != (rb == 1))) fail("count is " + std::to_string(b->get_reference_count()) + " with " + std::to_string(rb) + " references");
    main = P(); p.clear(); q.clear(); if (g_dead != 2) fail("an object outlives its last reference");
}
struct H : Harness {
    const char* id() override { return "U04"; }
    void init() override { }
    std::string rule() override { return "all interleavings, at every atomic operation, of two or three threads that drop, copy, assign, swap and use their own pointers to two shared objects; destruction exactly once, counts, data races and uses after destruction are checked"; }
    void jobs(bool th, std::vector<Job>& out) override
    {
        Opts o; o.sched = true; o.bound = th ? 6 : 4; o.atomic_points = true; o.max_points = 4000;
        auto add = [&](std::vector<std::vector<int> > p) { for (int keep = 0; keep < 2; ++keep) { std::string n = keep ? "kept" : "dropped"; for (auto& x : p) { n += " |"; for (int v : x) n += " " + std::to_string(v); } out.push_back(Job { n, [p, keep] { run(p, keep); }, o }); } };
        for (int a = 0; a < 7; ++a) for (int b = a; b < 7; ++b) { add({ { a }, { b } }); add({ { a, 0 }, { b, 0 } }); add({ { a, 2 }, { b, 0 } }); if (th) for (int c = 0; c < 7; ++c) add({ { a, c, 0 }, { b, 0 } }); }
        add({ { 0 }, { 0 }, { 0 } }); add({ { 1, 0 }, { 2 }, { 0 } }); if (th) add({ { 4, 0 }, { 5, 0 }, { 1, 0 } });
        if (th) for (int a = 0; a < 7; ++a) for (int b = a; b < 7; ++b) for (int c = b; c < 7; ++c) add({ { a, 0 }, { b, 0 }, { c } });
    }
};
#endif
MC_MAIN(H)
