// helpers shared by the harnesses
#pragma once
#include "mc.h"
#include <pthread.h>
#include <functional>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <climits>

// a thread under the controlled scheduler
struct Thr
{
    pthread_t t; std::function<void()> f; bool started = false, done = false;
    static void* run(void* p) { Thr* s = (Thr*)p; s->f(); s->done = true; return nullptr; }
    void start(std::function<void()> fn) { f = fn; done = false; started = true; pthread_create(&t, nullptr, run, this); }
    void join() { if (started) { void* r; pthread_join(t, &r); started = false; } }
};

// Brute-force linearizability: ops with call/return stamps; apply(state, op) returns true if op's result fits.
template <class State, class Op>
struct Lin
{
    struct Rec { Op op; int call, ret; };       // ret == INT_MAX: still pending
    std::vector<Rec> recs; int clock = 0;
    int call(const Op& o) { recs.push_back(Rec { o, ++clock, INT_MAX }); return (int)recs.size() - 1; }
    void ret(int i, const Op& o) { recs[i].op = o; recs[i].ret = ++clock; }
    std::function<bool(State&, const Op&)> apply;        // completed op
    std::function<bool(State&, const Op&)> final_ok;     // is a pending op still rightly pending in the final state?
    bool dfs(const State& s, unsigned mask)
    {
        int minret = INT_MAX;
        bool any = false;
        for (size_t i = 0; i < recs.size(); ++i) if (!(mask >> i & 1) && recs[i].ret != INT_MAX) { any = true; minret = std::min(minret, recs[i].ret); }
        if (!any)
        {
            for (size_t i = 0; i < recs.size(); ++i) if (recs[i].ret == INT_MAX && final_ok) { State t = s; if (!final_ok(t, recs[i].op)) return false; }
            return true;
        }
        for (size_t i = 0; i < recs.size(); ++i)
            if (!(mask >> i & 1) && recs[i].ret != INT_MAX && recs[i].call < minret)
            {
                State t = s;
                if (apply(t, recs[i].op) && dfs(t, mask | 1u << i)) return true;
            }
        return false;
    }
};

template <class V> inline uint64_t hash_seq(const V& v, uint64_t h = 1)
{ for (auto& x : v) h = mc::mix(h, (uint64_t)x); return h; }

template <class V> inline std::string show(const V& v)
{ std::ostringstream o; o << "["; bool f = true; for (auto& x : v) { if (!f) o << " "; o << x; f = false; } o << "]"; return o.str(); }

#define MC_MAIN(H) int main(int argc, char** argv) { static H h; return mc::mc_main(argc, argv, h); }
