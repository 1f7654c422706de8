// U05: tournament and loser trees always select the best remaining player
#include "algo.h"
#include <stxxl/bits/common/winner_tree.h>
#include <stxxl/bits/algo/losertree.h>
#include <stxxl/bits/parallel/losertree.h>
#include <stxxl/bits/containers/pq_helpers.h>
#include <stxxl/bits/containers/pq_mergers.h>
#include <stxxl/bits/containers/pq_int_merger.h>
using namespace mc;
// ---- the winner tree
static const int NP = 9;
struct Less { int* v; const bool* act; bool operator () (stxxl::unsigned_type a, stxxl::unsigned_type b) const { if (a >= (stxxl::unsigned_type)NP || b >= (stxxl::unsigned_type)NP || !act[a] || !act[b]) fail("an inactive player takes part in a game"); return v[a] < v[b]; } };
static void winner(int n0, int depth, int values)
{
    int val[NP] = { 0 }; bool act[NP] = { false }; Less less { val, act }; stxxl::winner_tree<Less> t(n0, less); size_t slots = 1; while ((int)slots < n0) slots *= 2;
    auto check = [&] {
        transition(); int best = -1; uint64_t h = slots; for (int i = 0; i < NP; ++i) { if (act[i] && (best < 0 || val[i] < val[best])) best = i; h = mix(h, act[i] ? val[i] + 1 : 0); }
        state(h); if (best < 0) { if (!t.empty()) fail("not empty although no player is active"); outcome(99); }
        else { if (t.empty()) fail("empty although a player is active"); stxxl::unsigned_type w = t.top(); if (w >= (stxxl::unsigned_type)NP || !act[w]) fail("the winner is not an active player"); if (val[w] != val[best]) fail("the winner " + std::to_string(w) + " is not the best player"); outcome(mix(w, val[w])); if (best != (int)w || slots > 2) nontrivial(); }
        if (t.num_slots() != slots) fail("number of slots is " + std::to_string(t.num_slots()) + " instead of " + std::to_string(slots)); };
    check(); auto grow = [&](int i) { while ((int)slots <= i) slots *= 2; };
    static const int idx[] = { 0, 1, 2, 3, 4, 5, 8 }; const int NI = 7;
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(9); if (op == 0) break;
        if (op == 1) { int i = idx[choose(NI)]; val[i] = choose(values); act[i] = true; grow(i); MC_NOTE("activate " << i << " with " << val[i]); t.activate_player(i); }
        if (op == 2) { int i = idx[choose(NI)]; if (i >= (int)slots) continue; MC_NOTE("deactivate " << i); act[i] = false; t.deactivate_player(i); }
        if (op == 3) { int i = idx[choose(NI)]; if (!act[i]) continue; val[i] = choose(values); MC_NOTE("change " << i << " to " << val[i]); t.notify_change(i); }
        if (op == 4) { if (t.empty()) continue; val[t.top()] = choose(values); MC_NOTE("winner " << t.top() << " gets " << val[t.top()]); t.replay_on_pop(); }
        if (op == 5) { static const int bt[6][3] = { { 0, 1, 1 }, { 0, 2, 2 }, { 2, 3, 1 }, { 3, 2, 0 }, { 0, 8, 1 }, { 4, 1, 5 } }; int m = choose(6), a = bt[m][0], b = bt[m][1], c = bt[m][2]; std::vector<int> l; for (int x : { a, b, c }) if (x < (int)slots && act[x] && std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x);
            for (int x : l) { MC_NOTE("batch deactivate " << x); act[x] = false; t.deactivate_player_step(x); } for (int x : l) t.replay_on_deactivations(x); }
        if (op == 6) { int i = idx[choose(NI)], j = idx[choose(2)]; MC_NOTE("without replay: activate " << i << ", deactivate " << j << ", rebuild"); val[i] = choose(values); act[i] = true; grow(i); t.activate_without_replay(i); if (j < (int)slots) { act[j] = false; t.deactivate_without_replay(j); } t.rebuild(); }
        if (op == 7) { MC_NOTE("clear"); for (bool& a : act) a = false; t.clear(); }
        if (op == 8) { int n = 1 + choose(5), how = choose(2); slots = 1; while ((int)slots < n) slots *= 2; for (int i = 0; i < NP; ++i) { act[i] = how && i < n; val[i] = (i * 5 + 2) % 4; } MC_NOTE("resize to " << n << (how ? " and rebuild" : " and clear")); if (how) t.resize_and_rebuild(n); else t.resize_and_clear(n); }
        check();
    }
}
// ---- sequences: every way to distribute sorted keys over k sequences
struct E { int key, src, pos; };
struct ELess { bool operator () (const E& a, const E& b) const { return a.key < b.key; } };
static std::vector<std::vector<E> > seqs(int k, int total, int keys)
{
    std::vector<std::vector<E> > s(k);
    for (int i = 0; i < k; ++i) { int left = total; for (auto& x : s) left -= x.size(); int n = i == k - 1 ? left : choose(left + 1); int key = 0; for (int j = 0; j < n; ++j) { key += choose(keys - key); s[i].push_back(E { key, i, j }); } }
    uint64_t h = 17; std::string t; for (auto& x : s) { h = mix(h, 77); t += "["; for (E& e : x) { h = mix(h, e.key); t += std::to_string(e.key) + " "; } t += "]"; } MC_NOTE(t); state(h); if (k & (k - 1)) nontrivial(); return s;
}
struct Merge {      // what may come next
    std::vector<std::vector<E> > s; std::vector<size_t> at; bool stable;
    Merge(const std::vector<std::vector<E> >& s, bool stable) : s(s), at(s.size()), stable(stable) { }
    int best() { int b = -1; for (size_t i = 0; i < s.size(); ++i) if (at[i] < s[i].size() && (b < 0 || s[i][at[i]].key < s[b][at[b]].key)) b = i; return b; }
    void take(int src)
    {
        transition(); int b = best(); if (src < 0 || src >= (int)s.size() || at[src] >= s[src].size()) fail("source " + std::to_string(src) + " has no element left");
        if (s[src][at[src]].key != s[b][at[b]].key) fail("source " + std::to_string(src) + " is selected although its head is not the smallest"); if (stable && src != b) fail("of two equal heads the one of source " + std::to_string(src) + " comes before that of source " + std::to_string(b)); ++at[src]; outcome(mix(src, at[src]));
    }
};
template <class LT, bool Stable> static void guarded(int k, int total, int keys)
{
    auto s = seqs(k, total, keys); Merge m(s, Stable); LT lt(k, ELess()); E any { 0, -1, 0 };
    for (int i = 0; i < k; ++i) if (s[i].empty()) lt.insert_start(any, i, true); else lt.insert_start(s[i][0], i, false);
    lt.init();
    for (int n = 0; n < total; ++n) { int src = lt.get_min_source(); m.take(src); size_t& a = m.at[src]; if (a < s[src].size()) lt.delete_min_insert(s[src][a], false); else lt.delete_min_insert(s[src].back(), true); }
}
template <class LT, bool Stable> static void unguarded(int k, int total, int keys)
{
    auto s = seqs(k, total, keys); Merge m(s, Stable); E sen { keys + 1, -1, 0 }; LT lt(k, sen, ELess());
    for (auto& x : s) x.push_back(sen);
    for (int i = 0; i < k; ++i) lt.insert_start(s[i][0], i);
    lt.init();
    for (int n = 0; n < total; ++n) { int src = lt.get_min_source(); m.take(src); lt.delete_min_insert(s[src][m.at[src]]); }
}
// ---- the loser tree of the sorting algorithms
static std::vector<std::vector<E> >* g_runs; static int g_pull;
struct Blk { E* d; };
struct Pf { E* pull_block() { return &(*g_runs)[g_pull++][0]; } };
struct Cur {
    typedef Pf prefetcher_type; typedef E value_type; E* buffer; int pos; Pf* pf; static Pf* one;
    Cur() : buffer(0), pos(0), pf(0) { } const E& current() const { return buffer[pos]; } Cur& operator ++ () { ++pos; return *this; }
    void make_inf() { buffer = 0; } bool inf() const { return !buffer || buffer[pos].src < 0; }
    Pf*& prefetcher() { return pf; } static void set_prefetcher(Pf* p) { one = p; }
};
Pf* Cur::one;
struct CurLess { bool operator () (const Cur& a, const Cur& b) const { if (b.inf()) return true; if (a.inf()) return false; return a.current().key < b.current().key; } };
static void check_merged(Merge& m, const E* b, const E* e) { for ( ; b != e; ++b) { if (b->src < 0) fail("a sentinel is among the merged elements"); if (b->pos != (int)m.at[b->src]) fail("an element is repeated or skipped"); m.take(b->src); } }
static void sortmerge(int k, int total, int keys, int chunk)
{
    auto s = seqs(k, total, keys); Merge m(s, false); for (auto& x : s) x.push_back(E { 0, -1, 0 }); g_runs = &s; g_pull = 0; Pf pf;
    stxxl::loser_tree<Cur, CurLess> t(&pf, k, CurLess()); std::vector<E> out(total + 1);
    for (int n = 0; n < total; ) { int c = std::min(chunk, total - n); E guard { 42, 42, 42 }; out[n + c] = guard; t.multi_merge(&out[n], &out[n] + c); if (out[n + c].src != 42) fail("written beyond the end"); check_merged(m, &out[n], &out[n] + c); n += c; }
}
static void sortmerge_wide(int k)
{   // many sequences: heads in several orders, one or two elements each
    int pat = choose(4), len = 1 + choose(2), c = choose(3), chunk = c == 0 ? 1 : c == 1 ? 7 : k * len; std::vector<std::vector<E> > s(k);
    for (int i = 0; i < k; ++i) for (int j = 0; j < len; ++j) { int key = pat == 0 ? i : pat == 1 ? k - i : pat == 2 ? (i * 7919) % 1009 : i % 3; s[i].push_back(E { key + j * (1 + pat), i, j }); }
    Merge m(s, false); for (auto& x : s) x.push_back(E { 0, -1, 0 }); g_runs = &s; g_pull = 0; Pf pf; stxxl::loser_tree<Cur, CurLess> t(&pf, k, CurLess()); int total = k * len; std::vector<E> out(total + 1);
    int last = -1; std::vector<int> at(k); for (int n = 0; n < total; ) { int q = std::min(chunk, total - n); t.multi_merge(&out[n], &out[n] + q); for (int i = n; i < n + q; ++i) { E& e = out[i]; transition(); if (e.src < 0 || e.pos != at[e.src]++) fail("an element is repeated or skipped"); if (e.key < last) fail("not the smallest head"); last = e.key; } n += q; }
    outcome(mix(k, pat)); state(mix(mix(k, pat), mix(len, chunk))); nontrivial();
}
// ---- the merger of the priority queue: sequences are added while others are being merged
struct PE { int key, id; };
struct PCmp { bool operator () (const PE& a, const PE& b) const { return a.key < b.key; } PE min_value() const { return PE { -1, -1 }; } };
template <unsigned Arity> static void merger(int depth, int maxlen)
{
    stxxl::priority_queue_local::int_merger<PE, PCmp, Arity> im; std::vector<std::vector<PE> > live; int id = 0; size_t size = 0; uint64_t h = Arity;
    auto take = [&](size_t n) {
        std::vector<PE> out(n + 1); PE g { 77, 77 }; out[n] = g; im.multi_merge(out.data(), out.data() + n); if (out[n].key != 77) fail("written beyond the end"); transition();
        for (size_t i = 0; i < n; ++i) { int best = -1; for (auto& v : live) if (!v.empty()) best = std::max(best, v[0].key); bool found = false; if (out[i].key != best) fail("the merged element is not the best one"); for (auto& v : live) if (!v.empty() && v[0].id == out[i].id) { v.erase(v.begin()); found = true; break; } if (!found) fail("the merged element is not the head of a sequence"); outcome(mix(best, i)); }
        size -= n; size_t k = 0; for (size_t i = 0; i < live.size(); ++i) if (!live[i].empty()) live[k++] = live[i]; live.resize(k); };
    for (int d = 0; d < depth; ++d)
    {
        int op = choose(3); if (op == 0) break;
        if (op == 1) { if (live.size() >= Arity) continue; if (!im.is_space_available()) fail("no space although only " + std::to_string(live.size()) + " sequences are there");
            int n = choose(maxlen + 1), pat = n ? choose(3) : 0; PE* a = new PE[n + 1]; std::vector<PE> v; for (int j = 0; j < n; ++j) { int key = pat == 0 ? n - j : pat == 1 ? 2 : 2 * (n - j) - 1; a[j] = PE { key, id++ }; v.push_back(a[j]); } a[n] = PCmp().min_value(); MC_NOTE("append " << n << " elements, pattern " << pat); im.append_array(a, n); if (n) live.push_back(v); size += n; h = mix(h, n * 3 + pat); }
        if (op == 2) { if (!size) continue; int c = choose(3); size_t n = c == 0 ? 1 : c == 1 ? std::min<size_t>(size, 2) : size; if (c == 1 && size <= 1) continue; if (c == 2 && size <= 2) continue; MC_NOTE("merge " << n); take(n); h = mix(h, 1000 + n); }
        if (im.size() != size) fail("size is " + std::to_string(im.size()) + " instead of " + std::to_string(size)); state(h); if (live.size() > 2) nontrivial();
        if (live.size() == Arity && im.is_space_available()) fail("space available beyond the maximum number of sequences");
    }
    while (size) take(std::min<size_t>(size, 3)); if (im.mem_cons()) fail("memory still accounted after everything was merged");
}
static void filled(int k0, int rounds)
{   // from a merger with many sequences: merge out, compact, refill
    stxxl::priority_queue_local::int_merger<PE, PCmp, 16> im; int id = 0; std::multiset<int> all; std::map<int, int> key;
    auto app = [&](int n, int base) { PE* a = new PE[n + 1]; for (int j = 0; j < n; ++j) { a[j] = PE { base + n - j, id }; key[id] = base + n - j; all.insert(base + n - j); ++id; } a[n] = PCmp().min_value(); im.append_array(a, n); };
    auto take = [&](size_t n) { std::vector<PE> out(n); im.multi_merge(out.data(), out.data() + n); for (PE& e : out) { transition(); if (all.empty() || e.key != *all.rbegin()) fail("the merged element is not the best one"); auto f = key.find(e.id); if (f == key.end() || f->second != e.key) fail("the merged element is not one of those left"); key.erase(f); all.erase(--all.end()); } };
    int pat = choose(4); for (int i = 0; i < k0; ++i) app(1 + (pat & 1 ? i % 3 : 0), pat & 2 ? (i * 7) % k0 : i); MC_NOTE(k0 << " sequences, pattern " << pat);
    for (int r = 0; r < rounds; ++r) { size_t n = choose((int)std::min<size_t>(all.size(), 18) + 1); MC_NOTE("merge " << n); take(n); if (im.size() != all.size()) fail("size"); int a = choose(3); if (a && im.is_space_available()) app(a, choose(2) * 9); }
    uint64_t h = k0; for (int x : all) h = mix(h, x); state(h); outcome(all.size()); nontrivial(); if (all.size()) take(all.size());
}
namespace sp = stxxl::parallel;
struct H : Harness {
    const char* id() override { return "U05"; }
    void init() override { cont::quiet_log(); }
    std::string rule() override { return "winner tree: all histories of activations, deactivations (single and batched), changes, rebuilds, growth and resizing up to the depth, over up to nine players; loser trees of the sorters and of the sequential multiway merge: all distributions of sorted keys over 1 to 9 sequences (up to 1025 sequences for the widest), mergers of the priority queue: all histories of appending and merging sequences; oracle: the smallest of the remaining heads"; }
    template <class F> void add(std::vector<Job>& out, const std::string& n, F f) { Opts o; o.max_points = 4000000; out.push_back(Job { n, f, o }); }
    void jobs(bool th, std::vector<Job>& out) override
    {
#ifndef MERGERS
        for (int n : { 1, 2, 3, 5 }) add(out, "winner tree " + std::to_string(n), [n, th] { winner(n, th ? 4 : 3, 2); });
        for (int k : { 1, 2, 3, 4, 5, 7, 9 })
        {
            int tot = th ? (k <= 3 ? 9 : k <= 5 ? 7 : 5) : (k <= 3 ? 7 : k <= 5 ? 5 : 3), keys = 3; std::string s = " of " + std::to_string(k);
            add(out, "guarded copying" + s, [=] { guarded<sp::LoserTreeCopy<false, E, ELess>, false>(k, tot, keys); });
            add(out, "guarded copying stable" + s, [=] { guarded<sp::LoserTreeCopy<true, E, ELess>, true>(k, tot, keys); });
            add(out, "guarded pointers" + s, [=] { guarded<sp::LoserTreePointer<false, E, ELess>, false>(k, tot, keys); });
            add(out, "guarded pointers stable" + s, [=] { guarded<sp::LoserTreePointer<true, E, ELess>, true>(k, tot, keys); });
            add(out, "unguarded copying" + s, [=] { unguarded<sp::LoserTreeCopyUnguarded<false, E, ELess>, false>(k, tot, keys); });
            add(out, "unguarded copying stable" + s, [=] { unguarded<sp::LoserTreeCopyUnguarded<true, E, ELess>, true>(k, tot, keys); });
            add(out, "unguarded pointers" + s, [=] { unguarded<sp::LoserTreePointerUnguarded<false, E, ELess>, false>(k, tot, keys); });
            add(out, "unguarded pointers stable" + s, [=] { unguarded<sp::LoserTreePointerUnguarded<true, E, ELess>, true>(k, tot, keys); });
            for (int c : { 1, 2, 100 }) add(out, "sorting loser tree" + s + " chunks of " + std::to_string(c), [=] { sortmerge(k, tot, keys, c); });
        }
        for (int k : { 11, 16, 17, 33, 65, 127, 200, 257, 513, 1024, 1025 }) add(out, "sorting loser tree of " + std::to_string(k), [=] { sortmerge_wide(k); });
#endif
        add(out, "merger 2", [th] { merger<2>(th ? 8 : 6, 2); }); add(out, "merger 3", [th] { merger<3>(th ? 7 : 5, 2); }); add(out, "merger 4", [th] { merger<4>(th ? 7 : 5, 2); }); add(out, "merger 8", [th] { merger<8>(th ? 7 : 6, 1); });
        for (int k : { 3, 5, 8, 9, 16 }) add(out, "filled merger " + std::to_string(k), [k, th] { filled(k, th ? 3 : 2); });
    }
};
MC_MAIN(H)
