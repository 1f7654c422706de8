// U02: binary buffers read back exactly what was written
#include "cont.h"
#include <stxxl/bits/common/binary_buffer.h>
#include <stdexcept>
using namespace mc;
using stxxl::binary_buffer; using stxxl::binary_buffer_ref; using stxxl::binary_reader;
typedef stxxl::uint64 u64;
// one item: how it is written, the exact bytes expected, and how it is read back
struct Item { std::string name; std::function<void(binary_buffer&)> put; std::function<std::string(size_t)> bytes; std::function<std::string(binary_reader&)> get; std::string want; };
template <class T> static std::string raw(T v) { return std::string((const char*)&v, sizeof v); }
static std::string varint(u64 v) { std::string s; while (v >= 128) { s += (char)(v & 127 | 128); v >>= 7; } s += (char)v; return s; }
template <class T> static Item fixed(const char* n, T v)
{ return { n, [v](binary_buffer& b) { b.put<T>(v); }, [v](size_t) { return raw(v); }, [](binary_reader& r) { return raw(r.get<T>()); }, raw(v) }; }
static Item v32(stxxl::uint32 v) { return { "varint " + std::to_string(v), [v](binary_buffer& b) { b.put_varint(v); }, [v](size_t) { return varint(v); }, [](binary_reader& r) { return raw(r.get_varint()); }, raw(v) }; }
static Item vint(int v) { return { "int varint " + std::to_string(v), [v](binary_buffer& b) { b.put_varint(v); }, [v](size_t) { return varint((stxxl::uint32)v); }, [](binary_reader& r) { return raw((int)r.get_varint()); }, raw(v) }; }
static Item v64(u64 v) { return { "varint64 " + std::to_string(v), [v](binary_buffer& b) { b.put_varint(v); }, [v](size_t) { return varint(v); }, [](binary_reader& r) { return raw((u64)r.get_varint64()); }, raw(v) }; }
static Item str(int how, const std::string& s)
{
    return { (how == 0 ? "string of " : how == 1 ? "C string of " : how == 2 ? "nested buffer of " : "string by reference of ") + std::to_string(s.size()),
             [s, how](binary_buffer& b) { if (how == 0 || how == 3) b.put_string(s); else if (how == 1) b.put_string(s.data(), s.size()); else { binary_buffer n; n.append(s.data(), s.size()); b.put_string(n); } },
             [s](size_t) { return varint(s.size()) + s; }, [how](binary_reader& r) { return how < 2 ? r.get_string() : r.get_binary_buffer_ref().str(); }, s };
}
static Item blob(int how, const std::string& s)
{
    return { "bytes " + std::to_string(s.size()), [s, how](binary_buffer& b) { if (how == 0) b.append(s.data(), s.size()); else if (how == 1) b.append(s); else { binary_buffer n(s); b.append(n); } },
             [s](size_t) { return s; }, [s, how](binary_reader& r) { if (how != 1) return r.read(s.size()); std::string t(s.size(), '?'); r.read(&t[0], t.size()); return t; }, s };
}
static Item skip(const std::string& s) { return { "skipped bytes", [s](binary_buffer& b) { b.append(s); }, [s](size_t) { return s; }, [s](binary_reader& r) { r.skip(s.size()); return std::string(); }, "" }; }
static Item align(size_t n)
{
    return { "align " + std::to_string(n), [n](binary_buffer& b) { b.align(n); }, [n](size_t at) { return std::string((n - at % n) % n, '\0'); },
             [n](binary_reader& r) { r.skip((n - r.curr() % n) % n); return std::string(); }, "" };
}
static std::vector<Item> kinds(bool all)
{
    std::string z("a\0b\0", 4), big(300, 'q'); big[0] = 0; big[299] = '\xff'; std::string l127(127, 'x'), l128(128, 'y');
    std::vector<Item> v = { fixed<stxxl::uint8>("uint8", 0xfe), fixed<stxxl::uint16>("uint16", 0x8001), fixed<stxxl::uint32>("uint32", 0xdeadbeefu), fixed<u64>("uint64", 0x8000000000000001ull),
                            v32(127), v32(128), v32(0xffffffffu), vint(-1), v64(((u64)1 << 35)), v64(~(u64)0), str(0, ""), str(0, z), str(2, z), str(2, ""), str(0, l128), blob(0, z), skip("zz"), align(4), align(8) };
    if (all) for (Item& i : std::vector<Item> { fixed<char>("char", 'c'), fixed<int>("int", -7), fixed<short>("short", -2), fixed<double>("double", -0.5), v32(0), v32(16383), v32(16384), v64(0), v64(((u64)1 << 63) - 1), str(1, z), str(1, ""), str(3, big), str(2, big), str(0, l127), blob(1, ""), blob(1, z), blob(2, big), align(1), align(3), align(16) }) v.push_back(i);
    return v;
}
static void read_all(const std::vector<Item>& it, const std::string& want, size_t cut)
{   // the reader gets exactly `cut` bytes, in a heap block of exactly that size: one byte beyond is an address error
    char* m = new char[cut ? cut : 1]; memcpy(m, want.data(), cut); struct D { char* m; ~D() { delete[] m; } } d { m };
    binary_reader r(cut ? m : m + 1, cut); size_t pos = 0;
    for (size_t i = 0; i < it.size(); ++i)
    {
        size_t len = it[i].bytes(pos).size(); std::string got; bool thrown = false; transition();
        try { got = it[i].get(r); } catch (std::underflow_error&) { thrown = true; }
        if (pos + len > cut) { if (!thrown) fail("item " + std::to_string(i) + " (" + it[i].name + ") was read from a buffer cut at byte " + std::to_string(cut) + " without an error"); if (r.curr() > cut) fail("cursor beyond the end after an underrun"); return; }
        if (thrown) fail("item " + std::to_string(i) + " (" + it[i].name + ") is complete but reading it underruns");
        if (got != it[i].want) fail("item " + std::to_string(i) + " (" + it[i].name + ") reads back differently");
        pos += len; if (r.curr() != pos) fail("cursor at " + std::to_string(r.curr()) + " instead of " + std::to_string(pos));
        if (r.empty() != (pos == cut)) fail("empty() is wrong"); if (!r.cursor_available(cut - pos) || r.cursor_available(cut - pos + 1)) fail("cursor_available is wrong");
    }
    // nothing more can be read; the cursor does not move, whatever length is asked for
    if (pos == cut) for (size_t n : { (size_t)1, (size_t)8, ~(size_t)0, ~(size_t)0 - cut + 1, ~(size_t)0 - cut, (~(size_t)0 >> 1) + 1 })
    {
        if (n == 0) continue;
        if (r.cursor_available(n)) fail("cursor_available(" + std::to_string(n) + ") at the end");
        bool thrown = false; try { r.skip(n); } catch (std::underflow_error&) { thrown = true; } if (!thrown || r.curr() != cut) fail("skip(" + std::to_string(n) + ") beyond the end accepted");
        char c[8]; thrown = false; try { if (n <= 8) r.read(c, n); else r.read(n); } catch (std::underflow_error&) { thrown = true; } if (!thrown) fail("read(" + std::to_string(n) + ") beyond the end accepted");
    }
    if (pos == cut) { r.rewind(); if (r.curr() != 0) fail("rewind"); if (!it.empty() && it[0].get(r) != it[0].want) fail("after rewind the first item differs"); }
}
static void sequence(bool allk, int depth, int init)
{
    static std::vector<Item> ka = kinds(true), kf = kinds(false); const std::vector<Item>& k = allk ? ka : kf;
    binary_buffer own, pre(init == 1 ? 5 : 1); binary_buffer& b = init ? pre : own; std::string want; std::vector<Item> it;
    for (int i = 0; i < depth; ++i)
    {
        int c = choose((int)k.size() + 1); if (c == 0) break; const Item& x = k[c - 1]; MC_NOTE(x.name); transition();
        want += x.bytes(want.size()); x.put(b); it.push_back(x);
        if (b.size() != want.size() || b.capacity() < b.size()) fail("size is " + std::to_string(b.size()) + " instead of " + std::to_string(want.size()));
        if (want.size() && memcmp(b.data(), want.data(), want.size())) fail("the bytes written differ after " + x.name);
    }
    if (b.str() != want) fail("str() differs");
    { binary_buffer c(b), d; d = b; d = d; d.assign(d); if (c.str() != want || d.str() != want || !(binary_buffer_ref(c) == binary_buffer_ref(d)) || binary_buffer_ref(c) != binary_buffer_ref(b)) fail("copies differ");
      binary_reader r((binary_buffer_ref(b))); for (auto& x : it) if (x.get(r) != x.want) fail("reading through a buffer reference differs"); if (!r.empty()) fail("not at the end");
      d.clear(); if (d.size() || d.capacity() < want.size()) fail("clear"); d.append(c); if (d.str() != want) fail("append after clear");
      if (want.size()) { if (binary_buffer_ref(d) == binary_buffer_ref(want.data(), want.size() - 1)) fail("a shorter buffer compares equal"); d.data()[want.size() - 1] ^= 1; if (binary_buffer_ref(d) == binary_buffer_ref(c) || !(binary_buffer_ref(d) != binary_buffer_ref(c))) fail("different buffers compare equal"); }
      d.assign(c).append(d); if (d.str() != want + want) fail("appending a buffer to itself");
      d.dealloc(); if (d.size() || d.capacity() || d.data()) fail("dealloc"); const char* p = c.detach(); if (c.size() || c.capacity() || c.data()) fail("detach"); free((void*)p); }
    uint64_t h = 7; for (char ch : want) h = mix(h, (unsigned char)ch); state(h); outcome(want.size()); if (it.size() > 1) nontrivial();
    if (want.size() < 64) for (size_t cut = 0; cut <= want.size(); ++cut) read_all(it, want, cut);
    else { for (size_t cut = 0; cut < 24; ++cut) read_all(it, want, cut); for (size_t cut = want.size() - 24; cut <= want.size(); ++cut) read_all(it, want, cut); }
}
static void magnitudes()
{   // every varint boundary of both widths, whatever the capacity left at that point
    int k = choose(64), d = choose(3) - 1, room = choose(12); u64 v = ((u64)1 << k) + d; MC_NOTE("2^" << k << (d < 0 ? "-1" : d ? "+1" : "") << ", room " << room);
    for (int w = 0; w < 2; ++w)
    {
        if (w == 0 && v > 0xffffffffu) continue;
        Item x = w ? v64(v) : v32((stxxl::uint32)v); binary_buffer b; b.alloc(20 + room); std::string pad(20, 'p'); b.append(pad); x.put(b); std::string want = pad + x.bytes(20);
        if (b.str() != want) fail("encoding of " + x.name); binary_reader r((binary_buffer_ref(b))); r.skip(20); if (x.get(r) != x.want || !r.empty()) fail("decoding of " + x.name);
        if (w == 0) { r.rewind().skip(20); if ((u64)r.get_varint64() != v) fail("a 32-bit varint read as 64 bits differs"); }
        std::vector<Item> one(1, x); for (size_t cut = 0; cut <= x.bytes(0).size(); ++cut) read_all(one, x.bytes(0), cut); transition();
    }
    outcome(mix(k, d)); state(mix(v, room)); nontrivial();
}
static void malformed()
{   // overlong or oversized varints, lengths beyond the end
    int kind = choose(2), n = choose(11), last = choose(256); std::string s(n, '\xff'); s += (char)last; MC_NOTE(n << " continuation bytes then " << last << (kind ? " as 64 bits" : " as 32 bits"));
    char* m = new char[s.size()]; memcpy(m, s.data(), s.size()); struct D { char* m; ~D() { delete[] m; } } d { m };
    binary_reader r(m, s.size()); int res = 0; u64 v = 0; transition();
    try { v = kind ? (u64)r.get_varint64() : (u64)r.get_varint(); } catch (std::underflow_error&) { res = 1; } catch (std::overflow_error&) { res = 2; }
    // reference
    int maxb = kind ? 10 : 5, topbits = kind ? 1 : 4, want = 0; u64 wv = 0; size_t used = 0;
    for (int i = 0; ; ++i) { if (i == (int)s.size()) { want = 1; break; } unsigned c = (unsigned char)s[i]; if (i == maxb - 1) { used = i + 1; if (c >> topbits) want = 2; else wv |= (u64)c << (7 * i); break; } wv |= (u64)(c & 127) << (7 * i); if (!(c & 128)) { used = i + 1; break; } }
    if (res != want) fail("varint of " + std::to_string(s.size()) + " bytes: result " + std::to_string(res) + " instead of " + std::to_string(want));
    if (res == 0 && (v != wv || r.curr() != used)) fail("varint value or length differs");
    std::string t; t += (char)(last & 127); t += std::string(n, 'z'); char* m2 = new char[t.size()]; memcpy(m2, t.data(), t.size()); D d2 { m2 };
    binary_reader r2(m2, t.size()); bool thrown = false; std::string g; try { if (kind) g = r2.get_binary_buffer_ref().str(); else g = r2.get_string(); } catch (std::underflow_error&) { thrown = true; }
    if (thrown != ((last & 127) > n)) fail("a string of length " + std::to_string(last & 127) + " in " + std::to_string(n) + " bytes"); if (!thrown && g != std::string(last & 127, 'z')) fail("string differs");
    outcome(mix(res, thrown)); state(mix(mix(kind, n), last)); nontrivial();
}
struct H : Harness {
    const char* id() override { return "U02"; }
    void init() override { cont::quiet_log(); }
    std::string rule() override { return "all sequences of items of every kind up to the depth, from an empty, a pre-allocated and a too small buffer, the bytes compared with a reference encoding after each item, then read back completely and from every truncation point in a heap block of exactly that size; every varint boundary; every malformed varint of up to 11 bytes"; }
    void jobs(bool th, std::vector<Job>& out) override
    {
        Opts o; o.max_points = 4000000;
        for (int i = 0; i < 3; ++i) out.push_back(Job { "items, start " + std::to_string(i), [i, th] { sequence(false, th ? 4 : i == 2 ? 2 : 3, i); }, o });
        out.push_back(Job { "all kinds", [th] { sequence(true, th ? 3 : 2, 0); }, o });
        out.push_back(Job { "varint boundaries", magnitudes, o });
        out.push_back(Job { "malformed input", malformed, o });
    }
};
MC_MAIN(H)
