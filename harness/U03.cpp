// U03: size texts and command lines
#include "cont.h"
#include <stxxl/bits/common/utils.h>
#include <stxxl/bits/common/cmdline.h>
using namespace mc;
typedef unsigned __int128 u128;
// the meaning of a size text, by the documented grammar: blanks number blanks [unit] blanks
static bool meaning(const std::string& s, char def, stxxl::uint64& out)
{
    size_t i = 0, n = s.size();
    while (i < n && s[i] == ' ') ++i;
    if (i < n && s[i] == '+') ++i;
    if (i == n || s[i] < '0' || s[i] > '9') return false;
    u128 v = 0; const u128 top = (u128)1 << 64;
    for ( ; i < n && s[i] >= '0' && s[i] <= '9'; ++i) { v = v * 10 + (s[i] - '0'); if (v >= top) v = top; }
    while (i < n && s[i] == ' ') ++i;
    size_t j = n; while (j > i && s[j - 1] == ' ') --j;
    std::string u = s.substr(i, j - i); for (char& c : u) c = c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
    int pw = 0; unsigned base = 1000;
    if (u.empty()) { static const std::string d = "kmgtp", D = "KMGTP"; if (def && d.find(def) != d.npos) pw = d.find(def) + 1; if (def && D.find(def) != D.npos) { pw = D.find(def) + 1; base = 1024; } }
    else if (u == "b") { }
    else
    {
        static const std::string p = "kmgtp"; size_t q = p.find(u[0]); if (q == p.npos) return false; pw = q + 1;
        std::string r = u.substr(1);
        if (r == "i" || r == "ib") base = 1024; else if (r != "" && r != "b") return false;
    }
    for (int k = 0; k < pw; ++k) { v *= base; if (v >= top) v = top; }
    if (v >= top) return false;
    out = (stxxl::uint64)v; return true;
}
static void one(const std::string& s, char def)
{
    stxxl::uint64 want = 0, got = 12345; transition();
    bool ok = meaning(s, def, want), g = def == 0 ? stxxl::parse_SI_IEC_size(s, got) : stxxl::parse_SI_IEC_size(s, got, def);
    if (ok != g) fail("size '" + s + "' " + (g ? "accepted as " + std::to_string(got) : std::string("rejected")));
    if (ok && got != want) fail("size '" + s + "' with default unit '" + std::string(1, def ? def : '-') + "' is " + std::to_string(got) + " instead of " + std::to_string(want));
}
static void texts(int len, int first)
{
    static const char al[] = "019kKMgtpiIbB x-.";      // one letter for each class, some in both cases
    std::string s(1, al[first]);
    while ((int)s.size() < len) { int c = choose((int)sizeof al); if (c == 0) break; s += al[c - 1]; }
    MC_NOTE("'" << s << "'");
    one(s, 0); one(s, 'M');
    uint64_t h = 1; for (char c : s) h = mix(h, c); state(h); stxxl::uint64 v; outcome(meaning(s, 0, v) ? mix(2, v) : 1); if (s.size() > 2) nontrivial();
}
static void bounds()
{   // every spelling of every unit, numbers around the largest one that fits, every default unit
    static const char pre[] = "kKmMgGtTpP"; static const char defs[] = { 0, 'k', 'm', 'g', 't', 'p', 'K', 'M', 'G', 'T', 'P', 'b', 'X' };
    int p = choose(11), i = choose(3), b = choose(3), sp = choose(4); char def = defs[choose(sizeof defs)];
    std::string u; if (p) { u += pre[p - 1]; if (i) u += i == 1 ? 'i' : 'I'; } if (b) u += b == 1 ? 'b' : 'B';
    u128 f = 1; int pw = p ? (p + 1) / 2 : 0; for (int k = 0; k < pw; ++k) f *= p && i ? 1024 : 1000;
    if (!p && !b && def) { static const std::string d = "kmgtp", D = "KMGTP"; size_t q; f = 1; if ((q = d.find(def)) != d.npos) for (size_t k = 0; k <= q; ++k) f *= 1000; if ((q = D.find(def)) != D.npos) for (size_t k = 0; k <= q; ++k) f *= 1024; }
    u128 top = ((((u128)1) << 64) - 1) / f;
    std::vector<std::string> nums = { "0", "1", "7", "1023", "1024", "4294967295", "4294967296", "00012", "+3", "-1", "", "x", "0x10", "1.5", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456" };
    for (int d = -1; d <= 1; ++d) { u128 v = top + d; std::string t; if (!v) t = "0"; while (v) { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; } nums.push_back(t); }
    std::string n = nums[choose((int)nums.size())];
    std::string s = (sp & 1 ? " " : "") + n + (sp & 2 ? "  " : "") + u + (sp == 3 ? " " : "");
    MC_NOTE("'" << s << "' " << (def ? def : '-'));
    one(s, def);
    uint64_t h = 2 + def; for (char c : s) h = mix(h, c); state(h); outcome(h); nontrivial();
}

// ---- command lines ------------------------------------------------------------------------------
struct Vals { bool f = false; int i = -77; unsigned u = 77; double d = 0.5; stxxl::uint32 b = 1; stxxl::uint64 B = 2; std::string s = "init"; std::vector<std::string> l; int pi = -1; std::string ps = "none"; std::vector<std::string> pl; stxxl::uint64 pb = 9; unsigned pu = 8; double pd = 0.25; };
static bool number(const std::string& t, long lo, long hi, long& v)
{
    size_t i = 0; bool neg = false; if (t[0] == '-' || t[0] == '+') { neg = t[0] == '-'; ++i; }
    if (i == t.size()) return false;
    __int128 x = 0; for ( ; i < t.size(); ++i) { if (t[i] < '0' || t[i] > '9') return false; x = x * 10 + (t[i] - '0'); if (x > ((__int128)1 << 80)) return false; }
    if (neg) x = -x; if (x < lo || x > hi) return false; v = (long)x; return true;
}
static bool real(const std::string& t, double& v)
{   // the alphabet holds plain decimals only
    if (t == "1.5") v = 1.5; else if (t == "-2.25") v = -2.25; else if (t == "99999999999999999999") v = 1e20; else { long x; if (!number(t, LONG_MIN, LONG_MAX, x)) return false; v = (double)x; } return true;
}
enum Kind { F, I, U, D, B32, B64, S, L };
static bool assign(Kind k, Vals& v, const std::string& t, bool param)
{
    long x; stxxl::uint64 z; double d;
    switch (k)
    {
    case I: if (!number(t, INT_MIN, INT_MAX, x)) return false; (param ? v.pi : v.i) = (int)x; return true;
    case U: if (!number(t, 0, UINT_MAX, x)) return false; (param ? v.pu : v.u) = (unsigned)x; return true;
    case D: if (!real(t, d)) return false; (param ? v.pd : v.d) = d; return true;
    case B32: if (!meaning(t, 0, z) || z > UINT_MAX) return false; v.b = (stxxl::uint32)z; return true;
    case B64: if (!meaning(t, 0, z)) return false; (param ? v.pb : v.B) = z; return true;
    case S: (param ? v.ps : v.s) = t; return true;
    case L: (param ? v.pl : v.l).push_back(t); return true;
    default: return false;
    }
}
struct Opt { char key; const char* lng; Kind k; };
static const Opt opts[] = { { 'f', "flag", F }, { 'i', "int", I }, { 'u', "uint", U }, { 'd', "double", D }, { 'b', "bytes", B32 }, { 'B', "big", B64 }, { 's', "string", S }, { 'l', "list", L } };
struct Par { Kind k; bool req; };
static std::vector<std::vector<Par> > params = {
    { }, { { I, true } }, { { I, true }, { S, false } }, { { L, false } }, { { S, true }, { L, true } }, { { B64, true }, { D, false } }, { { U, false } },
};
// what the command line means; false: it has to be refused
static bool interpret(const std::vector<std::string>& a, const std::vector<Par>& ps, Vals& v)
{
    for (auto& t : a) if (t == "-h" || t == "--help") return false;
    size_t pos = 0; std::vector<bool> found(ps.size());
    for (size_t i = 0; i < a.size(); ++i)
    {
        const std::string& t = a[i];
        if (t.size() && t[0] == '-')
        {
            const Opt* o = nullptr;
            for (auto& x : opts) if (t == std::string("-") + x.key || t == std::string("--") + x.lng) o = &x;
            if (!o) return false;
            if (o->k == F) { v.f = true; continue; }
            if (i + 1 == a.size()) return false;
            if (!assign(o->k, v, a[++i], false)) return false;
        }
        else
        {
            if (pos == ps.size()) return false;
            if (!assign(ps[pos].k, v, t, true)) return false;
            found[pos] = true; if (ps[pos].k != L) ++pos;
        }
    }
    for (size_t i = 0; i < ps.size(); ++i) if (ps[i].req && !found[i]) return false;
    return true;
}
struct NullBuf : std::streambuf { int overflow(int c) { return c; } };
static void run(const std::vector<std::string>& a, const std::vector<Par>& ps, bool verbose)
{
    Vals w, v; transition();
    bool want = interpret(a, ps, w);
    stxxl::cmdline_parser p; p.set_verbose_process(verbose); p.set_description("a description"); p.set_author("nobody");
    p.add_flag('f', "flag", v.f, "a flag"); p.add_int('i', "int", "N", v.i, "an integer"); p.add_uint('u', "uint", v.u, "an unsigned integer"); p.add_double('d', "double", v.d, "a number");
    p.add_bytes('b', "bytes", v.b, "a size"); p.add_bytes('B', "big", "SIZE", v.B, "a big size"); p.add_string('s', "string", v.s, "a text"); p.add_stringlist('l', "list", v.l, "texts");
    for (auto& x : ps) switch (x.k)
        {
        case I: if (x.req) p.add_param_int("pi", v.pi, "x"); else p.add_opt_param_int("pi", v.pi, "x"); break;
        case U: if (x.req) p.add_param_uint("pu", v.pu, "x"); else p.add_opt_param_uint("pu", v.pu, "x"); break;
        case D: if (x.req) p.add_param_double("pd", v.pd, "x"); else p.add_opt_param_double("pd", v.pd, "x"); break;
        case B64: if (x.req) p.add_param_bytes("pb", v.pb, "x"); else p.add_opt_param_bytes("pb", v.pb, "x"); break;
        case S: if (x.req) p.add_param_string("ps", v.ps, "x"); else p.add_opt_param_string("ps", v.ps, "x"); break;
        case L: if (x.req) p.add_param_stringlist("pl", v.pl, "x"); else p.add_opt_param_stringlist("pl", v.pl, "x"); break;
        default: break;
        }
    std::vector<const char*> av; av.push_back("prog"); for (auto& t : a) av.push_back(t.c_str());
    static NullBuf nb; static std::ostream os(&nb);
    bool got = p.process((int)av.size(), av.data(), os);
    if (got != want) fail(std::string("command line ") + (got ? "accepted" : "refused"));
    if (!want) return;
    p.print_result(os);
    MC_CHECK(v.f == w.f && v.i == w.i && v.u == w.u && v.d == w.d && v.b == w.b && v.B == w.B && v.s == w.s && v.l == w.l, "option value differs: " << v.f << " " << v.i << " " << v.u << " " << v.d << " " << v.b << " " << v.B << " " << v.s << " " << show(v.l));
    MC_CHECK(v.pi == w.pi && v.pu == w.pu && v.pd == w.pd && v.pb == w.pb && v.ps == w.ps && v.pl == w.pl, "parameter value differs");
}
static void args(int cfg, int len)
{
    static const char* tok[] = { "-f", "-i", "-u", "-d", "-b", "-B", "-s", "-l", "--flag", "--int", "--string", "--list", "--big",
                                 "7", "-5", "+4", "x", "7x", "1.5", "1 GiB", "4Ki", "4294967296", "99999999999999999999", "",
                                 "-h", "--help", "-x", "--flags", "--fla", "-", "-fx", "-i7", "--int=7" };
    int nt = sizeof tok / sizeof *tok;
    std::vector<std::string> a;
    while ((int)a.size() < len) { int c = choose(nt + 1); if (c == 0) break; a.push_back(tok[c - 1]); }
    MC_NOTE(show(a));
    run(a, params[cfg], a.size() < 2);
    uint64_t h = 5 + cfg; for (auto& t : a) for (char c : t + "|") h = mix(h, c); state(h); outcome(h); if (a.size() > 1) nontrivial();
}
// numbers: every boundary for every numeric type, as option and as parameter
static void values()
{
    static const char* num[] = { "0", "-0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-1", "1.5", "-2.25", "", " ", "5 ", " 5", "5k", "0x5", "1e", "1,5", "5-", "--5", "+-5", "-", "+" };
    static const char* op[] = { "-i", "--int", "-u", "--uint", "-d", "--double", "-b", "--bytes", "-B", "--big" };
    int o = choose(10 + 4); std::string n = num[choose((int)(sizeof num / sizeof *num))];
    if (n == " 5" || n == "+" ) return;          // leading blanks are not specified
    static const int cfg[] = { 1, 5, 6, 0 };
    std::vector<std::string> a; std::vector<Par> ps;
    if (o < 10) { a = { op[o], n }; if ((o == 4 || o == 5) && n == "0x5") return; }
    else { if (o == 13 && n == "0x5") return; ps = params[cfg[o - 10]]; if (o == 13) ps = { { D, true } }; a = { n }; }
    MC_NOTE(show(a));
    run(a, ps, true);
    uint64_t h = 9 + o; for (char c : n) h = mix(h, c); state(h); outcome(h); nontrivial();
}
// help texts: wrapping loses nothing and ends, at every width
static void wrapping()
{
    static const char* words[] = { "a", "bb", "cccccccc", "a-long-word-of-24-letters", "\n" };
    std::string t; std::vector<std::string> w;
    int n = choose(6);
    for (int i = 0; i < n; ++i) { int c = choose(5); if (c == 4) t += "\n"; else { if (t.size() && t[t.size() - 1] != '\n') t += " "; t += words[c]; w.push_back(words[c]); } }
    static const int width[] = { 0, 1, 5, 9, 20, 80 }, ind[] = { 0, 3, 12, 100 };
    int wl = width[choose(6)], i1 = ind[choose(4)], i2 = ind[choose(4)];
    MC_NOTE("'" << t << "' width " << wl << " indents " << i1 << " " << i2);
    std::ostringstream o; transition();
    struct Lim : std::streambuf { std::string s; int overflow(int c) { s += (char)c; if (s.size() > 100000) mc::fail("wrapping a text does not end"); return c; } } lb; std::ostream os(&lb);
    stxxl::cmdline_parser::output_wrap(os, t, wl, i1, i2, 0, i2);
    std::string out, in; for (char c : lb.s) if (c != ' ' && c != '\n') out += c; for (char c : t) if (c != ' ' && c != '\n') in += c;
    MC_CHECK(out == in, "wrapped text '" << lb.s << "' lost or changed letters");
    state(mix(hash_seq(t), wl * 1000 + i1 * 10 + i2)); nontrivial();
}
struct H : Harness
{
    const char* id() { return "U03"; }
    void init() { cont::quiet_log(); }
    std::string rule() { return "all size texts up to length 5 (thorough 6) over 17 characters; all unit spellings x default units x numbers around the largest that fits; all argument vectors up to 3 (4) tokens of 33 over 7 parameter configurations; boundary numbers for each type; wrapping of all texts up to 5 words at 6 widths and 16 indents; non-trivial: texts longer than 2, several arguments"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        Opts o; o.max_points = 100000; o.race = false;
        for (int f = 0; f < 17; ++f) { Job j; j.name = "text." + std::to_string(f); j.opts = o; j.body = [=] { texts(th ? 6 : 5, f); }; out.push_back(j); }
        { Job j; j.name = "text.empty"; j.opts = o; j.body = [=] { one("", 0); one("", 'M'); state(1); }; out.push_back(j); }
        { Job j; j.name = "units"; j.opts = o; j.body = bounds; out.push_back(j); }
        for (int c = 0; c < (int)params.size(); ++c) { Job j; j.name = "args." + std::to_string(c); j.opts = o; j.opts.shards = 4; j.body = [=] { args(c, th ? 4 : 3); }; out.push_back(j); }
        { Job j; j.name = "values"; j.opts = o; j.body = values; out.push_back(j); }
        { Job j; j.name = "wrapping"; j.opts = o; j.body = wrapping; out.push_back(j); }
    }
};
MC_MAIN(H)
