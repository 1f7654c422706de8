// M07: disk configuration lines and files.  Lines are generated from their meaning, so the expected result needs no second parser.
#include "cont.h"
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/io/file.h>
#include <sys/stat.h>
using namespace mc;
using stxxl::disk_config;
static std::vector<std::string> unlinked;
extern "C" int __wrap_unlink(const char* p) { unlinked.push_back(p); return 0; }       // recorded only: the library deletes disk files at exit

struct Cfg
{   // the meaning of a line
    std::string path; stxxl::uint64 size = 0; std::string io;
    bool autogrow = true, del = false, flash = false, raw = false, unl = false; int direct = 1, queue = stxxl::file::DEFAULT_QUEUE, qlen = 0; unsigned devid = stxxl::file::DEFAULT_DEVICE_ID;
};
static void same(const disk_config& d, const Cfg& c, const std::string& what)
{
    std::ostringstream o;
    if (d.path != c.path) o << " path '" << d.path << "' instead of '" << c.path << "'";
    if (d.size != c.size) o << " size " << d.size << " instead of " << c.size;
    if (d.io_impl != c.io) o << " implementation '" << d.io_impl << "' instead of '" << c.io << "'";
    if (d.autogrow != c.autogrow) o << " autogrow " << d.autogrow;
    if (d.delete_on_exit != c.del) o << " delete_on_exit " << d.delete_on_exit;
    if (d.flash != c.flash) o << " flash " << d.flash;
    if (d.raw_device != c.raw) o << " raw_device " << d.raw_device;
    if (d.unlink_on_open != c.unl) o << " unlink_on_open " << d.unlink_on_open;
    if ((int)d.direct != c.direct) o << " direct " << (int)d.direct << " instead of " << c.direct;
    if (d.queue != c.queue) o << " queue " << d.queue << " instead of " << c.queue;
    if (d.device_id != c.devid) o << " device id " << d.device_id << " instead of " << c.devid;
    if (d.queue_length != c.qlen) o << " queue length " << d.queue_length << " instead of " << c.qlen;
    if (!o.str().empty()) fail(what + ":" + o.str());
}
typedef std::function<void(Cfg&)> Set;
struct Option { const char* text; int only; Set set; };        // only: 0 all, 1 raw (syscall), 2 unlink, 3 queue length (linuxaio), 4 not linuxaio
static std::vector<Option>& options()
{
    static std::vector<Option> v = {
        { "autogrow", 0, [](Cfg& c) { c.autogrow = true; } }, { "noautogrow", 0, [](Cfg& c) { c.autogrow = false; } },
        { "autogrow=on", 0, [](Cfg& c) { c.autogrow = true; } }, { "autogrow=off", 0, [](Cfg& c) { c.autogrow = false; } },
        { "autogrow=yes", 0, [](Cfg& c) { c.autogrow = true; } }, { "autogrow=no", 0, [](Cfg& c) { c.autogrow = false; } },
        { "delete", 0, [](Cfg& c) { c.del = true; } }, { "delete_on_exit", 0, [](Cfg& c) { c.del = true; } },
        { "direct", 0, [](Cfg& c) { c.direct = 2; } }, { "nodirect", 0, [](Cfg& c) { c.direct = 0; } },
        { "direct=on", 0, [](Cfg& c) { c.direct = 2; } }, { "direct=off", 0, [](Cfg& c) { c.direct = 0; } }, { "direct=try", 0, [](Cfg& c) { c.direct = 1; } },
        { "direct=yes", 0, [](Cfg& c) { c.direct = 2; } }, { "direct=no", 0, [](Cfg& c) { c.direct = 0; } },
        { "queue=0", 4, [](Cfg& c) { c.queue = 0; } }, { "queue=17", 4, [](Cfg& c) { c.queue = 17; } },
        { "devid=3", 0, [](Cfg& c) { c.devid = 3; } }, { "device_id=12", 0, [](Cfg& c) { c.devid = 12; } },
        { "raw_device", 1, [](Cfg& c) { c.raw = true; } },
        { "unlink", 2, [](Cfg& c) { c.unl = true; } }, { "unlink_on_open", 2, [](Cfg& c) { c.unl = true; } },
        { "queue_length=64", 3, [](Cfg& c) { c.qlen = 64; } },
    };
    return v;
}
static const char* impls[] = { "syscall", "linuxaio", "memory", "mmap", "boostfd", "fileperblock_syscall", "fileperblock_mmap", "simdisk", "wbtl", "wincall" };
static bool fits(const Option& o, const std::string& io)
{
    switch (o.only)
    {
    case 1: return io == "syscall";
    case 2: return io == "syscall" || io == "linuxaio" || io == "mmap" || io == "wbtl";
    case 3: return io == "linuxaio";
    case 4: return io != "linuxaio";
    default: return true;
    }
}
struct Size { const char* text; stxxl::uint64 v; };
static std::vector<Size>& sizes()
{
    static const stxxl::uint64 K = 1000, Ki = 1024;
    static std::vector<Size> v = {
        { "0", 0 }, { "1", Ki * Ki }, { "100", 100 * Ki * Ki }, { "7B", 7 }, { "4096b", 4096 },
        { "1k", K }, { "1K", K }, { "5KB", 5 * K }, { "1Ki", Ki }, { "3KiB", 3 * Ki }, { "2kib", 2 * Ki },
        { "1M", K * K }, { "1m", K * K }, { "1MB", K * K }, { "1Mi", Ki * Ki }, { "10 MiB", 10 * Ki * Ki }, { "10  mib", 10 * Ki * Ki },
        { "1G", K * K * K }, { "500G", 500 * K * K * K }, { "1GB", K * K * K }, { "1Gi", Ki * Ki * Ki }, { "10 GiB", 10 * Ki * Ki * Ki }, { "2gib", 2 * Ki * Ki * Ki },
        { "1T", K * K * K * K }, { "2TiB", 2 * Ki * Ki * Ki * Ki }, { "1P", K * K * K * K * K }, { "3Pi", 3 * Ki * Ki * Ki * Ki * Ki }, { "1PiB", Ki * Ki * Ki * Ki * Ki },
    };
    return v;
}
static std::string pid() { return std::to_string(getpid()); }
struct PathF { const char* text; bool hash; };
static const char* paths[] = { "/data01/stxxl", "rel.tmp", "/d/with space/x", "/tmp/st###.dat", "/tmp/a=b", "", "/a###b###c" };
static std::string path_of(int i) { std::string p = paths[i]; size_t q = p.find("###"); if (q != std::string::npos) p.replace(q, 3, pid()); return p; }

static disk_config dirty_object()
{   // an object that has been used for another line before
    static const char* prev[] = { "flash=/old,7,syscall noautogrow delete direct=on queue=9 devid=9 raw_device unlink", "disk=/old,0,linuxaio queue_length=5 nodirect" };
    disk_config d; d.parse_line(prev[choose(2)]); return d;
}
static void parsed(const std::string& line, const Cfg& c, bool more)
{
    MC_NOTE(line);
    transition();
    disk_config d(line); same(d, c, "'" + line + "'");
    if (!more) return;
    disk_config e = dirty_object(); e.parse_line(line); same(e, c, "'" + line + "' parsed into a used object");
    // print, parse again
    std::string f = d.fileio_string();
    disk_config p((c.flash ? "flash=" : "disk=") + d.path + "," + std::to_string(d.size) + "B," + f);
    Cfg c2 = c; if (c.size == 0) c2.del = c2.del || true;
    same(p, c2, "printed as '" + f + "' and parsed again");
    MC_CHECK(p.fileio_string() == f, "printed twice: '" << f << "', then '" << p.fileio_string() << "'");
}
static void lines(int impl, int nopt)
{
    Cfg c; c.io = impls[impl];
    c.flash = choose(2);
    // deviations from the plain line are varied one at a time with the full option lists, jointly with short ones
    int sp = choose(3), nm = choose(1 + (int)options().size());
    std::string opt;
    std::vector<Set> sets;
    for (int i = 0; i < nopt; ++i)
    {
        int o = i == 0 ? nm : choose(1 + (int)options().size());
        if (o == 0) break;
        const Option& x = options()[o - 1];
        if (!fits(x, c.io)) return;
        opt += std::string(sp == 1 ? "  " : " ") + x.text; sets.push_back(x.set);
    }
    c.path = path_of(0); c.size = 100 * 1024 * 1024;
    for (auto& s : sets) s(c);
    std::string line = std::string(c.flash ? "flash=" : "disk=") + paths[0] + (sp == 2 ? ", 100 , " : ",100,") + c.io + opt + (sp == 2 ? " " : "");
    parsed(line, c, true);
    // the constructor with separate values
    disk_config d(c.path, c.size, c.io + opt); Cfg cc = c; cc.flash = false; same(d, cc, "separate arguments '" + c.io + opt + "'");
    uint64_t h = 1; for (char ch : line) h = mix(h, ch); state(h); outcome(h); if (sets.size() > 1) nontrivial();
}
static void basics()
{
    Cfg c; c.flash = choose(2);
    int p = choose((int)(sizeof paths / sizeof *paths)), s = choose((int)sizes().size()), i = choose((int)(sizeof impls / sizeof *impls));
    int sp = choose(4);
    c.path = path_of(p); c.size = sizes()[s].v; c.io = impls[i];
    if (c.size == 0) c.del = true;
    std::string opt; int o = choose(4);
    if (o == 1) { opt = " noautogrow"; c.autogrow = false; } else if (o == 2) { opt = " devid=1"; c.devid = 1; } else if (o == 3) { opt = " delete"; c.del = true; }
    std::string line = std::string(c.flash ? "flash=" : "disk=") + paths[p] + "," + (sp & 1 ? " " : "") + sizes()[s].text + (sp & 2 ? " " : "") + "," + (sp & 1 ? " " : "") + c.io + opt;
    parsed(line, c, p < 2);
    uint64_t h = 2; for (char ch : line) h = mix(h, ch); state(h); outcome(h);
}
static void rejected(const std::string& line)
{
    MC_NOTE(line);
    transition();
    try { disk_config d(line); }
    catch (std::runtime_error&) { return; }
    catch (std::exception& e) { fail("'" + line + "' raised a different error: " + e.what()); }
    fail("malformed line '" + line + "' was accepted");
}
static void corrupt()
{
    static const char* keys[] = { "", "dsk", "Disk", "disk ", " disk", "disk1", "fla", "FLASH", "#disk", "disks" };
    static const char* badsize[] = { "", " ", "x", "0x", "k", "MiB", "B", "1Q", "1MiX", "1X", "-1", "-1k", "1 2", "1M 2", "1i", "1iB", "1MM", "1.5G", "1e3", "18446744073709551616", "99999999999999999999", "20000P", "16385Pi", "18014398509481984KiB" };
    static const char* badopt[] = { "autogrow=", "autogrow=maybe", "autogrow=1", "noautogrow=yes", "noautogrow=no", "nodirect=on", "delete=yes", "delete_on_exit=1", "direct=", "direct=2", "direct=maybe", "queue", "queue=", "queue=x", "queue=1x", "queue=0x1",
                                    "devid", "devid=", "devid=x", "devid=2y", "device_id=", "queue=99999999999", "devid=99999999999", "foo", "foo=1", "disk=1", "Unlink", "unlinkk", "unlink=1", "raw", "raw_device=1", "autogro", "directt", "=on", "=", "queue_length", "que" };
    int kind = choose(6), flash = choose(2);
    std::string key = flash ? "flash" : "disk", line;
    switch (kind)
    {
    case 0: line = std::string(keys[choose(10)]) + "=/x,1,syscall"; break;
    case 1: { static const char* l[] = { "", "disk", "flash", "disk=", "disk=/x", "disk=/x,1", "disk=/x,1,", "disk=/x,1, ", "disk=/x,,syscall", "disk /x,1,syscall", "flash=/x,1", "flash=/x,1,   ", "/x,1,syscall", "disk=/x;1;syscall", "disk=/x syscall", ",,", "=,," }; line = l[choose(17)]; break; }
    case 2: line = key + "=/x," + badsize[choose((int)(sizeof badsize / sizeof *badsize))] + ",syscall" + (choose(2) ? " unlink" : ""); break;
    case 3:
    {
        int i = choose((int)(sizeof impls / sizeof *impls)), b = choose((int)(sizeof badopt / sizeof *badopt)), where = choose(3);
        line = key + "=/x,1," + impls[i] + (where == 1 ? " nodirect " : " ") + badopt[b] + (where == 2 ? " delete" : ""); break;
    }
    case 4:
    {   // options of another implementation
        int i = choose((int)(sizeof impls / sizeof *impls)), o = choose((int)options().size());
        if (fits(options()[o], impls[i])) return;
        line = key + "=/x,1," + impls[i] + " " + (choose(2) ? "delete " : "") + options()[o].text; break;
    }
    case 5:
    {   // a good option with one character replaced by one that no option has at this place
        int o = choose((int)options().size()); std::string t = options()[o].text; size_t n = choose((int)t.size());
        std::string io = options()[o].only == 3 ? "linuxaio" : "syscall";
        t[n] = '%'; line = key + "=/x,1," + io + " " + t; break;
    }
    }
    rejected(line);
    uint64_t h = 3; for (char ch : line) h = mix(h, ch); state(h); outcome(h); nontrivial();
}
static std::string dir()
{
    static std::string d; static pid_t p = 0;
    if (p != getpid()) { p = getpid(); char b[4096]; if (!getcwd(b, sizeof b)) fail("cwd"); d = std::string(b) + "/m07." + pid(); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) fail("chdir"); }
    return d;
}
static void write_file(const std::string& f, const std::string& t) { std::ofstream o(f.c_str()); o << t; o.close(); if (!o) fail("cannot write " + f); }
struct Entry { std::string path; bool flash, del; stxxl::uint64 size; };
static void check_config(stxxl::config& c, const std::vector<Entry>& e, const char* what)
{
    std::vector<Entry> want; stxxl::uint64 tot = 0;
    for (auto& x : e) { if (!x.flash) want.push_back(x); tot += x.size; }
    unsigned nd = want.size();
    for (auto& x : e) if (x.flash) want.push_back(x);
    MC_CHECK(c.disks_number() == want.size(), what << ": " << c.disks_number() << " disks instead of " << want.size());
    MC_CHECK(c.regular_disk_range() == std::make_pair(0u, nd), what << ": regular disks end at " << c.regular_disk_range().second << " instead of " << nd);
    MC_CHECK(c.flash_range() == std::make_pair(nd, (unsigned)want.size()), what << ": flash disks are " << c.flash_range().first << "-" << c.flash_range().second);
    for (size_t i = 0; i < want.size(); ++i)
    {
        MC_CHECK(c.disk_path(i) == want[i].path && c.disk(i).flash == want[i].flash && c.disk_size(i) == want[i].size, what << ": disk " << i << " is " << c.disk_path(i) << " instead of " << want[i].path);
        MC_CHECK(c.disk_io_impl(i) == "syscall", what << ": implementation " << c.disk_io_impl(i));
    }
    MC_CHECK(c.total_size() == tot, what << ": total size " << c.total_size() << " instead of " << tot);
}
static std::vector<Entry> expect_unlinked(const std::vector<Entry>& e) { std::vector<Entry> r; for (auto& x : e) if (x.del) r.push_back(x); return r; }
static void destroyed(const std::vector<Entry>& e)
{
    std::vector<std::string> w; for (auto& x : expect_unlinked(e)) w.push_back(x.path);
    std::vector<std::string> g = unlinked; std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end());
    MC_CHECK(w == g, "files deleted at exit: " << show(g) << " instead of " << show(w));
}
static void files(int n)
{
    dir(); unlinked.clear();
    unsetenv("STXXLCFG"); unsetenv("HOSTNAME"); unsetenv("HOME"); ::remove(".stxxl");
    std::string text; std::vector<Entry> e; bool bad = false;
    for (int i = 0; i < n; ++i)
    {
        std::string p = "/nonexistent/m07/disk" + std::to_string(i);
        switch (choose(8))
        {
        case 0: text += "disk=" + p + ",1,syscall"; e.push_back(Entry { p, false, false, 1 << 20 }); break;
        case 1: text += "flash=" + p + ",2 KiB,syscall"; e.push_back(Entry { p, true, false, 2048 }); break;
        case 2: text += "disk=" + p + ",0,syscall"; e.push_back(Entry { p, false, true, 0 }); break;
        case 3: text += "flash=" + p + ",3k,syscall delete"; e.push_back(Entry { p, true, true, 3000 }); break;
        case 4: text += "# disk=/nonexistent/comment,1,syscall"; break;
        case 5: break;
        case 6: text += "disk=" + p + ",1,syscall nosuchoption"; bad = true; break;
        case 7: text += "#"; break;
        }
        if (i + 1 < n || choose(2)) text += "\n";
    }
    if (e.empty()) bad = true;          // a file without disks is an error
    MC_NOTE(text);
    int how = choose(3);           // 0 STXXLCFG, 1 loaded by the user, 2 loaded by the user, then more disks added
    std::string f = dir() + "/cfg"; write_file(f, text);
    stxxl::config* c = new stxxl::config;
    bool threw = false;
    transition();
    try
    {
        if (how == 0) setenv("STXXLCFG", f.c_str(), 1); else c->load_config_file(f);
        if (how == 2)
        {
            c->add_disk(disk_config("disk=/nonexistent/m07/a,1,syscall")); c->add_disk(disk_config("flash=/nonexistent/m07/f,1,syscall")); c->add_disk(disk_config("/nonexistent/m07/b", 4096, "syscall delete"));
            e.push_back(Entry { "/nonexistent/m07/a", false, false, 1 << 20 }); e.push_back(Entry { "/nonexistent/m07/f", true, false, 1 << 20 }); e.push_back(Entry { "/nonexistent/m07/b", false, true, 4096 });
        }
        c->check_initialized();
    }
    catch (std::runtime_error&) { threw = true; }
    if (threw && bad) { }
    else
    {
        MC_CHECK(threw == bad, (threw ? "a correct configuration was rejected" : "a wrong configuration was accepted"));
        check_config(*c, how == 2 ? [&] {       // regular and flash disks of the file come in front of the later ones
            std::vector<Entry> r; size_t k = e.size() - 3; for (size_t i = 0; i < k; ++i) if (!e[i].flash) r.push_back(e[i]); for (size_t i = 0; i < k; ++i) if (e[i].flash) r.push_back(e[i]); for (size_t i = k; i < e.size(); ++i) r.push_back(e[i]); return r; } () : e, "configuration file");
    }
    delete c;
    if (!bad) destroyed(e);
    uint64_t h = 4 + how; for (char ch : text) h = mix(h, ch); state(h); outcome(h); if (e.size() > 1) nontrivial();
}
static void search()
{   // which of the documented files is used
    std::string d = dir(); unlinked.clear();
    mkdir("home", 0755);
    unsetenv("STXXLCFG"); unsetenv("HOSTNAME"); unsetenv("HOME");
    const char* cand[] = { "named", ".stxxl.hostx", ".stxxl", "home/.stxxl.hostx", "home/.stxxl" };
    bool host = choose(2), home = choose(2), env = choose(2); unsigned there = choose(32);
    for (int i = 0; i < 5; ++i) if (there >> i & 1) write_file(cand[i], "disk=/nonexistent/m07/f" + std::to_string(i) + ",1,syscall\n"); else ::remove(cand[i]);
    if (host) setenv("HOSTNAME", "hostx", 1);
    if (home) setenv("HOME", (d + "/home").c_str(), 1);
    if (env) setenv("STXXLCFG", (d + "/named").c_str(), 1);
    int want = -1;
    for (int i = 4; i >= 0; --i) if ((there >> i & 1) && (i != 0 || env) && ((i != 1 && i != 3) || host) && (i < 3 || home)) want = i;
    stxxl::config* c = new stxxl::config; transition();
    c->check_initialized();
    MC_CHECK(c->disks_number() == 1, c->disks_number() << " disks");
    std::string w = want < 0 ? "/var/tmp/stxxl" : "/nonexistent/m07/f" + std::to_string(want);
    MC_CHECK(c->disk_path(0) == w, "disk " << c->disk_path(0) << " instead of " << w);
    if (want < 0) MC_CHECK(c->disk_size(0) == 1000ull * 1024 * 1024 && c->disk(0).autogrow && c->disk(0).delete_on_exit && c->disk_io_impl(0) == "syscall" && c->flash_range() == std::make_pair(1u, 1u), "default configuration");
    delete c;
    MC_CHECK(unlinked.size() == (want < 0 ? 1u : 0u), "deleted at exit: " << show(unlinked));
    state(there * 8 + host * 4 + home * 2 + env); outcome(want + 1); nontrivial();
    for (auto x : cand) ::remove(x);
    ::rmdir("home");
}
struct H : Harness
{
    const char* id() { return "M07"; }
    void init() { cont::quiet_log(); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
    std::string rule() { return "every line over 10 implementations, ordered lists of up to 2 (thorough 3) of 23 options, spacing variants, 28 size texts, 7 path forms; each parsed into a new and a used object, printed and parsed again; all listed corruptions of key, fields, sizes and options; all configuration files of up to 4 (5) lines of 8 kinds loaded three ways; all 256 combinations of configuration file locations and environment; non-trivial: several options, disks or a corruption"; }
    void jobs(bool th, std::vector<Job>& out)
    {
        mc::Opts o; o.max_points = 100000; o.race = false;
        for (int i = 0; i < (int)(sizeof impls / sizeof *impls); ++i)
        { Job j; j.name = std::string("lines.") + impls[i]; j.opts = o; j.opts.shards = th ? 4 : 1; j.body = [=] { lines(i, th ? 3 : 2); }; out.push_back(j); }
        { Job j; j.name = "basics"; j.opts = o; j.body = basics; out.push_back(j); }
        { Job j; j.name = "corrupt"; j.opts = o; j.body = corrupt; out.push_back(j); }
        { Job j; j.name = "files"; j.opts = o; j.opts.shards = 4; j.body = [=] { files(th ? 5 : 4); }; out.push_back(j); }
        { Job j; j.name = "search"; j.opts = o; j.body = search; out.push_back(j); }
    }
};
MC_MAIN(H)
