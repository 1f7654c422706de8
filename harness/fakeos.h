// A simulated operating system for paths below /mcfs: files in memory, with fault injection and page-accurate mappings.
// All calls on other paths and descriptors go to the real system.
#pragma once
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace fos {
const size_t CAP = 1 << 18;
struct Node { char* mem; size_t size = 0, high = 0; int links = 1, maps = 0; };
struct Fd { Node* n = nullptr; long pos = 0; int flags = 0; bool open = false; };
inline std::map<std::string, Node*>& names() { static std::map<std::string, Node*> m; return m; }
inline std::vector<Fd>& fds() { static std::vector<Fd> v; return v; }
inline std::vector<char*>& arena() { static std::vector<char*> v; return v; }
inline size_t& arena_used() { static size_t n = 0; return n; }
inline std::vector<Node*>& nodes() { static std::vector<Node*> v; return v; }
struct Faults { bool on = false; int injected = 0, shorts = 0; bool trace = false; };
inline Faults& faults() { static Faults f; return f; }
inline bool mine(const char* p) { return strncmp(p, "/mcfs/", 6) == 0; }
inline bool mine(int fd) { return fd >= 5000 && fd < 5000 + (int)fds().size(); }
inline Fd& get(int fd) { return fds()[fd - 5000]; }
const int BASE = 5000;
extern "C" { void* __real_mmap64(void*, size_t, int, int, int, off64_t); }
inline char* fresh()
{
    if (arena_used() == arena().size()) { char* p = (char*)__real_mmap64(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); arena().push_back(p); }
    return arena()[arena_used()++];
}
inline void reset()
{
    for (Node* n : nodes()) { memset(n->mem, 0, std::min(CAP, n->high + 8192)); delete n; }
    nodes().clear(); names().clear(); fds().clear(); arena_used() = 0; faults() = Faults();
}
inline Node* lookup(const std::string& p) { auto i = names().find(p); return i == names().end() ? nullptr : i->second; }
inline int open_fds() { int n = 0; for (auto& f : fds()) n += f.open; return n; }
// environment decision: 0 = works
inline int decide(int n) { return faults().on ? mc::deviate(n) : 0; }
inline long err(int e) { faults().injected++; errno = e; return -1; }
inline bool inject(const char* what, int e = EIO) { if (decide(2)) { MC_NOTE("  [" << what << " fails]"); faults().injected++; errno = e; return true; } return false; }
// 0 full, else a shorter count, or -1/0 with an error
inline bool cut(const char* what, size_t n, long& res, bool allow_zero)
{
    if (n == 0) return false;
    int d = decide(n > 1 ? 6 : 3);
    if (n == 1 && d) d += 3;
    switch (d)
    {
    case 0: return false;
    case 1: res = 1; break;
    case 2: res = (long)(n / 2); break;
    case 3: res = (long)n - 1; break;
    case 4: MC_NOTE("  [" << what << ": EIO]"); res = err(EIO); return true;
    case 5: MC_NOTE("  [" << what << ": EINTR]"); res = err(EINTR); return true;
    }
    faults().shorts++;
    MC_NOTE("  [" << what << ": only " << res << " of " << n << " bytes]");
    return false;
}
inline long do_write(Fd& f, const void* b, size_t n, long pos)
{
    if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    long r = (long)n; if (cut("write", n, r, false)) return r;
    if (pos + r > (long)CAP) { errno = ENOSPC; return -1; }
    memcpy(f.n->mem + pos, b, r); if ((size_t)(pos + r) > f.n->size) f.n->size = pos + r; f.n->high = std::max(f.n->high, f.n->size);
    return r;
}
inline long do_read(Fd& f, void* b, size_t n, long pos)
{
    if ((f.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    long avail = (long)f.n->size - pos; if (avail < 0) avail = 0;
    size_t m = std::min<size_t>(n, avail); long r = (long)m; if (cut("read", m, r, false)) return r;
    memcpy(b, f.n->mem + pos, r); return r;
}
inline int do_open(const char* path, int flags)
{
    if (inject("open", EMFILE)) return -1;
    Node* n = lookup(path);
    if (!n) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } n = new Node; n->mem = fresh(); nodes().push_back(n); names()[path] = n; }
    if (flags & O_TRUNC) { memset(n->mem, 0, std::min(CAP, n->high + 8192)); n->size = 0; }
    Fd f; f.n = n; f.flags = flags; f.open = true;
    for (size_t i = 0; i < fds().size(); ++i) if (!fds()[i].open) { fds()[i] = f; return BASE + (int)i; }
    fds().push_back(f); return BASE + (int)fds().size() - 1;
}
inline int do_truncate(Node* n, size_t len)
{
    if (len > CAP) { errno = ENOSPC; return -1; }
    if (len < n->size) memset(n->mem + len, 0, n->size - len);
    n->size = len; n->high = std::max(n->high, len); return 0;
}
struct Map { char* p; size_t n; Node* node; };
inline std::vector<Map>& maps() { static std::vector<Map> v; return v; }
}

extern "C" {
#define FOS_REAL(ret, name, args) ret __real_##name args;
FOS_REAL(int, open, (const char*, int, ...)) FOS_REAL(int, open64, (const char*, int, ...)) FOS_REAL(int, close, (int))
FOS_REAL(ssize_t, read, (int, void*, size_t)) FOS_REAL(ssize_t, write, (int, const void*, size_t))
FOS_REAL(ssize_t, pread, (int, void*, size_t, off_t)) FOS_REAL(ssize_t, pwrite, (int, const void*, size_t, off_t))
FOS_REAL(ssize_t, pread64, (int, void*, size_t, off64_t)) FOS_REAL(ssize_t, pwrite64, (int, const void*, size_t, off64_t))
FOS_REAL(off_t, lseek, (int, off_t, int)) FOS_REAL(off64_t, lseek64, (int, off64_t, int))
FOS_REAL(int, ftruncate, (int, off_t)) FOS_REAL(int, ftruncate64, (int, off64_t)) FOS_REAL(int, truncate, (const char*, off_t)) FOS_REAL(int, truncate64, (const char*, off64_t))
FOS_REAL(int, fstat, (int, struct stat*)) FOS_REAL(int, fstat64, (int, struct stat64*)) FOS_REAL(int, fcntl, (int, int, ...)) FOS_REAL(int, fcntl64, (int, int, ...))
FOS_REAL(void*, mmap, (void*, size_t, int, int, int, off_t)) FOS_REAL(int, munmap, (void*, size_t))
FOS_REAL(int, remove, (const char*)) FOS_REAL(int, unlink, (const char*)) FOS_REAL(int, rename, (const char*, const char*))

int __wrap_open(const char* p, int fl, ...) { if (fos::mine(p)) return fos::do_open(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); }
int __wrap_open64(const char* p, int fl, ...) { if (fos::mine(p)) return fos::do_open(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open64(p, fl, m); }
int __wrap_close(int fd)
{
    if (!fos::mine(fd)) { if (fd >= fos::BASE) { errno = EBADF; return -1; } return __real_close(fd); }
    if (!fos::get(fd).open) mc::fail("a descriptor is closed twice");
    fos::get(fd).open = false;
    return 0;
}
static fos::Fd& fos_live(int fd) { if (!fos::get(fd).open) mc::fail("a closed descriptor is used"); return fos::get(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!fos::mine(fd)) return __real_read(fd, b, n); mc::point(); fos::Fd& f = fos_live(fd); long r = fos::do_read(f, b, n, f.pos); if (r > 0) f.pos += r; return r; }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!fos::mine(fd)) return __real_write(fd, b, n); mc::point(); fos::Fd& f = fos_live(fd); long r = fos::do_write(f, b, n, f.pos); if (r > 0) f.pos += r; return r; }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { if (!fos::mine(fd)) return __real_pread(fd, b, n, o); mc::point(); return fos::do_read(fos_live(fd), b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { if (!fos::mine(fd)) return __real_pwrite(fd, b, n, o); mc::point(); return fos::do_write(fos_live(fd), b, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) { if (!fos::mine(fd)) return __real_pread64(fd, b, n, o); mc::point(); return fos::do_read(fos_live(fd), b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) { if (!fos::mine(fd)) return __real_pwrite64(fd, b, n, o); mc::point(); return fos::do_write(fos_live(fd), b, n, o); }
static off64_t fos_seek(int fd, off64_t o, int w)
{
    fos::Fd& f = fos_live(fd);
    if (fos::inject("lseek")) return -1;
    long p = w == SEEK_SET ? o : w == SEEK_CUR ? f.pos + o : (long)f.n->size + o;
    if (p < 0) { errno = EINVAL; return -1; }
    return f.pos = p;
}
off_t __wrap_lseek(int fd, off_t o, int w) { if (!fos::mine(fd)) return __real_lseek(fd, o, w); return fos_seek(fd, o, w); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { if (!fos::mine(fd)) return __real_lseek64(fd, o, w); return fos_seek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t n) { if (!fos::mine(fd)) return __real_ftruncate(fd, n); if (fos::inject("ftruncate", ENOSPC)) return -1; return fos::do_truncate(fos_live(fd).n, n); }
int __wrap_ftruncate64(int fd, off64_t n) { if (!fos::mine(fd)) return __real_ftruncate64(fd, n); if (fos::inject("ftruncate", ENOSPC)) return -1; return fos::do_truncate(fos_live(fd).n, n); }
static int fos_trunc(const char* p, off64_t n) { if (fos::inject("truncate", EIO)) return -1; fos::Node* x = fos::lookup(p); if (!x) { errno = ENOENT; return -1; } return fos::do_truncate(x, n); }
int __wrap_truncate(const char* p, off_t n) { return fos::mine(p) ? fos_trunc(p, n) : __real_truncate(p, n); }
int __wrap_truncate64(const char* p, off64_t n) { return fos::mine(p) ? fos_trunc(p, n) : __real_truncate64(p, n); }
int __wrap_fstat(int fd, struct stat* s) { if (!fos::mine(fd)) return __real_fstat(fd, s); if (fos::inject("fstat")) return -1; memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = fos_live(fd).n->size; return 0; }
int __wrap_fstat64(int fd, struct stat64* s) { if (!fos::mine(fd)) return __real_fstat64(fd, s); if (fos::inject("fstat")) return -1; memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = fos_live(fd).n->size; return 0; }
int __wrap_fcntl(int fd, int c, ...) { if (fos::mine(fd)) { if (fos::inject("fcntl", EAGAIN)) return -1; return 0; } va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return __real_fcntl(fd, c, x); }
int __wrap_fcntl64(int fd, int c, ...) { if (fos::mine(fd)) { if (fos::inject("fcntl", EAGAIN)) return -1; return 0; } va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return __real_fcntl64(fd, c, x); }
static void* fos_mmap(size_t n, int prot, int fl, int fd, off64_t o)
{
    if (fos::inject("mmap", ENOMEM)) return MAP_FAILED;
    fos::Fd& f = fos_live(fd);
    int acc = f.flags & O_ACCMODE;
    if (n == 0 || o % 4096) { errno = EINVAL; return MAP_FAILED; }
    if (acc == O_WRONLY || ((prot & PROT_WRITE) && (fl & MAP_SHARED) && acc != O_RDWR)) { errno = EACCES; return MAP_FAILED; }
    if ((size_t)o + n > (f.n->size + 4095) / 4096 * 4096) mc::fail("a mapping is used beyond the end of the file (bus error)");
    mc::point();
    fos::maps().push_back({ f.n->mem + o, n, f.n });
    return f.n->mem + o;
}
void* __wrap_mmap(void* h, size_t n, int prot, int fl, int fd, off_t o) { if (!fos::mine(fd)) return __real_mmap(h, n, prot, fl, fd, o); return fos_mmap(n, prot, fl, fd, o); }
void* __wrap_mmap64(void* h, size_t n, int prot, int fl, int fd, off64_t o) { if (!fos::mine(fd)) return fos::__real_mmap64(h, n, prot, fl, fd, o); return fos_mmap(n, prot, fl, fd, o); }
int __wrap_munmap(void* p, size_t n)
{
    for (size_t i = 0; i < fos::maps().size(); ++i)
        if (fos::maps()[i].p == p)
        {
            fos::Map m = fos::maps()[i];
            if (m.n != n) mc::fail("munmap with another length than mmap");
            memset(m.node->mem + m.node->size, 0, fos::CAP - m.node->size < 4096 ? fos::CAP - m.node->size : 4096);
            fos::maps().erase(fos::maps().begin() + i);
            if (fos::inject("munmap")) return -1;
            return 0;
        }
    return __real_munmap(p, n);
}
static int fos_remove(const char* p) { fos::Node* n = fos::lookup(p); if (!n) { errno = ENOENT; return -1; } if (fos::inject("remove")) return -1; fos::names().erase(p); return 0; }
int __wrap_remove(const char* p) { return fos::mine(p) ? fos_remove(p) : __real_remove(p); }
int __wrap_unlink(const char* p) { return fos::mine(p) ? fos_remove(p) : __real_unlink(p); }
int __wrap_rename(const char* a, const char* b) { if (!fos::mine(a)) return __real_rename(a, b); fos::Node* n = fos::lookup(a); if (!n) { errno = ENOENT; return -1; } if (fos::inject("rename")) return -1; fos::names().erase(a); fos::names()[b] = n; return 0; }
}
