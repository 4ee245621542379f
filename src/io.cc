#include "io.h"

#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <map>

extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
off_t __real_lseek(int, off_t, int);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
int __real_fsync(int);
int __real_ftruncate(int, off_t);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_mkdir(const char*, mode_t);
int __real_nanosleep(const struct timespec*, struct timespec*);
}

namespace vh {
Io g_io;

struct FdInfo { uint64_t ino; std::string path; bool direct; };
// what a block device demands of O_DIRECT, and a memory file system does not
static bool misaligned(const FdInfo& f, const void* b, size_t n, off_t o) {
    if (!f.direct || !(((uintptr_t)b | n | (uint64_t)o) % 512)) return false;
    errno = EINVAL;
    return true;
}
static std::map<int, FdInfo>& fds() { static auto* m = new std::map<int, FdInfo>; return *m; }
static std::map<std::string, uint64_t>& names() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static uint64_t g_ino = 1;

void Io::reset() {
    std::lock_guard<std::mutex> l(m);
    root.clear(); journal = false; ev.clear(); mask = 0; injected = 0; counter = 0; only.clear();
    noSleep = false;
    for (auto& c : count) c = 0;
    names().clear(); fds().clear();
}
size_t Io::mark(uint64_t v) {
    std::lock_guard<std::mutex> l(m);
    IoEv e;
    e.kind = IO_MARK;
    e.off = v;
    ev.push_back(e);
    return ev.size();
}
void Io::faults(uint32_t mask_, uint64_t from_, uint64_t len_, int mode_, int err_, const std::string& only_) {
    std::lock_guard<std::mutex> l(m);
    mask = mask_; counter = 0; from = from_; len = len_; mode = mode_; err = err_; only = only_;
}
static bool in(const char* p) { return !g_io.root.empty() && p && !strncmp(p, g_io.root.c_str(), g_io.root.size()); }
// 0: proceed; 1: fail with errno; 2: short
static int decide(IoKind k, const std::string& path) {
    g_io.count[k]++;
    if (!(g_io.mask & (1u << k))) return 0;
    if (!g_io.only.empty() && path.find(g_io.only) == std::string::npos) return 0;
    uint64_t c = ++g_io.counter;
    if (c < g_io.from || c - g_io.from >= g_io.len) return 0;
    g_io.injected++;
    if (g_io.mode == 1 && (k == IO_READ || k == IO_WRITE)) return 2;
    errno = g_io.mode == 2 ? EINTR : g_io.err;
    return 1;
}
static void push(IoKind k, uint64_t ino, uint64_t off, std::string data = "", std::string to = "") {
    if (!g_io.journal) return;
    IoEv e;
    e.kind = k; e.ino = ino; e.off = off; e.data = std::move(data); e.to = std::move(to);
    g_io.ev.push_back(std::move(e));
}

bool Io::isSynced(const std::string& path) {
    std::lock_guard<std::mutex> l(m);
    auto n = names().find(path);
    if (n == names().end()) return false;
    bool dirty = false;
    for (auto& e : ev) {
        if (e.ino != n->second) continue;
        if (e.kind == IO_WRITE || e.kind == IO_TRUNC) dirty = true;
        if (e.kind == IO_FSYNC) dirty = false;
    }
    return !dirty;
}

void Io::assumeSynced(const std::string& path) {
    std::lock_guard<std::mutex> l(m);
    auto n = names().find(path);
    if (n != names().end()) push(IO_FSYNC, n->second, 0);
}
void Io::image(const std::string& dst, size_t n, int how, uint64_t seed) {
    struct W { bool trunc; uint64_t off; const std::string* d; };
    struct F { std::string base; std::vector<W> pend; };
    std::map<uint64_t, F> files;
    std::map<std::string, uint64_t> nm;
    std::vector<std::string> dirs;
    auto apply = [](std::string& b, const W& w) {
        if (w.trunc) { b.resize(w.off, '\0'); return; }
        if (b.size() < w.off + w.d->size()) b.resize(w.off + w.d->size(), '\0');
        memcpy(&b[w.off], w.d->data(), w.d->size());
    };
    for (size_t i = 0; i < n && i < ev.size(); ++i) {
        auto& e = ev[i];
        switch (e.kind) {
        case IO_CREATE: nm[e.data] = e.ino; files[e.ino]; break;
        case IO_WRITE: files[e.ino].pend.push_back({false, e.off, &e.data}); break;
        case IO_TRUNC: files[e.ino].pend.push_back({true, e.off, nullptr}); break;
        case IO_FSYNC:
            for (auto& w : files[e.ino].pend) apply(files[e.ino].base, w);
            files[e.ino].pend.clear();
            break;
        case IO_RENAME: nm[e.to] = nm[e.data]; nm.erase(e.data); break;
        case IO_UNLINK: nm.erase(e.data); break;
        case IO_MKDIR: dirs.push_back(e.data); break;
        default: break;
        }
    }
    Rng r(seed);
    for (auto& kv : files) {
        F& f = kv.second;
        if (how == 0) { for (auto& w : f.pend) apply(f.base, w); }
        else if (how == 2) {
            // every sector was last written back after some of the writes
            int pct = (int)r.oneOf({10, 50, 90});
            size_t nw = f.pend.size();
            std::map<uint64_t, size_t> cut;
            auto cutOf = [&](uint64_t sec) {
                auto it = cut.find(sec);
                if (it == cut.end()) it = cut.emplace(sec, r.chance(pct) ? nw : r.chance(50) ? 0 : r.below(nw + 1)).first;
                return it->second;
            };
            size_t tcut = r.chance(pct) ? nw : r.below(nw + 1);
            for (size_t i = 0; i < nw; ++i) {
                auto& w = f.pend[i];
                if (w.trunc) { if (i < tcut) apply(f.base, w); continue; }
                uint64_t p = w.off, end = w.off + w.d->size();
                while (p < end) {
                    uint64_t q = std::min(end, (p / 512 + 1) * 512);
                    if (i < cutOf(p / 512)) {
                        std::string part = w.d->substr(p - w.off, q - p);
                        apply(f.base, W{false, p, &part});
                    }
                    p = q;
                }
            }
        } else if (how == 3 && !f.pend.empty()) {
            size_t k = r.below(f.pend.size() + 1);
            for (size_t i = 0; i < k; ++i) apply(f.base, f.pend[i]);
            if (k < f.pend.size() && !f.pend[k].trunc && r.chance(50)) {   // torn write
                std::string part = f.pend[k].d->substr(0, r.below(f.pend[k].d->size() + 1));
                if (!part.empty()) apply(f.base, W{false, f.pend[k].off, &part});
            }
        }
    }
    auto map = [&](const std::string& p) { return dst + p.substr(root.size()); };
    __real_mkdir(dst.c_str(), 0755);
    for (auto& d : dirs) __real_mkdir(map(d).c_str(), 0755);
    for (auto& x : nm) {
        int fd = __real_open(map(x.first).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd < 0) continue;
        auto& b = files[x.second].base;
        size_t done = 0;
        while (done < b.size()) {
            ssize_t w = __real_write(fd, b.data() + done, b.size() - done);
            if (w <= 0) break;
            done += w;
        }
        __real_close(fd);
    }
}
} // namespace vh

using namespace vh;
extern "C" {
int __wrap_open(const char* p, int fl, ...) {
    mode_t md = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
    if (!in(p)) return __real_open(p, fl, md);
    std::lock_guard<std::mutex> l(g_io.m);
    if (decide(IO_OPEN, p)) return -1;
    bool existed = access(p, F_OK) == 0;
    int fd = __real_open(p, fl, md);
    if (fd < 0) return fd;
    std::string path(p);
    auto n = names().find(path);
    if (!existed || n == names().end()) {
        names()[path] = ++g_ino;
        push(IO_CREATE, g_ino, 0, path);
    } else if (fl & O_TRUNC) push(IO_TRUNC, n->second, 0);
    fds()[fd] = FdInfo{names()[path], path, (fl & O_DIRECT) != 0};
    return fd;
}
int __wrap_open64(const char* p, int fl, ...) {
    mode_t md = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
    return __wrap_open(p, fl, md);
}
int __wrap_close(int fd) {
    if (!g_io.root.empty()) {
        std::lock_guard<std::mutex> l(g_io.m);
        fds().erase(fd);
        return __real_close(fd);
    }
    return __real_close(fd);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    if (g_io.root.empty()) return __real_pread(fd, b, n, o);
    std::unique_lock<std::mutex> l(g_io.m);
    auto f = fds().find(fd);
    if (f == fds().end()) { l.unlock(); return __real_pread(fd, b, n, o); }
    if (misaligned(f->second, b, n, o)) return -1;
    int d = decide(IO_READ, f->second.path);
    if (d == 1) return -1;
    return __real_pread(fd, b, d == 2 ? n / 2 : n, o);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
static ssize_t wr(int fd, const void* b, size_t n, off_t o, bool pos) {
    auto real = [&](size_t k) { return pos ? __real_pwrite(fd, b, k, o) : __real_write(fd, b, k); };
    if (g_io.root.empty()) return real(n);
    std::unique_lock<std::mutex> l(g_io.m);
    auto f = fds().find(fd);
    if (f == fds().end()) { l.unlock(); return real(n); }
    int d = decide(IO_WRITE, f->second.path);
    if (d == 1) return -1;
    if (!pos) o = __real_lseek(fd, 0, SEEK_CUR);
    if (misaligned(f->second, b, n, o)) return -1;
    ssize_t r = real(d == 2 ? n / 2 : n);
    if (r > 0) push(IO_WRITE, f->second.ino, o, std::string((const char*)b, r));
    return r;
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return wr(fd, b, n, o, true); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return wr(fd, b, n, o, true); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return wr(fd, b, n, 0, false); }
off_t __wrap_lseek(int fd, off_t o, int how) {
    if (g_io.root.empty() || !g_io.mask) return __real_lseek(fd, o, how);
    std::unique_lock<std::mutex> l(g_io.m);
    auto f = fds().find(fd);
    if (f != fds().end() && decide(IO_SEEK, f->second.path)) return -1;
    return __real_lseek(fd, o, how);
}
off_t __wrap_lseek64(int fd, off_t o, int how) { return __wrap_lseek(fd, o, how); }
int __wrap_fsync(int fd) {
    if (g_io.root.empty()) return __real_fsync(fd);
    std::unique_lock<std::mutex> l(g_io.m);
    auto f = fds().find(fd);
    if (f == fds().end()) { l.unlock(); return __real_fsync(fd); }
    if (decide(IO_FSYNC, f->second.path)) return -1;
    push(IO_FSYNC, f->second.ino, 0);
    return 0;      // scratch files: the journal is the storage that counts
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (g_io.noSleep) { g_io.slept += a->tv_sec * 1000000000ULL + a->tv_nsec; return 0; }
    return __real_nanosleep(a, b);
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
    if (g_io.root.empty()) return __real_ftruncate(fd, n);
    std::unique_lock<std::mutex> l(g_io.m);
    auto f = fds().find(fd);
    if (f == fds().end()) { l.unlock(); return __real_ftruncate(fd, n); }
    if (decide(IO_TRUNC, f->second.path)) return -1;
    int r = __real_ftruncate(fd, n);
    if (!r) push(IO_TRUNC, f->second.ino, n);
    return r;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_rename(const char* a, const char* b) {
    if (!in(a)) return __real_rename(a, b);
    std::lock_guard<std::mutex> l(g_io.m);
    if (decide(IO_RENAME, a)) return -1;
    int r = __real_rename(a, b);
    if (!r) {
        push(IO_RENAME, 0, 0, a, b);
        names()[b] = names()[a];
        names().erase(a);
    }
    return r;
}
static int rm(const char* p, int (*real)(const char*)) {
    if (!in(p)) return real(p);
    std::lock_guard<std::mutex> l(g_io.m);
    if (decide(IO_UNLINK, p)) return -1;
    int r = real(p);
    if (!r) {
        push(IO_UNLINK, 0, 0, p);
        names().erase(p);
    }
    return r;
}
int __wrap_unlink(const char* p) { return rm(p, __real_unlink); }
int __wrap_remove(const char* p) { return rm(p, __real_remove); }
int __wrap_mkdir(const char* p, mode_t m) {
    if (!in(p)) return __real_mkdir(p, m);
    std::lock_guard<std::mutex> l(g_io.m);
    if (decide(IO_MKDIR, p)) return -1;
    int r = __real_mkdir(p, m);
    if (!r) push(IO_MKDIR, 0, 0, p);
    return r;
}
}
