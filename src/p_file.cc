// C01 buffered file operations, C02 direct-I/O file operations.
#include "comp.h"
#include "fileops_directio.h"
#include "fileops_posix.h"

#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

using namespace jungle;
extern "C" off_t __real_lseek(int, off_t, int);
namespace vh {

std::string bytes(int64_t seed, int64_t len) {
    Rng r(seed * 7919 + 13);
    std::string s(len, '\0');
    for (int64_t i = 0; i < len; i += 8) {
        uint64_t v = r.next();
        memcpy(&s[i], &v, std::min<int64_t>(8, len - i));
    }
    return s;
}
static const uint64_t PG = 4096;
void Sparse::write(uint64_t off, const std::string& d) {
    for (uint64_t i = 0; i < d.size();) {
        uint64_t p = (off + i) / PG * PG, o = off + i - p, n = std::min<uint64_t>(PG - o, d.size() - i);
        auto& s = pg[p];
        s.resize(PG, '\0');
        memcpy(&s[o], d.data() + i, n);
        i += n;
    }
    size = std::max<uint64_t>(size, off + d.size());
}
std::string Sparse::read(uint64_t off, uint64_t len) const {
    std::string r(len, '\0');
    for (uint64_t i = 0; i < len;) {
        uint64_t p = (off + i) / PG * PG, o = off + i - p, n = std::min<uint64_t>(PG - o, len - i);
        auto f = pg.find(p);
        if (f != pg.end()) memcpy(&r[i], &f->second[o], n);
        i += n;
    }
    return r;
}
void Sparse::trunc(uint64_t n) {
    size = n;
    for (auto i = pg.begin(); i != pg.end();) {
        if (i->first >= n) { i = pg.erase(i); continue; }
        if (i->first + PG > n) memset(&i->second[n - i->first], 0, PG - (n - i->first));
        ++i;
    }
}
// Walks the allocated extents of a file.
static bool extents(const std::string& path, std::function<void(uint64_t, const std::string&)> f, uint64_t& size) {
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0) return false;
    struct stat st;
    fstat(fd, &st);
    size = st.st_size;
    off_t p = 0;
    while ((p = __real_lseek(fd, p, SEEK_DATA)) >= 0) {
        off_t e = __real_lseek(fd, p, SEEK_HOLE);
        while (p < e) {
            std::string s(std::min<off_t>(e - p, 1 << 20), '\0');
            ssize_t r = ::pread(fd, &s[0], s.size(), p);
            if (r <= 0) break;
            s.resize(r);
            f(p, s);
            p += r;
        }
    }
    ::close(fd);
    return true;
}
void Sparse::load(const std::string& path) {
    pg.clear();
    size = 0;
    uint64_t sz = 0;
    extents(path, [&](uint64_t o, const std::string& s) { write(o, s); }, sz);
    size = sz;
}
bool sameFile(const std::string& path, const Sparse& m, std::string* why) {
    Sparse d;
    d.load(path);
    if (d.size != m.size) { *why = strf("size %llu, expected %llu", (unsigned long long)d.size, (unsigned long long)m.size); return false; }
    std::set<uint64_t> ps;
    for (auto& x : d.pg) ps.insert(x.first);
    for (auto& x : m.pg) ps.insert(x.first);
    for (uint64_t p : ps) {
        std::string a = d.read(p, PG), b = m.read(p, PG);
        for (size_t i = 0; i < PG; ++i) if (a[i] != b[i]) {
            *why = strf("byte %llu is %02x, expected %02x", (unsigned long long)(p + i), (uint8_t)a[i], (uint8_t)b[i]);
            return false;
        }
    }
    return true;
}

// ------------------------------------------------------------------- C01
static Case genPosix(Rng& r, int tier, uint64_t) {
    Case c;
    int n = (int)r.range(6, tier ? 80 : 40);
    c.add("open", {0, 0, 0});
    bool faulty = r.chance(40);
    for (int i = 0; i < n; ++i) {
        int64_t f = r.below(2), h = r.below(2);
        int64_t off = r.chance(12) ? r.oneOf({(1LL << 31) - 3, 1LL << 31, (1LL << 32) - 7, 1LL << 32, 5LL << 30}) + r.below(64) : (r.chance(30) ? r.oneOf({0, 511, 512, 4095, 4096, 65536}) : r.below(9000));
        int64_t len = r.chance(10) ? 0 : r.chance(20) ? r.range(4000, 70000) : r.range(1, 600);
        if (faulty && r.chance(30)) c.add("fault", {r.oneOf({0, 1, 1, 2, 3}), r.oneOf({0, 1, 2}), r.range(1, 3), r.chance(15) ? 1000000 : r.range(1, 5)});
        switch (r.weighted({10, 4, 22, 20, 22, 5, 8, 8, 4, 5, 3, 3})) {
        case 0: c.add("open", {f, h, r.chance(20)}); break;
        case 1: c.add("close", {f, h}); break;
        case 2: c.add("read", {f, h, off, len}); break;
        case 3: c.add("write", {f, h, off, len, (int64_t)r.below(1000)}); break;
        case 4: c.add("append", {f, h, len, (int64_t)r.below(1000)}); break;
        case 5: c.add("eof", {f, h}); break;
        case 6: c.add("fsync", {f, h}); break;
        case 7: c.add("trunc", {f, h, off}); break;
        case 8: c.add("remove", {f}); break;
        case 9: c.add("exist", {f}); break;
        case 10: c.add("mkdir", {(int64_t)r.below(3)}); break;
        case 11: c.add("bad", {f, h, (int64_t)r.below(7)}); break;
        }
    }
    return c;
}
static void runPosix(const Case& c, Ctx& x) {
    g_io.reset();
    g_io.start(x.dir);
    g_io.noSleep = true;
    FileOpsPosix ops;
    std::shared_ptr<Sparse> file[2];                       // linked file of each name
    struct H { FileHandle* h = nullptr; std::shared_ptr<Sparse> f; bool ro = false; bool closed = false; } hs[2][2];
    std::set<int> dirs;
    int n_rw = 0, n_faults = 0, n_ok = 0;
    bool armed = false, perm = false;
    int fk = 0;
    auto path = [&](int f) { return x.dir + strf("/f%d", f); };
    const IoKind KS[] = {IO_READ, IO_WRITE, IO_FSYNC, IO_TRUNC};
    for (auto& o : c.ops) {
        int f = (int)o.arg(0) & 1, hi = (int)o.arg(1) & 1;
        H& h = hs[f][hi];
        if (o.name == "fault") {
            fk = (int)o.arg(0) & 3;
            uint64_t from = std::max<int64_t>(1, o.arg(2)), len = std::max<int64_t>(1, o.arg(3));
            perm = len > 20;
            int mode = (int)o.arg(1) % 3;
            if (perm && mode == 2) mode = 0;
            if (fk >= 2 && mode == 1) mode = 0;
            g_io.faults(1u << KS[fk], from, len, mode, 5);
            armed = true;
            continue;
        }
        uint64_t inj0 = g_io.injected;
        auto injected = [&]() { return g_io.injected - inj0; };
        bool live = h.h && !h.closed;
        Status s;
        if (o.name == "open") {
            if (h.h) { if (!h.closed) { Status cs = ops.close(h.h); if (!cs) x.fail("close", "close failed: %d", (int)cs); } delete h.h; h = H(); }
            bool ro = o.arg(2) != 0;
            s = ops.open(&h.h, path(f), ro ? FileOps::READ_ONLY : FileOps::NORMAL);
            if (ro && !file[f]) { if (s) x.fail("open", "opening a missing file read-only succeeded"); if (h.h) x.fail("open", "handle set by a failed open"); h = H(); }
            else {
                if (!s) x.fail("open", "open failed: %d", (int)s);
                if (!h.h || !h.h->isOpened() || h.h->ops() != &ops) x.fail("open", "handle is not open after open");
                if (!file[f]) file[f] = std::make_shared<Sparse>();
                h.f = file[f];
                h.ro = ro;
            }
        } else if (o.name == "close") {
            if (!h.h) continue;
            s = ops.close(h.h);
            if (live && !s) x.fail("close", "close failed: %d", (int)s);
            if (!live && s) x.fail("close", "closing a closed handle succeeded");
            if (h.h->isOpened()) x.fail("close", "handle is open after close");
            h.closed = true;
        } else if (o.name == "read") {
            uint64_t off = o.arg(2), len = o.arg(3);
            if (!live) {
                char b[8];
                s = ops.pread(h.h, b, 8, 0);
                if (s) x.fail("closed", "pread on a %s handle succeeded", h.h ? "closed" : "null");
                continue;
            }
            if (h.f->size == 0) len = 0;
            else { if (off >= h.f->size) off %= h.f->size; len = std::min(len, h.f->size - off); }
            std::string b(len + 16, '\x5a');
            s = ops.pread(h.h, &b[8], len, off);
            bool bad = armed && fk == 0 && perm && injected() && injected() != 0;
            if (bad) { if (s && b.substr(8, len) != h.f->read(off, len)) x.fail("fault-read", "pread of %llu bytes reported success although it could not read them", (unsigned long long)len); }
            else {
                if (!s) x.fail("read", "pread(%llu, %llu) failed: %d (injected %llu)", (unsigned long long)off, (unsigned long long)len, (int)s, (unsigned long long)injected());
                if (b.substr(8, len) != h.f->read(off, len)) x.fail("read", "pread(%llu, %llu) returned other bytes than were written", (unsigned long long)off, (unsigned long long)len);
                n_rw++;
            }
            if (b.substr(0, 8) != std::string(8, '\x5a') || b.substr(len + 8) != std::string(8, '\x5a')) x.fail("overrun", "pread wrote outside of the buffer");
        } else if (o.name == "write" || o.name == "append") {
            bool ap = o.name == "append";
            std::string d = bytes(o.arg(ap ? 3 : 4), o.arg(ap ? 2 : 3));
            if (!live) {
                s = ap ? ops.append(h.h, "xxxxxxxx", 8) : ops.pwrite(h.h, "xxxxxxxx", 8, 0);
                if (s) x.fail("closed", "write on a %s handle succeeded", h.h ? "closed" : "null");
                continue;
            }
            uint64_t off = ap ? h.f->size : o.arg(2);
            s = ap ? ops.append(h.h, d.data(), d.size()) : ops.pwrite(h.h, d.data(), d.size(), off);
            bool bad = armed && fk == 1 && perm && injected();
            if (h.ro && d.size()) {
                if (s) x.fail("readonly", "write through a read-only handle succeeded");
            } else if (bad) {
                if (s) x.fail("fault-write", "%s of %zu bytes reported success although the bytes could not be written", o.name.c_str(), d.size());
                // what a failed write leaves behind is not specified: adopt it
                if (h.f == file[f]) h.f->load(path(f));
                else { ops.close(h.h); delete h.h; h = H(); }
            } else {
                if (!s) x.fail("write", "%s(%llu, %zu) failed: %d (injected %llu)", o.name.c_str(), (unsigned long long)off, d.size(), (int)s, (unsigned long long)injected());
                if (d.size()) { h.f->write(off, d); n_rw++; }
            }
        } else if (o.name == "eof") {
            cs_off_t e = ops.eof(h.h);
            if (live && e != (cs_off_t)h.f->size) x.fail("eof", "eof is %lld, expected %llu", (long long)e, (unsigned long long)h.f->size);
            if (!live && e >= 0) x.fail("closed", "eof of a closed handle is %lld", (long long)e);
        } else if (o.name == "fsync") {
            s = ops.flush(h.h);
            if (!!s != live) x.fail("flush", "flush returned %d", (int)s);
            s = ops.fsync(h.h);
            if (!live) { if (s) x.fail("closed", "fsync of a closed handle succeeded"); }
            else if (injected() && armed && fk == 2) { if (s) x.fail("fault-fsync", "fsync reported success although it failed"); }
            else {
                if (!s) x.fail("fsync", "fsync failed: %d", (int)s);
                if (h.f == file[f] && !g_io.isSynced(path(f))) x.fail("fsync", "fsync returned OK without syncing the written bytes");
            }
        } else if (o.name == "trunc") {
            uint64_t n = o.arg(2);
            s = ops.ftruncate(h.h, n);
            if (!live) { if (s) x.fail("closed", "ftruncate of a closed handle succeeded"); }
            else if (h.ro) { if (s) x.fail("readonly", "ftruncate through a read-only handle succeeded"); }
            else if (injected() && armed && fk == 3) { if (s) x.fail("fault-trunc", "ftruncate reported success although it failed"); }
            else { if (!s) x.fail("trunc", "ftruncate failed: %d", (int)s); h.f->trunc(n); n_rw++; }
        } else if (o.name == "remove") {
            s = ops.remove(path(f));
            if (!!s != !!file[f]) x.fail("remove", "remove of %s file returned %d", file[f] ? "an existing" : "a missing", (int)s);
            file[f].reset();
        } else if (o.name == "exist") {
            bool e = ops.exist(path(f));
            if (e != !!file[f]) x.fail("exist", "exist is %d for %s file", e, file[f] ? "an existing" : "a missing");
        } else if (o.name == "mkdir") {
            int d = (int)o.arg(0);
            s = ops.mkdir(x.dir + strf("/d%d", d));
            if (!!s != !dirs.count(d)) x.fail("mkdir", "mkdir returned %d", (int)s);
            dirs.insert(d);
            if (!ops.exist(x.dir + strf("/d%d", d))) x.fail("mkdir", "directory does not exist after mkdir");
        } else if (o.name == "bad") {
            // null handle / closed handle: an error, never a crash or an OK
            char b[4] = {0};
            FileHandle* nh = live ? nullptr : h.h;
            switch (o.arg(2)) {
            case 0: s = ops.pread(nh, b, 4, 0); break;
            case 1: s = ops.pwrite(nh, b, 4, 0); break;
            case 2: s = ops.append(nh, b, 4); break;
            case 3: s = ops.fsync(nh); break;
            case 4: s = ops.flush(nh); break;
            case 5: s = ops.ftruncate(nh, 0); break;
            default: s = ops.close(nh);
            }
            if (s) x.fail("bad-handle", "operation %d on a %s handle returned OK", (int)o.arg(2), nh ? "closed" : "null");
        }
        n_faults += injected() ? 1 : 0;
        n_ok++;
        if (armed) { g_io.noFaults(); armed = perm = false; }
        for (int k = 0; k < 2; ++k) {
            bool e = file[k] != nullptr;
            if ((access(path(k).c_str(), F_OK) == 0) != e) x.fail("name", "file f%d %s", k, e ? "disappeared" : "appeared");
            std::string why;
            if (e && !sameFile(path(k), *file[k], &why)) x.fail("content", "after %s: file f%d: %s", o.name.c_str(), k, why.c_str());
        }
    }
    for (auto& a : hs) for (auto& h : a) if (h.h) { if (!h.closed) ops.close(h.h); delete h.h; }
    if (n_rw >= 3) x.nontrivial();
    x.count("n:faulted_ops", n_faults);
    x.count("n:ops", n_ok);
    g_io.reset();
}

// ------------------------------------------------------------------- C02
static Case genDio(Rng& r, int tier, uint64_t) {
    Case c;
    c.add("cfg.align", {r.oneOf({512, 512, 512, 4096})});
    c.add("cfg.buf", {r.oneOf({1, 2, 3, 8, 32})});
    c.add("cfg.buf2", {r.oneOf({1, 4, 32})});
    if (r.chance(8)) c.add("grow", {r.oneOf({2, 3, 4, 5})});
    int n = (int)r.range(5, tier ? 70 : 35);
    bool faulty = r.chance(35);
    c.add("open");
    for (int i = 0; i < n; ++i) {
        int64_t len = r.chance(25) ? r.oneOf({1, 4, 7, 8, 9, 248, 252, 256, 500, 504, 505, 508, 511, 512, 513, 1024, 4096, 16380, 16384}) : r.chance(15) ? r.range(3000, 40000) : r.range(0, 700);
        if (faulty && r.chance(25)) c.add("fault", {r.oneOf({0, 1, 1, 2, 3, 4}), r.oneOf({0, 1, 2}), r.range(1, 3), r.chance(12) ? 1000000 : r.range(1, 5)});
        switch (r.weighted({40, 16, 12, 20, 6, 7, 4, 3, 4})) {
        case 0: c.add("append", {len, (int64_t)r.below(1000)}); break;
        case 1: c.add("flush"); break;
        case 2: c.add("sync"); break;
        case 3: c.add("read", {(int64_t)r.below(100000), r.chance(20) ? r.range(2000, 50000) : r.range(0, 1500), (int64_t)r.below(4) == 0}); break;
        case 4: c.add("reopen"); break;
        case 5: c.add("trunc", {(int64_t)r.below(100000), (int64_t)r.below(3)}); break;
        case 6: c.add("eof"); break;
        case 7: c.add("bad", {(int64_t)r.below(10)}); break;
        case 8: c.add("kill"); break;
        }
    }
    return c;
}
static void runDio(const Case& c, Ctx& x) {
    g_io.reset();
    g_io.start(x.dir);
    g_io.noSleep = true;
    uint64_t A = c.cfg("align", 512);
    if (A != 512 && A != 4096) A = 512;
    uint64_t B = std::max<int64_t>(1, c.cfg("buf", 32)) * A, B2 = std::max<int64_t>(1, c.cfg("buf2", 4)) * A;
    FileOpsDirectIO ops(nullptr, B, A), ops2(nullptr, B2, A);
    std::string path = x.dir + "/log";
    FileHandle* h = nullptr;
    // model: what the file holds, the position of the buffered tail, the tail
    Sparse disk;
    uint64_t filePos = 0, flushed = 0;
    std::string buf;
    bool have = false;
    int n_app = 0, n_rd = 0, n_re = 0, n_faults = 0;
    bool armed = false, perm = false;
    int fk = 0;
    const IoKind KS[] = {IO_READ, IO_WRITE, IO_FSYNC, IO_SEEK, IO_TRUNC};
    auto setOpen = [&]() {
        filePos = disk.size / A * A;
        buf = disk.read(filePos, disk.size - filePos);
        flushed = disk.size;
        have = true;
    };
    auto drop = [&](bool failed) {       // forget the handle, adopt the file
        if (h) { delete h; h = nullptr; }
        have = false;
        (void)failed;
        disk.load(path);
    };
    auto mflush = [&]() {
        if (buf.empty() || flushed >= filePos + buf.size()) return;
        std::string d = buf;
        if (d.size() % A) {
            uint64_t pad = A - d.size() % A;
            if (pad < 8) pad += A;
            std::string p(pad, '\0');
            p[0] = '\xfe';
            d += p;
        }
        disk.write(filePos, d);
        flushed = filePos + buf.size();
    };
    auto mclose = [&]() { mflush(); have = false; };
    auto chk = [&](const char* op) {
        std::string why;
        if (!sameFile(path, disk, &why)) x.fail("content", "after %s: %s (align %llu buffer %llu)", op, why.c_str(), (unsigned long long)A, (unsigned long long)B);
    };
    for (auto& o : c.ops) {
        if (o.name.compare(0, 4, "cfg.") == 0) continue;
        if (o.name == "fault") {
            fk = (int)(o.arg(0) % 5);
            uint64_t from = std::max<int64_t>(1, o.arg(2)), len = std::max<int64_t>(1, o.arg(3));
            perm = len > 20;
            int mode = (int)o.arg(1) % 3;
            if (perm && mode == 2) mode = 0;
            if (fk >= 3) { mode = 0; from = 1 + (from - 1) % 2; }
            if (fk == 2 && mode == 1) mode = 0;
            g_io.faults(1u << KS[fk], from, len, mode, 5);
            armed = true;
            continue;
        }
        uint64_t inj0 = g_io.injected;
        auto injected = [&]() { return g_io.injected - inj0; };
        Status s;
        bool live = have && h;
        auto failed = [&](int k) { return armed && perm && fk == k && injected() > 0; };
        if (o.name == "grow") {
            if (live || access(path.c_str(), F_OK) == 0) continue;
            int fd = ::open(path.c_str(), O_CREAT | O_RDWR, 0644);
            uint64_t sz = (uint64_t)o.arg(0) << 30;
            if (::ftruncate(fd, sz)) {}
            ::close(fd);
            disk.trunc(sz);
        } else if (o.name == "open" || o.name == "reopen") {
            if (live) {
                s = ops.close(h);
                if (failed(1)) { if (s && !(disk.size >= filePos + buf.size())) {} drop(true); }
                else {
                    if (!s) x.fail("close", "close failed: %d", (int)s);
                    if (h->isOpened()) x.fail("close", "handle is open after close");
                    delete h;
                    h = nullptr;
                    mclose();
                    chk("close");
                }
            }
            if (!h) {
                bool f0 = armed && fk == 0;
                uint64_t i0 = g_io.injected;
                s = ops.open(&h, path, FileOps::NORMAL);
                bool sk = armed && fk == 3 && g_io.injected > i0;
                if (sk && s) x.fail("fault-open", "open reported success although the size of the file could not be read");
                if (!s) {
                    if (!sk && !(f0 && perm)) x.fail("open", "open failed: %d", (int)s);
                    h = nullptr;
                    have = false;
                } else { setOpen(); n_re++; }
            }
        } else if (o.name == "kill") {
            if (live) {
                // the process dies: buffered bytes are lost, the file stays
                FileHandle* hh = h;
                delete hh;           // the destructor closes without flushing
                h = nullptr;
                have = false;
                chk("drop");
            }
        } else if (o.name == "append") {
            std::string d = bytes(o.arg(1), o.arg(0));
            if (!live) { s = ops.append(h, "12345678", 8); if (s) x.fail("closed", "append without a handle succeeded"); continue; }
            s = ops.append(h, d.data(), d.size());
            if (failed(1)) { if (s) x.fail("fault-append", "append of %zu bytes reported success although writing failed", d.size()); drop(true); }
            else {
                if (!s) x.fail("append", "append of %zu bytes failed: %d", d.size(), (int)s);
                buf += d;
                while (buf.size() >= B) {
                    disk.write(filePos, buf.substr(0, B));
                    buf.erase(0, B);
                    filePos += B;
                    flushed = std::max(flushed, filePos);
                }
                n_app += d.size() > 0;
            }
        } else if (o.name == "flush" || o.name == "sync") {
            if (!live) { s = ops.flush(h); if (s) x.fail("closed", "flush without a handle succeeded"); s = ops.fsync(h); if (s) x.fail("closed", "fsync without a handle succeeded"); continue; }
            bool due = !buf.empty() && flushed < filePos + buf.size();
            s = ops.flush(h);
            if (failed(1)) { if (s && due) x.fail("fault-flush", "flush reported success although writing failed"); drop(true); }
            else {
                if (!s) x.fail("flush", "flush failed: %d", (int)s);
                mflush();
                std::string all = disk.read(filePos, buf.size());
                if (all != buf) x.fail("model", "model error");
                if (o.name == "sync") {
                    s = ops.fsync(h);
                    if (injected() && armed && fk == 2) {
                        if (s) x.fail("fault-fsync", "fsync reported success although it failed");
                    } else {
                        if (!s) x.fail("fsync", "fsync failed: %d", (int)s);
                        if (!g_io.isSynced(path)) x.fail("fsync", "fsync returned OK but the latest written bytes were not synced");
                    }
                }
            }
        } else if (o.name == "read") {
            uint64_t len = o.arg(1), off = disk.size ? (uint64_t)o.arg(0) % disk.size : 0;
            if (disk.size > (1ULL << 30) && o.arg(0) % 2) off = disk.size - std::min<uint64_t>(disk.size, o.arg(0) % 3000);
            if (!live) continue;
            bool second = o.arg(2) != 0;
            FileHandle* rh = h;
            FileOpsDirectIO* ro = &ops;
            if (second) {
                ro = &ops2;
                rh = nullptr;
                s = ops2.open(&rh, path, FileOps::READ_ONLY);
                if (!s) { if (!(armed && fk == 0 && perm) && !(armed && fk == 3 && injected())) x.fail("open", "read-only open failed: %d", (int)s); rh = nullptr; }
            }
            if (rh) {
                bool past = off + len > disk.size;
                std::string b(len + 16, '\x5a');
                s = ro->pread(rh, &b[8], len, off);
                if (past && len) { if (s) x.fail("read-past-end", "pread(%llu, %llu) beyond the end (%llu) succeeded", (unsigned long long)off, (unsigned long long)len, (unsigned long long)disk.size); }
                else if (armed && fk == 3 && injected()) { if (s) x.fail("fault-read", "pread reported success although the size of the file could not be read"); }
                else if (failed(0)) { if (s && b.substr(8, len) != disk.read(off, len)) x.fail("fault-read", "pread reported success although reading failed"); }
                else {
                    if (!s) x.fail("read", "pread(%llu, %llu) failed: %d", (unsigned long long)off, (unsigned long long)len, (int)s);
                    if (b.substr(8, len) != disk.read(off, len)) x.fail("read", "pread(%llu, %llu) returned other bytes than the file holds (align %llu buffer %llu)", (unsigned long long)off, (unsigned long long)len, (unsigned long long)A, (unsigned long long)(second ? B2 : B));
                    n_rd += len > 0;
                }
                if (b.substr(0, 8) != std::string(8, '\x5a') || b.substr(len + 8) != std::string(8, '\x5a')) x.fail("overrun", "pread wrote outside of the buffer");
                if (second) { delete rh; }
            }
        } else if (o.name == "trunc") {
            if (!live) { s = ops.ftruncate(h, 0); if (s) x.fail("closed", "ftruncate without a handle succeeded"); continue; }
            uint64_t n = disk.size ? (uint64_t)o.arg(0) % (disk.size + 1) : 0;
            if (o.arg(1) == 1) n = n / A * A;
            if (o.arg(1) == 2) n = disk.size + o.arg(0) % 1000;
            s = ops.ftruncate(h, n);
            if (armed && fk >= 3 && injected()) { if (s) x.fail("fault-trunc", "ftruncate reported success although a system call failed"); drop(true); }
            else if (failed(0)) { drop(true); }
            else {
                if (!s) x.fail("trunc", "ftruncate to %llu of %llu failed: %d", (unsigned long long)n, (unsigned long long)disk.size, (int)s);
                if (n < disk.size) { disk.trunc(n); setOpen(); }
            }
        } else if (o.name == "eof") {
            cs_off_t e = ops.eof(h);
            if (armed && fk == 3 && injected()) { if (e >= 0) x.fail("fault-eof", "eof is %lld although the size of the file could not be read", (long long)e); continue; }
            if (live && e != (cs_off_t)disk.size) x.fail("eof", "eof is %lld, expected %llu", (long long)e, (unsigned long long)disk.size);
            if (!live && e >= 0) x.fail("closed", "eof without a handle is %lld", (long long)e);
        } else if (o.name == "bad") {
            g_io.noFaults();
            armed = perm = false;
            char b[4] = {0};
            switch (o.arg(0)) {
            case 0: s = ops.pread(nullptr, b, 4, 0); break;
            case 1: s = live ? ops.pwrite(h, b, 4, 0) : ops.append(nullptr, b, 4); break;
            case 2: s = ops.append(nullptr, b, 4); break;
            case 3: s = ops.fsync(nullptr); break;
            case 4: s = live ? ops.ftruncate(h, -1) : ops.ftruncate(nullptr, 0); break;
            case 7: case 8: {
                // a handle that was closed
                std::string p2 = x.dir + "/other";
                FileHandle* ch = nullptr;
                if (!ops.open(&ch, p2, FileOps::NORMAL)) x.fail("open", "open of another file failed");
                if (!ops.append(ch, "abc", 3)) x.fail("append", "append to another file failed");
                if (!ops.close(ch)) x.fail("close", "close of another file failed");
                s = ops.append(ch, b, 4); if (s) break;
                s = ops.flush(ch); if (s) break;
                s = ops.fsync(ch); if (s) break;
                s = ops.pread(ch, b, 1, 0); if (s) break;
                s = ops.ftruncate(ch, 0); if (s) break;
                if (ops.eof(ch) >= 0) x.fail("bad-handle", "eof of a closed handle is %lld", (long long)ops.eof(ch));
                s = ops.close(ch);
                delete ch;
                break;
            }
            case 9: {
                std::string d = x.dir + "/dir";
                if (ops.exist(d)) x.fail("exist", "a missing directory exists");
                if (!ops.mkdir(d)) x.fail("mkdir", "mkdir failed");
                if (!ops.exist(d)) x.fail("exist", "an existing directory does not exist");
                Status t = ops.mkdir(d);
                if (t) x.fail("mkdir", "mkdir of an existing directory returned OK");
                if (!ops.remove(d)) x.fail("remove", "remove failed");
                if (ops.exist(d)) x.fail("exist", "a removed directory exists");
                s = ops.remove(d);
                break;
            }
            case 5: s = live ? ops.pread(h, nullptr, 4, 0) : ops.flush(nullptr); break;
            default: s = ops.close(nullptr);
            }
            if (s) x.fail("bad-handle", "invalid operation %d returned OK", (int)o.arg(0));
        }
        n_faults += injected() ? 1 : 0;
        if (armed) { g_io.noFaults(); armed = perm = false; }
        if (access(path.c_str(), F_OK) == 0) chk(o.name.c_str());
    }
    if (have && h) {
        Status s = ops.close(h);
        if (!s) x.fail("close", "close failed: %d", (int)s);
        delete h;
        mclose();
        chk("last close");
    }
    if (n_app >= 3 && n_rd >= 1) x.nontrivial();
    x.count("n:faulted_ops", n_faults);
    x.count("n:opens", n_re);
    x.count("n:appends", n_app);
    g_io.reset();
}

void regFile(std::vector<Check>& v) {
    Check k;
    k.id = "C01";
    k.rule = "operation sequences on FileOpsPosix over two names and four handles (positioned and appended writes, reads, truncation, removal, sparse offsets beyond 4 GiB, transient and permanent injected I/O faults); non-trivial = at least 3 reads/writes/truncations were compared with the byte model";
    k.quick_cases = 60000; k.thorough_cases = 3000000; k.batch = 60;
    k.gen = genPosix; k.run = runPosix;
    k.assumptions = {"system calls are intercepted at link time; sleeping between retries is skipped"};
    v.push_back(k);
    k = Check();
    k.id = "C02";
    k.rule = "operation sequences on FileOpsDirectIO (append, flush, fsync, unaligned reads through instances with other buffer sizes, truncation, re-opening, loss of the process, files above 4 GiB, injected faults) compared with a byte model; non-trivial = at least 3 non-empty appends and 1 non-empty read";
    k.quick_cases = 20000; k.thorough_cases = 800000; k.batch = 60;
    k.gen = genDio; k.run = runDio;
    k.assumptions = {"the scratch file system (tmpfs) accepts O_DIRECT", "system calls are intercepted at link time; sleeping between retries is skipped"};
    v.push_back(k);
}
} // namespace vh
