// C05 serializer, C10 histogram, C11 backup / file / string helpers.
#include "comp.h"
#include "fileops_posix.h"
#include "histogram.h"
#include "internal_helper.h"

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace jungle;
namespace vh {

static std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static void spit(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb");
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
}
static bool there(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
static int openFds() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}

// ------------------------------------------------------------------- C05
static uint64_t edge(Rng& r) {
    switch (r.below(5)) {
    case 0: return r.below(3);
    case 1: return 1ULL << r.below(64);
    case 2: return (1ULL << r.below(64)) - 1;
    case 3: return ~0ULL - r.below(3);
    default: return r.next();
    }
}
static Case genSer(Rng& r, int tier, uint64_t) {
    Case c;
    c.add("cfg.mode", {(int64_t)r.below(4)});   // fixed memory, growing memory, file, appending file
    c.add("cfg.init", {r.chance(50) ? 0 : r.range(1, 70)});
    c.add("cfg.spare", {r.chance(50) ? 0 : r.range(1, 20)});
    if (r.chance(25)) c.add("cfg.fault", {r.range(1, 12), r.range(1, 3), (int64_t)r.below(1)});
    int n = (int)r.range(1, tier ? 60 : 30);
    for (int i = 0; i < n; ++i) {
        int w = (int)r.below(10);
        if (w < 4) c.add("put", {(int64_t)(1 << w), (int64_t)edge(r)});
        else if (w < 6) c.add("raw", {(int64_t)r.below(1 << 30), r.chance(80) ? r.range(0, 40) : r.range(0, 3000)});
        else if (w < 8) c.add("sb", {(int64_t)r.below(1 << 30), r.chance(80) ? r.range(0, 40) : r.range(0, 3000)});
        else if (w == 8) c.add("seek", {(int64_t)r.below(1000)});
        else c.add("put", {8, (int64_t)edge(r)});
    }
    int m = (int)r.range(1, 12);
    for (int i = 0; i < m; ++i) c.add("get", {(int64_t)r.below(6), (int64_t)r.below(1000), r.range(0, 30), (int64_t)r.below(2)});
    return c;
}
static void be(std::string& s, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) s.push_back((char)(v >> (8 * i))); }
static void runSer(const Case& c, Ctx& x) {
    g_io.reset();
    g_io.noSleep = true;
    g_io.start(x.dir);
    int mode = (int)c.cfg("mode");
    FileOpsPosix fo;
    FileHandle* fh = nullptr;
    std::string path = x.dir + "/f";
    // what has to be written
    struct Item { std::string d; int kind; uint64_t v; std::string payload; size_t at; };
    std::string img;
    size_t cur = 0, maxEnd = 0;
    auto total = [&]() {
        size_t p = 0, mx = 0;
        for (auto& o : c.ops) {
            if (o.name == "put") p += o.arg(0); else if (o.name == "raw") p += o.arg(1); else if (o.name == "sb") p += 4 + o.arg(1);
            else if (o.name == "seek" && mode != 3) p = mx ? o.arg(0) % (mx + 1) : 0;
            mx = std::max(mx, p);
        }
        return mx;
    };
    size_t need = total();
    SizedBuf sb;
    std::unique_ptr<RwSerializer> rw;
    std::string fixed;
    std::string guard;
    size_t spare = (size_t)c.cfg("spare");
    if (mode == 0) {
        fixed.assign(need + spare, '\x5a');
        char* heap = (char*)malloc(fixed.size() + 1);   // asan guards both ends
        sb = SizedBuf(need + spare, heap);
        memset(heap, 0x5a, need + spare);
        rw.reset(new RwSerializer(sb));
    } else if (mode == 1) {
        if (c.cfg("init")) sb.alloc(c.cfg("init"));
        rw.reset(new RwSerializer(&sb));
    } else {
        Status s = fo.open(&fh, path, FileOps::NORMAL);
        if (!s) x.fail("open", "cannot open a new file: %d", (int)s);
        rw.reset(new RwSerializer(&fo, fh, mode == 3));
    }
    const Op* flt = nullptr;
    for (auto& o : c.ops) if (o.name == "cfg.fault") flt = &o;
    if (flt && mode >= 2) { g_io.noSleep = true; g_io.faults(1u << IO_WRITE, flt->arg(0), flt->arg(1), (int)flt->arg(2), 28); }
    bool dirty = false;   // a failed write leaves unknown bytes at its position
    std::vector<Item> items;
    int writes = 0;
    for (auto& o : c.ops) {
        std::string d, payload;
        int kind = 0;
        uint64_t v = 0;
        Status s;
        size_t before = rw->pos();
        uint64_t inj = g_io.injected;
        if (mode != 3 && before != cur) x.fail("pos", "position is %zu, expected %zu", before, cur);
        if (o.name == "put") {
            int n = (int)o.arg(0);
            if (n != 1 && n != 2 && n != 4 && n != 8) continue;
            v = (uint64_t)o.arg(1);
            if (n < 8) v &= (1ULL << (8 * n)) - 1;
            be(d, v, n);
            s = n == 1 ? rw->putU8(v) : n == 2 ? rw->putU16(v) : n == 4 ? rw->putU32(v) : rw->putU64(v);
            kind = n;
        } else if (o.name == "raw") {
            d = bytes(o.arg(0), o.arg(1));
            s = rw->put(d.data(), d.size());
            kind = 0; payload = d;
        } else if (o.name == "sb") {
            payload = bytes(o.arg(0), o.arg(1));
            be(d, payload.size(), 4);
            d += payload;
            s = rw->putSb(SizedBuf(payload.size(), (void*)payload.data()));
            kind = 9;
        } else if (o.name == "seek") {
            if (mode == 3) continue;
            size_t p = maxEnd ? o.arg(0) % (maxEnd + 1) : 0;
            rw->pos(p);
            cur = p;
            continue;
        } else continue;
        bool hit = g_io.injected != inj;
        if (!s) {
            if (!hit) x.fail("status", "%s failed with %d without a fault", o.name.c_str(), (int)s);
            if (rw->pos() != before) x.fail("rollback", "%s failed but the position moved from %zu to %zu", o.name.c_str(), before, rw->pos());
            dirty = true;
            x.count("failed-write");
            if (mode == 3) break;       // the end of the file is unknown now
            // overwrite at the same place once the fault is gone
            g_io.noFaults();
            if (d.size()) {
                s = rw->put(d.data(), d.size());
                if (!s) x.fail("status", "rewriting after a fault failed: %d", (int)s);
            }
        } else if (hit && flt->arg(2) == 0 && d.size()) {
            // an error that was retried inside is fine; the bytes are checked below
            x.count("retried-write");
        }
        if (img.size() < cur + d.size()) img.resize(cur + d.size(), '\0');
        img.replace(cur, d.size(), d);
        items.push_back({d, kind, v, payload, cur});
        cur += d.size();
        maxEnd = std::max(maxEnd, cur);
        writes++;
    }
    g_io.noFaults();
    std::string got;
    if (mode <= 1) {
        if (sb.size < img.size()) x.fail("grow", "buffer has %u bytes, %zu were written", sb.size, img.size());
        got.assign((const char*)sb.data, img.size());
        if (mode == 0) for (size_t i = img.size(); i < sb.size; ++i) if ((uint8_t)sb.data[i] != 0x5a) x.fail("overrun", "byte %zu beyond the written range was modified", i);
    } else {
        got = slurp(path);
        if (mode == 3 && dirty) got.resize(std::min(got.size(), img.size()));
        if (rw->size() < img.size()) x.fail("size", "size() is %zu, %zu were written", rw->size(), img.size());
    }
    if (got.substr(0, img.size()) != img) {
        size_t i = 0;
        while (i < img.size() && i < got.size() && img[i] == got[i]) ++i;
        x.fail("image", "byte %zu of the encoded form differs (%zu of %zu bytes)", i, got.size(), img.size());
    }
    // Reads: the items in order, then arbitrary positions.
    std::unique_ptr<RwSerializer> rd;
    size_t len = img.size();
    SizedBuf view;
    if (mode <= 1) {
        char* heap = (char*)malloc(len ? len : 1);
        memcpy(heap, img.data(), len);
        view = SizedBuf(len, heap);
        rd.reset(new RwSerializer(view));
        if (!len) return;      // an empty buffer counts as "file mode"
    } else {
        rd.reset(new RwSerializer(&fo, fh));
        len = got.size();
    }
    auto typed = [&](int kind, size_t at, size_t rawLen, bool clone) {
        rd->pos(at);
        Status s;
        size_t n = kind == 0 ? rawLen : kind == 9 ? 4 : kind;
        std::string want;
        bool ok = at + n <= len;
        if (ok) want = got.substr(at, n);
        if (kind == 0) {
            std::string b(rawLen, '\x7e');
            s = rd->get(&b[0], rawLen);
            if (ok && rawLen && b != want) x.fail("get", "%zu raw bytes at %zu differ", rawLen, at);
        } else if (kind == 9) {
            uint64_t sl = 0;
            if (ok) for (char ch : want) sl = sl << 8 | (uint8_t)ch;
            if (ok && at + 4 + sl > len) { if (sl > 1000000 || !clone) return; ok = false; }
            if (!ok && !clone) return;
            if (mode >= 2 && !clone) clone = true;
            SizedBuf o;
            s = rd->getSb(o, clone);
            if (ok) {
                if (!s) x.fail("get", "buffer of %llu bytes at %zu cannot be read: %d", (unsigned long long)sl, at, (int)s);
                if (o.size != sl || (sl && memcmp(o.data, got.data() + at + 4, sl))) x.fail("get", "buffer at %zu differs", at);
                if (!clone && sl && (o.data < view.data || o.data >= view.data + len)) x.fail("get", "buffer should refer to the source");
                if (rd->pos() != at + 4 + sl) x.fail("pos", "position after reading a buffer is %zu, expected %zu", rd->pos(), (size_t)(at + 4 + sl));
            } else if (clone && s && at + 4 > len) { /* size could not be read: empty buffer */ if (o.size) x.fail("get", "unreadable buffer has %u bytes", o.size); }
            else if (clone && s) x.fail("bound", "reading a buffer that ends beyond the data at %zu succeeded", at);
            if (clone) o.free();
            return;
        } else {
            uint64_t wv = 0, v = 0;
            for (char ch : want) wv = wv << 8 | (uint8_t)ch;
            v = kind == 1 ? rd->getU8(s) : kind == 2 ? rd->getU16(s) : kind == 4 ? rd->getU32(s) : rd->getU64(s);
            if (ok && v != wv) x.fail("get", "%d-byte value at %zu is %llx, expected %llx", kind, at, (unsigned long long)v, (unsigned long long)wv);
        }
        if (ok && !s) x.fail("get", "reading %zu bytes at %zu of %zu failed: %d", n, at, len, (int)s);
        if (!ok && s && n) x.fail("bound", "reading %zu bytes at %zu of %zu succeeded", n, at, len);
        if (rd->pos() != at + (ok ? n : 0)) x.fail("pos", "position after reading %zu bytes at %zu is %zu", n, at, rd->pos());
        if (rd->available(n) != (mode >= 2 || rd->pos() + n <= len)) x.fail("available", "available(%zu) is wrong at %zu of %zu", n, rd->pos(), len);
    };
    for (auto& it : items) typed(it.kind, it.at, it.payload.size(), true);
    for (auto& o : c.ops) {
        if (o.name != "get") continue;
        static const int K[] = {0, 1, 2, 4, 8, 9};
        int kind = K[o.arg(0) % 6];
        // mostly close to the end
        size_t at = o.arg(3) ? o.arg(1) % (len + 1) : len - std::min<size_t>(len, o.arg(1) % 12);
        typed(kind, at, o.arg(2), o.arg(3));
    }
    if (writes >= 3) x.nontrivial();
    if (fh) { fo.close(fh); delete fh; }
}

// ------------------------------------------------------------------- C10
static Case genHist(Rng& r, int tier, uint64_t) {
    Case c;
    int n = (int)r.range(0, tier ? 200 : 60);
    int style = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
        int64_t v = style == 0 ? (int64_t)edge(r) : style == 1 ? r.range(0, 100) : style == 2 ? (int64_t)(r.next() >> r.below(64)) : r.range(1000, 1010);
        c.add("add", {v, (int64_t)r.below(3), r.chance(20) ? r.range(2, 50) : 1});
    }
    c.add("cfg.op", {(int64_t)r.below(4)});
    c.add("cfg.thr", {r.chance(30) ? r.range(2, 4) : 1});
    for (int i = 0; i < 6; ++i) c.add("pct", {r.chance(30) ? r.oneOf({0, 1, 999, 1000, 10000, 9999, 9990, 5000}) : r.range(0, 10000)});
    return c;
}
static void runHist(const Case& c, Ctx& x) {
    Histogram h[3];
    std::vector<uint64_t> all, part[3];
    int thr = (int)c.cfg("thr", 1);
    for (auto& o : c.ops) {
        if (o.name != "add") continue;
        int w = (int)(o.arg(1) % 3);
        int64_t n = std::min<int64_t>(100, o.arg(2, 1));
        for (int64_t i = 0; i < n; ++i) part[w].push_back((uint64_t)o.arg(0));
    }
    for (int w = 0; w < 3; ++w) {
        if (thr <= 1) { for (auto v : part[w]) h[w].add(v); continue; }
        std::vector<std::thread> t;
        for (int k = 0; k < thr; ++k) t.emplace_back([&, k]() { for (size_t i = k; i < part[w].size(); i += thr) h[w].add(part[w][i]); });
        for (auto& q : t) q.join();
    }
    Histogram sum;
    int op = (int)c.cfg("op");
    if (op == 0) { sum = h[0] + h[1]; sum = sum + h[2]; }
    else if (op == 1) { sum += h[0]; sum += h[1]; sum += h[2]; }
    else if (op == 2) { Histogram t(h[2]); t += h[0]; sum = h[1] + t; }
    else { Histogram t; t = h[1]; sum = h[0]; sum += t; sum += h[2]; }
    auto verify = [&](Histogram& H, std::vector<uint64_t> v, const char* who) {
        std::sort(v.begin(), v.end());
        uint64_t s = 0;
        for (auto e : v) s += e;
        if (H.getTotal() != v.size()) x.fail("total", "%s: total %llu, expected %zu", who, (unsigned long long)H.getTotal(), v.size());
        if (H.getSum() != s) x.fail("sum", "%s: sum %llu, expected %llu", who, (unsigned long long)H.getSum(), (unsigned long long)s);
        if (H.getAverage() != (v.empty() ? 0 : s / v.size())) x.fail("average", "%s: average is wrong", who);
        if (thr <= 1 && H.getMax() != (v.empty() ? 0 : v.back())) x.fail("max", "%s: max %llu, expected %llu", who, (unsigned long long)H.getMax(), (unsigned long long)(v.empty() ? 0 : v.back()));
        // bins: every value falls in exactly one, bounds [lower, upper)
        size_t cnt = 0;
        uint64_t prevLow = 0;
        bool first = true;
        for (auto& e : H) {
            uint64_t lo = e.getLowerBound(), up = e.getUpperBound();
            size_t n = 0;
            for (auto q : v) if (q >= lo && (q < up || (e.getIdx() == 0 && q >= lo))) ++n;
            if (n != e.getCount()) x.fail("bin", "%s: bin [%llu, %llu) holds %llu, expected %zu", who, (unsigned long long)lo, (unsigned long long)up, (unsigned long long)e.getCount(), n);
            if (!first && e.getIdx() != 64 && up > prevLow) x.fail("bin", "%s: bins overlap", who);
            prevLow = lo; first = false;
            cnt += e.getCount();
        }
        if (cnt != v.size()) x.fail("bin", "%s: bins hold %zu values, expected %zu", who, cnt, v.size());
        for (auto& o : c.ops) {
            if (o.name != "pct") continue;
            double p = o.arg(0) / 100.0;
            uint64_t est = H.estimate(p);
            if (p <= 0 || p >= 100) {
                if (est) x.fail("estimate", "%s: estimate(%g) is %llu", who, p, (unsigned long long)est);
                if (H.find(p) != H.end()) x.fail("find", "%s: find(%g) is not the end", who, p);
                continue;
            }
            if (v.empty()) { if (est) x.fail("estimate", "%s: estimate of nothing is %llu", who, (unsigned long long)est); continue; }
            uint64_t th = (uint64_t)((double)v.size() * (100 - p) / 100.0);
            if (!th) { if (thr <= 1 && est != v.back()) x.fail("estimate", "%s: estimate(%g) is %llu, expected the maximum", who, p, (unsigned long long)est); continue; }
            uint64_t q = v[v.size() - th];      // the th-th largest value
            uint64_t lo = q ? 1ULL << (63 - __builtin_clzl(q)) : 0;
            uint64_t hi = q ? (lo << 1 ? lo << 1 : ~0ULL) : 1;
            if (thr <= 1) hi = std::min(hi, v.back());
            // one unit / a relative 1e-9 of slack for the floating-point computation
            if (thr <= 1 && ((double)est * (1 + 1e-9) + 1 < (double)lo || (double)est > (double)hi * (1 + 1e-9) + 1)) x.fail("estimate", "%s: estimate(%g) is %llu, the value of that rank is in [%llu, %llu]", who, p, (unsigned long long)est, (unsigned long long)lo, (unsigned long long)hi);
            auto f = H.find(p);
            if (f == H.end() || f.getLowerBound() > q || (f.getIdx() && f.getUpperBound() <= q)) x.fail("find", "%s: find(%g) is not the bin of %llu", who, p, (unsigned long long)q);
        }
    };
    for (int w = 0; w < 3; ++w) {
        verify(h[w], part[w], "histogram");
        all.insert(all.end(), part[w].begin(), part[w].end());
    }
    verify(sum, all, "sum of histograms");
    if (all.size() > 3) x.nontrivial();
}

// ------------------------------------------------------------------- C11
static std::string fileName(int64_t i) { static const char* N[] = {"a", "b", "manifest", "x.y", "long_name_000001"}; return N[(uint64_t)i % 5]; }
static Case genUtil(Rng& r, int tier, uint64_t) {
    Case c;
    int n = (int)r.range(2, tier ? 40 : 20);
    for (int i = 0; i < n; ++i) {
        int64_t f = (int64_t)r.below(5), g = (int64_t)r.below(5);
        int64_t len = r.chance(20) ? 0 : r.chance(70) ? r.range(1, 300) : r.range(1, 70000);
        switch (r.below(13)) {
        case 0: case 1: c.add("write", {f, (int64_t)r.below(1 << 30), len}); break;
        case 2: c.add("copy", {f, g, (int64_t)r.below(2)}); break;
        case 3: c.add("backup", {f, (int64_t)r.below(2)}); break;
        case 4: c.add("restore", {f}); break;
        case 5: case 6: c.add("backupbuf", {f, (int64_t)r.below(1 << 30), len, r.chance(50) ? 0 : (int64_t)r.below(len + 10), (int64_t)r.below(2)}); break;
        case 7: case 8: c.add("backupkeep", {f, (int64_t)r.below(1 << 30), len, r.chance(50) ? 0 : (int64_t)r.below(len + 10), (int64_t)r.below(2)}); break;
        case 9: c.add("fault", {r.oneOf({IO_WRITE, IO_READ, IO_FSYNC, IO_TRUNC, IO_OPEN}), r.range(1, 3), r.chance(50) ? r.range(1, 30) : 1000}); break;
        case 10: c.add("nofault"); break;
        case 11: c.add("remove", {f, (int64_t)r.below(2)}); break;
        case 12: c.add("dir"); break;
        }
    }
    for (int i = 0; i < 4; ++i) c.add("str", {(int64_t)r.below(1 << 30), (int64_t)r.below(6)});
    return c;
}
static void runUtil(const Case& c, Ctx& x) {
    g_io.reset();
    g_io.noSleep = true;
    g_io.start(x.dir);
    FileOpsPosix fo;
    std::map<std::string, std::string> m;      // path -> content; missing: absent
    std::set<std::string> unknown;             // content unknown after a failure
    std::map<std::string, FileHandle*> kept;   // handles of "backupkeep"
    auto P = [&](int64_t i) { return x.dir + "/" + fileName(i); };
    bool faulty = false;
    int done = 0, faultsSeen = 0;
    int fds = openFds();
    auto same = [&](const std::string& p) {
        if (unknown.count(p)) return;
        auto f = m.find(p);
        bool e = there(p);
        if (e != (f != m.end())) x.fail("exist", "%s %s", p.c_str() + x.dir.size(), e ? "exists" : "is gone");
        if (f == m.end()) return;
        std::string d = slurp(p);
        if (d != f->second) x.fail("content", "%s holds %zu bytes, expected %zu, or they differ", p.c_str() + x.dir.size(), d.size(), f->second.size());
    };
    auto outcome = [&](const char* what, Status s, const std::string& dst, const std::string& content, bool sync, uint64_t inj) {
        bool hit = g_io.injected != inj;
        if (s) {
            m[dst] = content;
            unknown.erase(dst);
            same(dst);
            if (sync && !g_io.isSynced(dst)) x.fail("durable", "%s reported success but %s is not on stable storage", what, dst.c_str() + x.dir.size());
            done++;
        } else {
            if (!hit) x.fail("status", "%s failed with %d without a fault", what, (int)s);
            faultsSeen++;
            unknown.insert(dst);
            x.count("failed");
        }
    };
    for (auto& o : c.ops) {
        uint64_t inj = g_io.injected;
        if (o.name == "write") {
            auto p = P(o.arg(0));
            spit(p, bytes(o.arg(1), o.arg(2)));
            m[p] = bytes(o.arg(1), o.arg(2));
            unknown.erase(p);
        } else if (o.name == "copy" || o.name == "backup" || o.name == "restore") {
            std::string a = P(o.arg(0)), b = o.name == "copy" ? P(o.arg(1)) : a + ".bak";
            if (o.name == "restore") std::swap(a, b);
            bool sync = o.name == "restore" || (o.name == "copy" ? o.arg(2) : o.arg(1));
            if (a == b || unknown.count(a)) continue;
            if (o.name == "backup" && kept.count(a)) continue;      // one writer of a backup at a time
            Status s = o.name == "copy" ? BackupRestore::copyFile(&fo, a, b, sync) : o.name == "backup" ? BackupRestore::backup(&fo, a, sync) : BackupRestore::restore(&fo, b);
            if (!m.count(a)) {
                if (s.getValue() != Status::FILE_NOT_EXIST) x.fail("missing", "%s of a missing file returned %d", o.name.c_str(), (int)s);
                same(b);
                continue;
            }
            outcome(o.name.c_str(), s, b, m[a], sync, inj);
            same(a);
        } else if (o.name == "backupbuf" || o.name == "backupkeep") {
            bool keep = o.name == "backupkeep";
            std::string a = P(o.arg(0)), b = a + ".bak";
            std::string d = bytes(o.arg(1), o.arg(2));
            size_t skip = o.arg(3), len = d.size();
            if (unknown.count(b) && (skip || keep)) continue;
            if (!keep && kept.count(a)) continue;     // one writer of a backup at a time
            std::string old = m.count(b) ? m[b] : std::string();
            std::string want = old;
            want.resize(len > skip || !keep ? len : std::min(len, old.size()), '\0');
            if (len > skip) want.replace(skip, len - skip, d.substr(skip));
            SizedBuf ctx(d.size(), (void*)d.data());
            Status s;
            if (keep) {
                FileHandle*& fh = kept[a];
                bool had = fh;
                s = BackupRestore::backup(&fo, &fh, a, ctx, len, skip, o.arg(4));
                if (s && !fh) x.fail("handle", "no handle after a successful backup");
                if (!s && fh) x.fail("handle", "the handle of a failed backup is kept");
                (void)had;
                if (!fh) kept.erase(a);
            } else {
                s = BackupRestore::backup(&fo, a, ctx, len, skip, o.arg(4));
            }
            outcome(o.name.c_str(), s, b, want, o.arg(4), inj);
        } else if (o.name == "fault") {
            g_io.faults(1u << o.arg(0), o.arg(1), o.arg(2), 0, 28);
            faulty = true;
        } else if (o.name == "nofault") {
            g_io.noFaults(); faulty = false;
        } else if (o.name == "remove") {
            auto p = P(o.arg(0)) + (o.arg(1) ? ".bak" : "");
            int rc = FileMgr::remove(p);
            if (rc && !faulty) x.fail("remove", "removing %s returned %d", p.c_str() + x.dir.size(), rc);
            if (there(p)) x.fail("remove", "%s still exists", p.c_str() + x.dir.size());
            m.erase(p);
            unknown.erase(p);
        } else if (o.name == "dir") {
            if (faulty) continue;
            // directory helpers agree with the file system
            std::vector<std::string> fs;
            FileMgr::scan(x.dir, fs);
            std::set<std::string> got;
            for (auto& f : fs) if (f != "." && f != "..") { if (!got.insert(f).second) x.fail("scan", "%s is listed twice", f.c_str()); }
            uint64_t tot = 0;
            bool unk = false;
            std::set<std::string> want;
            for (auto& e : m) { want.insert(FileMgr::filePart(e.first)); tot += e.second.size(); }
            for (auto& u : unknown) { unk = true; if (there(u)) { want.insert(FileMgr::filePart(u)); } else want.erase(FileMgr::filePart(u)); }
            if (got != want) x.fail("scan", "the listing has %zu entries, expected %zu", got.size(), want.size());
            if (!unk) {
                if (FileMgr::dirSize(x.dir) != tot) x.fail("dirSize", "directory size %llu, expected %llu", (unsigned long long)FileMgr::dirSize(x.dir), (unsigned long long)tot);
                for (auto& e : m) if (FileMgr::fileSize(e.first) != e.second.size()) x.fail("fileSize", "size of %s is wrong", e.first.c_str() + x.dir.size());
            }
            std::string sub = x.dir + "/sub", sub2 = sub + "/deep";
            if (FileMgr::exist(sub)) x.fail("exist", "directory exists");
            FileMgr::mkdir(sub); FileMgr::mkdir(sub2);
            if (!FileMgr::exist(sub2)) x.fail("mkdir", "directory was not created");
            spit(sub2 + "/f", std::string(100, 'q'));
            spit(sub + "/g", std::string(11, 'q'));
            if (FileMgr::dirSize(sub) != 11 || FileMgr::dirSize(sub, true) != 111) x.fail("dirSize", "nested directory size is wrong");
            FileMgr::removeDir(sub);
            if (there(sub)) x.fail("removeDir", "directory still exists");
            done++;
        } else if (o.name == "str") {
            Rng r(o.arg(0) * 31 + 7);
            std::string alpha = "ab, \t\n";
            std::string s, a, b;
            for (int i = (int)r.below(20); i > 0; --i) s += alpha[r.below(alpha.size())];
            for (int i = (int)r.range(1, 2); i > 0; --i) a += alpha[r.below(alpha.size())];
            for (int i = (int)r.below(3); i > 0; --i) b += alpha[r.below(alpha.size())];
            switch (o.arg(1) % 6) {
            case 0: {
                std::string w;
                for (size_t i = 0; i < s.size();) { if (s.compare(i, a.size(), a) == 0) { w += b; i += a.size(); } else w += s[i++]; }
                if (StrHelper::replace(s, a, b) != w) x.fail("replace", "replace('%s','%s','%s')", s.c_str(), a.c_str(), b.c_str());
                break;
            }
            case 1: {
                auto t = StrHelper::tokenize(s, a);
                std::string j;
                for (size_t i = 0; i < t.size(); ++i) { if (t[i].find(a) != std::string::npos && a.size() == 1) x.fail("tokenize", "token contains the delimiter"); j += (i ? a : "") + t[i]; }
                if (j != s && j + a != s) x.fail("tokenize", "joining the tokens of '%s' by '%s' gives '%s'", s.c_str(), a.c_str(), j.c_str());
                break;
            }
            case 2: {
                std::string t = StrHelper::trim(s), ws = " \t\n";
                size_t i = 0, e = s.size();
                while (i < e && ws.find(s[i]) != std::string::npos) ++i;
                while (e > i && ws.find(s[e - 1]) != std::string::npos) --e;
                if (t != s.substr(i, e - i)) x.fail("trim", "trim of '%s' is '%s'", s.c_str(), t.c_str());
                break;
            }
            case 3: {
                std::string raw = bytes(o.arg(0), r.below(40));
                std::string hx;
                for (unsigned char ch : raw) { char q[3]; snprintf(q, 3, r.chance(50) ? "%02x" : "%02X", ch); hx += q; }
                bool bad = r.chance(30);
                if (bad) { if (hx.empty() || r.chance(50)) hx += "g"; else hx[r.below(hx.size())] = "gG/:@`x "[r.below(8)]; if (hx.size() % 2 && r.chance(50)) hx += "0"; }
                SizedBuf k = HexDump::hexStr2bin(hx);
                std::string got((char*)k.data, k.size);
                if (bad ? !k.empty() : got != raw) x.fail("hex", "hexStr2bin('%s') gives %u bytes", hx.c_str(), k.size);
                k.free();
                break;
            }
            case 4: {
                std::string raw = bytes(o.arg(0), r.below(40));
                size_t lim = r.below(50);
                std::string w;
                for (size_t i = 0; i < std::min(raw.size(), lim); ++i) { unsigned char ch = raw[i]; w += ch >= 0x20 && ch <= 0x7d ? (char)ch : '.'; }
                w += " (" + std::to_string(raw.size()) + ")";
                if (HexDump::rStr(raw, lim) != w) x.fail("rStr", "readable form '%s', expected '%s'", HexDump::rStr(raw, lim).c_str(), w.c_str());
                break;
            }
            case 5: {
                size_t v = r.below(1100), g = PrimeNumber::getUpper(v);
                auto isP = [](size_t n) { if (n < 2) return false; for (size_t d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; };
                size_t w = v;
                while (w <= 997 && !isP(w)) ++w;
                if (w > 997) w = 997;
                if (g != w) x.fail("prime", "getUpper(%zu) is %zu, expected %zu", v, g, w);
                std::vector<size_t> pd;
                for (int i = (int)r.range(1, 6); i > 0; --i) pd.push_back(r.chance(40) ? 0 : r.below(100));
                pd.push_back(r.range(1, 9));
                for (int i = 0; i < 20; ++i) { size_t k = RndGen::fromProbDist(pd); if (k >= pd.size() || !pd[k]) x.fail("prob", "an outcome of probability zero was drawn"); }
                break;
            }
            }
        }
    }
    g_io.noFaults();
    for (auto& e : m) same(e.first);
    for (auto& k : kept) { fo.close(k.second); delete k.second; }
    int fe = openFds();
    if (fe != fds) x.fail("leak", "%d file descriptors were left open", fe - fds);
    if (done >= 2 || faultsSeen) x.nontrivial();
}

void regUtil(std::vector<Check>& v) {
    Check s;
    s.id = "C05"; s.rule = "at least 3 values were written through the serializer";
    s.quick_cases = 200000; s.thorough_cases = 8000000; s.batch = 100;
    s.gen = genSer; s.run = runSer;
    v.push_back(s);
    Check h;
    h.id = "C10"; h.rule = "more than 3 samples were added"; h.needs_dir = false;
    h.quick_cases = 150000; h.thorough_cases = 6000000; h.batch = 100;
    h.gen = genHist; h.run = runHist;
    v.push_back(h);
    Check u;
    u.id = "C11"; u.rule = "at least 2 file operations succeeded, or one met an injected fault";
    u.quick_cases = 60000; u.thorough_cases = 2500000; u.batch = 100;
    u.gen = genUtil; u.run = runUtil;
    v.push_back(u);
}
} // namespace vh
