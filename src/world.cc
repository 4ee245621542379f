#include "world.h"

#include <libjungle/params.h>
#include <zlib.h>

#include <algorithm>
#include <cstring>

namespace vh {

using jungle::CompactOptions;
using jungle::FlushOptions;
using jungle::GlobalConfig;
using jungle::SearchOptions;

// ------------------------------------------------------------ keys and values
int keyCompare(int kind, const std::string& a, const std::string& b) {
    auto plain = [](const std::string& x, const std::string& y) {
        size_t n = std::min(x.size(), y.size());
        int c = n ? memcmp(x.data(), y.data(), n) : 0;
        if (c) return c;
        return x.size() < y.size() ? -1 : x.size() > y.size() ? 1 : 0;
    };
    if (kind == 1) return plain(b, a);                       // descending
    if (kind == 2) {                                         // by length, then bytes
        if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
        return plain(a, b);
    }
    if (kind == 3) {                                         // bytes read from the end
        std::string ra(a.rbegin(), a.rend()), rb(b.rbegin(), b.rend());
        return plain(ra, rb);
    }
    return plain(a, b);
}
static int cCmp(void* a, size_t la, void* b, size_t lb, void* p) {
    return keyCompare((int)(intptr_t)p, std::string((char*)a, la), std::string((char*)b, lb));
}

std::string makeKey(int space, int64_t idx) {
    if (idx < 0) idx = -idx;
    switch (space) {
    case 1: {  // bijective base-4 over bytes that stress comparisons and prefixes
        static const char al[4] = {'\0', 'a', 'b', '\xff'};
        std::string s;
        int64_t n = idx + 1;
        while (n > 0) {
            int64_t d = (n - 1) % 4;
            s += al[d];
            n = (n - 1) / 4;
        }
        return s;
    }
    case 2: {
        uint64_t x = (uint64_t)idx * 0x9E3779B97F4A7C15ULL;
        std::string s(8, 0);
        for (int i = 0; i < 8; ++i) s[i] = (char)(x >> (56 - 8 * i));
        return s;
    }
    case 3: {
        std::string s = strf("p%02d/g%02d/", (int)(idx % 5), (int)(idx / 5 % 4));
        s += std::string(20 + (idx * 37) % 300, 'x');
        s += strf("%06d", (int)idx);
        return s;
    }
    case 4: return strf("%d", (int)idx);   // variable length decimal
    default: return strf("k%05d", (int)idx);
    }
}
std::string makeVal(int64_t vs, int64_t len) {
    if (len < 0) len = 0;
    if (len > (1 << 20)) len = 1 << 20;
    std::string s;
    s.reserve(len);
    if (vs & 1) {
        Rng r(vs * 7919 + len);
        while ((int64_t)s.size() < len) {
            uint64_t x = r.next();
            s.append((char*)&x, std::min<size_t>(8, len - s.size()));
        }
    } else {
        std::string u = strf("v%ld|", (long)vs);
        while ((int64_t)s.size() < len) s += u;
        s.resize(len);
    }
    return s;
}
std::string toS(const SizedBuf& b) { return std::string((const char*)b.data, b.data ? b.size : 0); }

const std::vector<std::string> CFG = {
    "log_entries", "log_size", "l0parts", "next",     "l0size",  "l1size",  "l1total", "mintables", "minfs",  "cf",
    "bloomx10",    "usebloom", "boost",   "seqidx",   "fastscan", "purgedel", "comp",  "cmp",       "dio",    "bulk",
    "preflush",    "skipmani", "hashlen", "fbuf",     "maxchk",  "keys",    "nkeys",   "pw",        "reuse",  "safe",
    "serialize",   "tw",       "minwss",  "overwrite", "logonly", "ratio",  "nwc",     "seqload",   "trunc",  "ttl",
    "keepmem",     "fdbcache", "cmpnext"};
int cfgIdx(const std::string& n) {
    for (size_t i = 0; i < CFG.size(); ++i) if (CFG[i] == n) return (int)i;
    return -1;
}

World::World(Ctx& x, const Case& cs, const std::string& sub) : ctx(x) {
    static const std::map<std::string, int64_t> dflt = {
        {"log_entries", 64}, {"log_size", 65536}, {"l0parts", 2}, {"next", 1}, {"l0size", 4096}, {"l1size", 8192},
        {"l1total", 65536}, {"mintables", 1}, {"minfs", 1024}, {"cf", 120}, {"bloomx10", 0}, {"usebloom", 1}, {"boost", 1},
        {"seqidx", 1}, {"purgedel", 1}, {"maxchk", 10}, {"nkeys", 20}, {"serialize", 1}, {"tw", 2}, {"fbuf", 4096},
        {"minwss", 65536}, {"pw", 1}, {"trunc", 1}, {"reuse", 1}};
    cfg = dflt;
    for (auto& o : cs.ops)
        if (!o.name.compare(0, 4, "cfg.")) cfg[o.name.substr(4)] = o.arg(0);
    if (cfg["nkeys"] < 1) cfg["nkeys"] = 1;
    path = ctx.dir + "/" + sub;
    st = State(KeyCmp{cmpKind()});
}
World::~World() {}

std::string World::key(int64_t i) const {
    return makeKey((int)c("keys"), i);
}

DBConfig World::dbConfig() const {
    DBConfig d;
    d.maxEntriesInLogFile = std::max<int64_t>(2, c("log_entries"));
    d.maxLogFileSize = std::max<int64_t>(512, c("log_size"));
    d.numL0Partitions = std::max<int64_t>(1, c("l0parts"));
    // Known finding: range-partitioned levels ignore a custom comparator
    // (cmpnext re-enables the combination for its reproduction).
    d.nextLevelExtension = c("next") != 0 && (!cmpKind() || c("cmpnext"));
    d.maxL0TableSize = std::max<int64_t>(256, c("l0size"));
    d.maxL1TableSize = std::max<int64_t>(256, c("l1size"));
    d.maxL1Size = std::max<int64_t>(512, c("l1total"));
    // A filter is sized per whole KB of table and must have at least one bit.
    if (c("bloomx10")) {
        d.maxL0TableSize = std::max<uint64_t>(1024, d.maxL0TableSize);
        d.maxL1TableSize = std::max<uint64_t>(1024, d.maxL1TableSize);
    }
    if (c("ratio")) {
        d.tableSizeRatio = {std::max<int64_t>(10, c("ratio")) / 10.0};
        d.levelSizeRatio = {std::max<int64_t>(10, c("ratio")) / 10.0};
    }
    d.minNumTablesPerLevel = c("mintables");
    d.minFileSizeToCompact = c("minfs");
    d.compactionFactor = c("cf");
    d.minWssToMerge = c("minwss");
    d.bloomFilterBitsPerUnit = c("bloomx10") ? std::max<int64_t>(10, c("bloomx10")) / 10.0 : 0;
    d.useBloomFilterForGet = c("usebloom") != 0;
    d.lookupBoosterLimit_mb.clear();
    if (c("boost") == 1) d.lookupBoosterLimit_mb = {1, 1};
    else if (c("boost") == 2) d.lookupBoosterLimit_mb = {1};
    d.useSequenceIndex = c("seqidx") != 0;
    d.fastIndexScan = c("fastscan") != 0;
    d.purgeDeletedDocImmediately = c("purgedel") != 0;
    d.bulkLoading = c("bulk") != 0;
    d.preFlushDirtySize = c("preflush");
    d.preFlushDirtyInterval_sec = 0;
    d.skipManifestSync = c("skipmani") != 0;
    d.maxKeepingCheckpoints = c("maxchk");
    d.maxParallelWritesPerJob = c("pw");
    d.maxBlockReuseCycle = c("reuse");
    d.safeMode = c("safe") != 0;
    d.serializeMultiThreadedLogFlush = c("serialize") != 0;
    d.allowOverwriteSeqNum = c("overwrite") != 0;
    d.logSectionOnly = c("logonly") != 0;
    d.truncateInconsecutiveLogs = c("trunc") != 0;
    d.logFileTtl_sec = c("ttl");
    d.maxKeepingMemtables = c("keepmem");
    d.numWritesToCompact = c("nwc");
    d.seqLoadingDelayFactor = c("seqload");
    d.autoLogFlush = false;
    if (c("dio")) {
        d.directIoOpt.enabled = true;
        d.directIoOpt.bufferSize = c("dio") == 2 ? 8192 : c("dio") == 3 ? 512 : 4096;
        d.directIoOpt.alignSize = c("dio") == 3 ? 512 : 4096;
        if (c("dio") == 3) d.directIoOpt.readaheadSize = 0;
    }
    int64_t hl = c("hashlen");
    if (hl) d.customLenForHash = [hl](const jungle::HashKeyLenParams&) -> size_t { return hl; };
    if (cmpKind()) {
        d.cmpFunc = cCmp;
        d.cmpFuncParam = (void*)(intptr_t)cmpKind();
    }
    int64_t comp = c("comp");
    if (comp) {
        // 1: zlib;  2: zlib, cancelled for every third length;
        // 3: a format that grows short data (always kept);  4: declined by size
        d.compOpt.cbGetMaxSize = [comp](DB*, const Record& r) -> ssize_t {
            if (comp == 4 && r.kv.value.size % 2) return 0;
            if (comp == 3) return r.kv.value.size + 7;
            return compressBound(r.kv.value.size) + 1;
        };
        d.compOpt.cbCompress = [comp](DB*, const Record& r, SizedBuf& dst) -> ssize_t {
            if (comp == 2 && r.kv.value.size % 3 == 0) return 0;
            unsigned char* p = (unsigned char*)dst.data;
            if (comp == 3) {
                memcpy(p, "\x07grow\x00!", 7);
                for (size_t i = 0; i < r.kv.value.size; ++i) p[7 + i] = ((unsigned char*)r.kv.value.data)[i] ^ 0x5a;
                return r.kv.value.size + 7;
            }
            uLongf n = dst.size - 1;
            p[0] = 0xC5;
            if (compress2(p + 1, &n, (const Bytef*)r.kv.value.data, r.kv.value.size, 1) != Z_OK) return -1;
            return n + 1;
        };
        d.compOpt.cbDecompress = [comp](DB*, const SizedBuf& src, SizedBuf& dst) -> ssize_t {
            const unsigned char* p = (const unsigned char*)src.data;
            if (comp == 3) {
                if (src.size < 7 || memcmp(p, "\x07grow\x00!", 7) || src.size - 7 > dst.size) return -1;
                for (size_t i = 7; i < src.size; ++i) ((unsigned char*)dst.data)[i - 7] = p[i] ^ 0x5a;
                return src.size - 7;
            }
            uLongf n = dst.size;
            if (!src.size || p[0] != 0xC5) return -2;
            if (uncompress((Bytef*)dst.data, &n, p + 1, src.size - 1) != Z_OK) return -1;
            return n;
        };
    }
    if (cfgHook) cfgHook(d);
    return d;
}

void World::globalInit() {
    if (global_up) return;
    GlobalConfig g;
    g.globalLogPath = ctx.dir;
    g.numFlusherThreads = 0;
    g.numCompactorThreads = 0;
    g.numTableWriters = std::max<int64_t>(1, c("tw"));
    g.memTableFlushBufferSize = std::max<int64_t>(64, c("fbuf"));
    g.fdbCacheSize = 0;
    g.logFileReclaimerSleep_sec = 3600;
    DB::init(g);
    global_up = true;
}
void World::globalShutdown() {
    if (!global_up) return;
    DB::shutdown();
    global_up = false;
}

Status World::open() {
    globalInit();
    return DB::open(&db, path, dbConfig());
}
void World::openOrFail() {
    Status s = open();
    if (!s) ctx.fail("open", "opening the database failed: %d", (int)s);
}
void World::closeIts() {
    for (auto& h : its) {
        if (h.it) h.it->close();
    }
    its.clear();
}
void World::closeSnaps() {
    for (auto& s : snaps)
        if (s.h) DB::close(s.h);
    snaps.clear();
}
void World::close() {
    closeIts();
    closeSnaps();
    if (db) {
        Status s = DB::close(db);
        if (!s) ctx.fail("close", "closing the database failed: %d", (int)s);
        db = nullptr;
        syncedSeq = maxSeq;
    }
}
void World::reopen(const std::vector<int64_t>& ch) {
    close();
    static const std::set<std::string> mutable_cfg = {
        "log_entries", "log_size", "l0parts", "l0size", "l1size", "l1total", "mintables", "minfs", "cf", "bloomx10", "usebloom",
        "boost", "fastscan", "purgedel", "dio", "bulk", "preflush", "skipmani", "maxchk", "pw", "reuse", "safe", "serialize", "minwss", "ratio"};
    bool full = false;
    for (size_t i = 0; i + 1 < ch.size(); i += 2) {
        if (ch[i] < 0 || (size_t)ch[i] >= CFG.size()) continue;
        std::string n = CFG[ch[i]];
        if (n == "tw" || n == "fbuf") { full = true; cfg[n] = ch[i + 1]; continue; }
        if (!mutable_cfg.count(n)) continue;
        if (n == "l0parts" && (!c("next") || cmpKind())) continue;   // only adjustable with range-partitioned levels
        cfg[n] = ch[i + 1];
    }
    if (full) globalShutdown();
    openOrFail();
    n_reopen++;
    ctx.count("op:reopen");
}

// ------------------------------------------------------------ writes
void World::applyWrite(const std::string& k, const Ver& v) {
    auto it = st.find(k);
    if (it != st.end()) n_over++;
    st[k] = v;
    note(k);
    LogEnt e{v.seq, k, v};
    log.push_back(e);
    maxSeq = v.seq;
    if (v.del) n_del++;
    if (onWrite) onWrite(e);
}

void World::put(int64_t ki, int64_t vs, int64_t vl, int64_t api, int64_t ml) {
    std::string k = key(ki), v = makeVal(vs, vl), m = api == 1 || api == 3 ? makeVal(vs + 1, ml) : "";
    Ver ver;
    ver.val = v;
    ver.meta = m;
    Status s;
    if (api == 2 || api == 3) ver.seq = maxSeq + 1 + (vs % 4 == 0 ? vs % 9 : 0);
    else ver.seq = maxSeq + 1;
    if (api == 0) s = db->set(KV(k, v));
    else if (api == 2) s = db->setSN(ver.seq, KV(k, v));
    else {
        Record r;
        r.kv = KV(k, v);
        r.meta = SizedBuf(m);
        if (api == 3) { r.seqNum = ver.seq; s = db->setRecord(r); }
        else s = db->setRecordByKey(r);
    }
    if (!s) ctx.fail("write-status", "write (api %d) of key %s returned %d", (int)api, hex(k).c_str(), (int)s);
    applyWrite(k, ver);
}
void World::del(int64_t ki, int64_t api, int64_t ml) {
    std::string k = key(ki), m = api == 2 ? makeVal(ki + 3, ml) : "";
    Ver v;
    v.del = true;
    v.seq = maxSeq + 1;
    v.meta = m;
    Status s;
    if (api == 1) { v.seq += ki % 3; s = db->delSN(v.seq, SizedBuf(k)); }
    else if (api == 2) {
        Record r;
        r.kv.key = SizedBuf(k);
        r.meta = SizedBuf(m);
        s = db->delRecord(r);
    } else s = db->del(SizedBuf(k));
    if (!s) ctx.fail("write-status", "delete (api %d) of key %s returned %d", (int)api, hex(k).c_str(), (int)s);
    applyWrite(k, v);
}
void World::batch(const Op& op) {
    std::list<Record> recs;
    std::list<std::string> store;
    std::vector<std::pair<std::string, Ver>> w;
    uint64_t seq = maxSeq;
    bool custom = op.arg(0) == 1;
    for (size_t i = 1; i + 2 < op.a.size(); i += 3) {
        std::string k = key(op.a[i]);
        Ver v;
        v.del = op.a[i + 2] < 0;
        if (!v.del) v.val = makeVal(op.a[i + 1], op.a[i + 2]);
        if (op.a[i + 1] % 5 == 0) v.meta = makeVal(op.a[i + 1], 5);
        seq += 1 + (custom ? op.a[i + 1] % 3 : 0);
        v.seq = seq;
        store.push_back(k);
        Record r;
        r.kv.key = SizedBuf(store.back());
        if (v.del) r.type = Record::DELETION;
        else { store.push_back(v.val); r.kv.value = SizedBuf(store.back()); }
        store.push_back(v.meta);
        r.meta = SizedBuf(store.back());
        if (custom) r.seqNum = v.seq;
        recs.push_back(r);
        w.push_back({k, v});
    }
    Status s = db->setRecordBatch(recs);
    if (recs.empty()) {
        if (s != Status::EMPTY_BATCH) ctx.fail("write-status", "empty batch returned %d", (int)s);
        return;
    }
    if (!s) ctx.fail("write-status", "batch of %zu returned %d", recs.size(), (int)s);
    for (auto& x : w) applyWrite(x.first, x.second);
    ctx.count("op:batch");
}

void World::sync(bool fs) {
    Status s = db->sync(fs);
    if (!s) ctx.fail("sync-status", "sync(%d) returned %d", fs, (int)s);
    syncedSeq = maxSeq;
    ctx.count("op:sync");
}
void World::refreshFlushed() {
    uint64_t f = 0;
    Status s = db->getLastFlushedSeqNum(f);
    if (!s) return;
    if (f == DB::NULL_SEQNUM) return;
    if (f < flushedSeq) ctx.fail("flushed-seq", "last flushed sequence number went back from %lu to %lu", (unsigned long)flushedSeq, (unsigned long)f);
    if (f > maxSeq) ctx.fail("flushed-seq", "last flushed sequence number %lu is beyond the last write %lu", (unsigned long)f, (unsigned long)maxSeq);
    flushedSeq = f;
}
void World::flush(int64_t beyond, int64_t pct, int64_t nfiles) {
    FlushOptions fo;
    fo.beyondLastSync = beyond != 0;
    fo.numFilesLimit = nfiles > 0 ? nfiles : 0;
    uint64_t upto = (uint64_t)-1;
    if (pct > 0) {
        upto = flushedSeq + (maxSeq - flushedSeq) * std::min<int64_t>(pct, 100) / 100;
        if (!upto) upto = 1;
    }
    Status s = db->flushLogs(fo, upto);
    int v = (int)s;
    ctx.count(strf("flush:%d", v).c_str());
    if (s.ok()) n_flush_ok++, n_maint_ok++;
    else if (v != Status::LOG_NOT_SYNCED && v != Status::ALREADY_FLUSHED && v != Status::INVALID_SEQNUM && v != Status::LOG_NOT_EXIST &&
             v != Status::ALREADY_PURGED && v != Status::LOG_FILE_NOT_FOUND && v != Status::SEQNUM_NOT_FOUND && v != Status::OPERATION_IN_PROGRESS)
        ctx.fail("flush-status", "flushLogs returned %d", v);
    uint64_t before = flushedSeq;
    refreshFlushed();
    if (s.ok() && maxSeq > before && upto == (uint64_t)-1 && beyond && !fo.numFilesLimit && flushedSeq != maxSeq && !c("logonly"))
        ctx.fail("flush-incomplete", "flushLogs(beyondLastSync) reported success but flushed only up to %lu of %lu", (unsigned long)flushedSeq,
                 (unsigned long)maxSeq);
    if (flushedSeq > syncedSeq) syncedSeq = flushedSeq;
}

void World::maint(const Op& op) {
    CompactOptions co;
    co.ignoreThreshold = op.arg(1) & 1;
    co.preserveTombstone = op.arg(1) & 2;
    co.doNotRemoveOldFile = op.arg(1) & 4;
    Status s;
    int64_t lv = 1 + std::max<int64_t>(0, op.arg(0)) % 4;
    if (op.name == "cl0") {
        int64_t h = op.arg(0);
        s = db->compactL0(co, (uint32_t)(h % (c("l0parts") + 1)));
        if (s.ok()) n_l0c++;
    } else if (op.name == "clv") {
        s = db->compactLevel(co, lv);
        if (s.ok()) n_interlevel++;
    } else if (op.name == "cin") {
        s = db->compactInplace(co, lv);
        if (s.ok()) n_inpl++;
    } else if (op.name == "split") {
        s = db->splitLevel(co, lv);
        if (s.ok()) n_split++;
    } else if (op.name == "merge") {
        s = db->mergeLevel(co, lv);
        if (s.ok()) n_merge++;
    }
    if (s.ok()) n_maint_ok++;
    int v = (int)s;
    ctx.count(strf("%s:%d", op.name.c_str(), v).c_str());
    if (!s.ok() && v != Status::TABLE_NOT_FOUND && v != Status::INVALID_PARAMETERS && v != Status::INVALID_LEVEL && v != Status::INVALID_MODE &&
        v != Status::OPERATION_IN_PROGRESS && v != Status::TABLES_ARE_DISABLED && v != Status::COMPACTION_CANCELLED &&
        v != Status::COMPACTION_IS_NOT_ALLOWED)
        ctx.fail("maintenance-status", "%s returned %d", op.name.c_str(), v);
}

// ------------------------------------------------------------ reads
static std::string vstr(const Ver& v) {
    return strf("seq %lu %s val[%zu]=%s meta[%zu]", (unsigned long)v.seq, v.del ? "DEL" : "INS", v.val.size(), hex(v.val, 12).c_str(), v.meta.size());
}
static Ver fromRec(const Record& r) {
    Ver v;
    v.seq = r.seqNum;
    v.del = r.type == Record::DELETION;
    v.val = toS(r.kv.value);
    v.meta = toS(r.meta);
    return v;
}

void World::checkGet(DB* h, const State& s, const std::string& k, const char* where, int how) {
    n_reads++;
    auto it = s.find(k);
    bool live = it != s.end() && !it->second.del;
    if (how & 1) {
        SizedBuf v;
        Status r = h->get(SizedBuf(k), v);
        if (live) {
            if (!r.ok()) ctx.fail("get", "%s: get(%s) returned %d, expected %s", where, hex(k).c_str(), (int)r, vstr(it->second).c_str());
            if (toS(v) != it->second.val)
                ctx.fail("get", "%s: get(%s) returned %s (%zu bytes), expected %s", where, hex(k).c_str(), hex(toS(v), 12).c_str(), (size_t)v.size,
                         vstr(it->second).c_str());
        } else {
            if (r.ok()) ctx.fail("get", "%s: get(%s) returned a value %s, expected none (%s)", where, hex(k).c_str(), hex(toS(v), 12).c_str(),
                                 it == s.end() ? "never written" : vstr(it->second).c_str());
            if (r != Status::KEY_NOT_FOUND) ctx.fail("get", "%s: get(%s) of a missing key returned %d", where, hex(k).c_str(), (int)r);
        }
        v.free();
    }
    if (how & 2) {
        Record rec;
        Status r = h->getRecordByKey(SizedBuf(k), rec);
        if (live) {
            if (!r.ok()) ctx.fail("getrec", "%s: getRecordByKey(%s) returned %d, expected %s", where, hex(k).c_str(), (int)r, vstr(it->second).c_str());
            Ver g = fromRec(rec);
            if (!(g == it->second) || toS(rec.kv.key) != k)
                ctx.fail("getrec", "%s: getRecordByKey(%s) returned key %s %s, expected %s", where, hex(k).c_str(), hex(toS(rec.kv.key)).c_str(),
                         vstr(g).c_str(), vstr(it->second).c_str());
        } else if (r.ok())
            ctx.fail("getrec", "%s: getRecordByKey(%s) returned %s, expected none", where, hex(k).c_str(), vstr(fromRec(rec)).c_str());
        rec.free();
        Record mr;
        r = h->getRecordByKey(SizedBuf(k), mr, true);
        if (live) {
            if (!r.ok()) ctx.fail("getmeta", "%s: meta-only read of %s returned %d", where, hex(k).c_str(), (int)r);
            if (mr.seqNum != it->second.seq || mr.type != Record::INSERTION || toS(mr.meta) != it->second.meta || toS(mr.kv.key) != k)
                ctx.fail("getmeta", "%s: meta-only read of %s returned %s, expected %s", where, hex(k).c_str(), vstr(fromRec(mr)).c_str(),
                         vstr(it->second).c_str());
        } else if (r.ok()) {
            if (it == s.end() || mr.type != Record::DELETION || mr.seqNum != it->second.seq || toS(mr.meta) != it->second.meta)
                ctx.fail("getmeta", "%s: meta-only read of deleted %s returned %s, expected %s", where, hex(k).c_str(), vstr(fromRec(mr)).c_str(),
                         it == s.end() ? "none" : vstr(it->second).c_str());
        }
        mr.free();
    }
}

void World::checkScan(DB* h, const State& s, const char* where, bool fwd) {
    Iterator it;
    Status r = it.init(h);
    if (!r) ctx.fail("scan", "%s: iterator init returned %d", where, (int)r);
    std::vector<const std::pair<const std::string, Ver>*> exp;
    for (auto& e : s) if (!e.second.del) exp.push_back(&e);
    if (!fwd) {
        std::reverse(exp.begin(), exp.end());
        it.gotoEnd();
    }
    size_t i = 0;
    std::string prev;
    for (;; ++i) {
        Record rec;
        r = it.get(rec);
        if (i == 0 && !r.ok() && exp.empty()) { rec.free(); break; }
        if (!r.ok()) ctx.fail("scan", "%s: %s scan: get at position %zu of %zu returned %d", where, fwd ? "forward" : "backward", i, exp.size(), (int)r);
        std::string k = toS(rec.kv.key);
        Ver g = fromRec(rec);
        rec.free();
        if (i >= exp.size()) ctx.fail("scan", "%s: %s scan: extra record %s %s after %zu expected records", where, fwd ? "forward" : "backward", hex(k).c_str(), vstr(g).c_str(), exp.size());
        if (k != exp[i]->first || !(g == exp[i]->second))
            ctx.fail("scan", "%s: %s scan position %zu of %zu: got %s %s, expected %s %s", where, fwd ? "forward" : "backward", i, exp.size(),
                     hex(k).c_str(), vstr(g).c_str(), hex(exp[i]->first).c_str(), vstr(exp[i]->second).c_str());
        r = fwd ? it.next() : it.prev();
        if (!r.ok()) {
            if (i + 1 != exp.size())
                ctx.fail("scan", "%s: %s scan ended (%d) after %zu of %zu records; next expected %s", where, fwd ? "forward" : "backward", (int)r, i + 1,
                         exp.size(), hex(exp[i + 1]->first).c_str());
            break;
        }
    }
    it.close();
}

std::vector<std::pair<std::string, Ver>> World::dump(DB* h, const char* where) {
    std::vector<std::pair<std::string, Ver>> out;
    Iterator it;
    Status r = it.init(h);
    if (!r) ctx.fail("scan", "%s: iterator init returned %d", where, (int)r);
    do {
        Record rec;
        r = it.get(rec);
        if (!r.ok()) { rec.free(); break; }
        out.push_back({toS(rec.kv.key), fromRec(rec)});
        rec.free();
    } while (it.next().ok());
    it.close();
    return out;
}

void World::verify(DB* h, const State& s, const char* where, bool deep) {
    for (auto& k : universe) checkGet(h, s, k, where, deep ? 3 : 1);
    checkScan(h, s, where, true);
    if (deep) checkScan(h, s, where, false);
}
void World::verifyAll(const char* where) {
    verify(db, st, where);
    for (size_t i = 0; i < snaps.size(); ++i)
        if (snaps[i].h) verify(snaps[i].h, snaps[i].st, (std::string(where) + " snapshot " + std::to_string(i)).c_str());
}

void World::verifySeq(DB* h, uint64_t snapSeq, const State& s, const char* where) {
    // Oracle: strictly ascending; every record was written with exactly that
    // number; the newest version of every live key is there; every entry
    // still in the log section is there.
    std::map<uint64_t, const LogEnt*> bySeq;
    for (auto& e : log) if (e.seq <= snapSeq) bySeq[e.seq] = &e;
    Iterator it;
    Status r = it.initSN(h);
    if (!c("seqidx")) {
        if (r != Status::SEQINDEX_UNAVAILABLE) ctx.fail("seqscan", "%s: sequence iterator without index returned %d", where, (int)r);
        return;
    }
    if (!r.ok()) ctx.fail("seqscan", "%s: initSN returned %d", where, (int)r);
    std::set<uint64_t> seen;
    uint64_t prev = 0;
    bool first = true;
    do {
        Record rec;
        r = it.get(rec);
        if (!r.ok()) {
            rec.free();
            if (first) break;
            ctx.fail("seqscan", "%s: get in a sequence scan returned %d", where, (int)r);
        }
        first = false;
        uint64_t q = rec.seqNum;
        Ver g = fromRec(rec);
        std::string k = toS(rec.kv.key);
        rec.free();
        if (seen.size() && q <= prev) ctx.fail("seqscan", "%s: sequence scan not ascending: %lu after %lu", where, (unsigned long)q, (unsigned long)prev);
        prev = q;
        auto f = bySeq.find(q);
        if (f == bySeq.end()) ctx.fail("seqscan", "%s: sequence scan returned %lu (%s), which is not in the view", where, (unsigned long)q, hex(k).c_str());
        if (f->second->key != k || !(f->second->v == g))
            ctx.fail("seqscan", "%s: sequence %lu holds %s %s, written as %s %s", where, (unsigned long)q, hex(k).c_str(), vstr(g).c_str(),
                     hex(f->second->key).c_str(), vstr(f->second->v).c_str());
        seen.insert(q);
    } while (it.next().ok());
    it.close();
    for (auto& e : s)
        if (!e.second.del && !seen.count(e.second.seq))
            ctx.fail("seqscan", "%s: sequence scan lacks %lu, the current version of %s", where, (unsigned long)e.second.seq, hex(e.first).c_str());
    if (h == db)
        for (auto& e : bySeq)
            if (e.first > flushedSeq && !seen.count(e.first))
                ctx.fail("seqscan", "%s: sequence scan lacks unflushed entry %lu (flushed up to %lu)", where, (unsigned long)e.first, (unsigned long)flushedSeq);
}

void World::checkNearest(DB* h, const State& s, const std::string& k, int o, const char* where) {
    n_reads++;
    static const SearchOptions::Options opts[4] = {SearchOptions::GREATER_OR_EQUAL, SearchOptions::GREATER, SearchOptions::SMALLER_OR_EQUAL,
                                                   SearchOptions::SMALLER};
    SearchOptions so(opts[o & 3]);
    bool gt = so.isGreater(), eq = so.isExactMatchAllowed();
    int ck = cmpKind();
    // nearest live key
    const std::pair<const std::string, Ver>* live = nullptr;
    if (gt) {
        for (auto i = s.lower_bound(k); i != s.end(); ++i) {
            if (!eq && i->first == k) continue;
            if (!i->second.del) { live = &*i; break; }
        }
    } else {
        auto i = s.upper_bound(k);
        while (i != s.begin()) {
            --i;
            if (!eq && i->first == k) continue;
            if (!i->second.del) { live = &*i; break; }
        }
    }
    Record rec;
    Status r = h->getNearestRecordByKey(SizedBuf(k), rec, so);
    const char* on[4] = {">=", ">", "<=", "<"};
    std::string q = strf("%s: nearest(%s %s)", where, on[o & 3], hex(k).c_str());
    if (!r.ok()) {
        if (r != Status::KEY_NOT_FOUND) ctx.fail("nearest", "%s returned %d", q.c_str(), (int)r);
        if (live) ctx.fail("nearest", "%s found nothing, expected %s %s", q.c_str(), hex(live->first).c_str(), vstr(live->second).c_str());
        return;
    }
    std::string gk = toS(rec.kv.key);
    Ver g = fromRec(rec);
    rec.free();
    int cm = keyCompare(ck, gk, k);
    if ((gt && cm < 0) || (!gt && cm > 0) || (!eq && cm == 0))
        ctx.fail("nearest", "%s returned key %s on the wrong side", q.c_str(), hex(gk).c_str());
    auto f = s.find(gk);
    if (f == s.end()) ctx.fail("nearest", "%s returned key %s, which does not exist", q.c_str(), hex(gk).c_str());
    if (live) {
        int c2 = keyCompare(ck, gk, live->first);
        if ((gt && c2 > 0) || (!gt && c2 < 0))
            ctx.fail("nearest", "%s returned %s %s, but %s %s is nearer", q.c_str(), hex(gk).c_str(), vstr(g).c_str(), hex(live->first).c_str(),
                     vstr(live->second).c_str());
    }
    if (!(g == f->second))
        ctx.fail("nearest", "%s returned %s %s, current version is %s", q.c_str(), hex(gk).c_str(), vstr(g).c_str(), vstr(f->second).c_str());
}

void World::checkPrefix(DB* h, const State& s, const std::string& p, int64_t stopAfter, const char* where) {
    n_reads++;
    std::map<std::string, std::vector<Ver>> got;
    int64_t n = 0;
    Status r = h->getRecordsByPrefix(SizedBuf(p), [&](const jungle::SearchCbParams& x) {
        got[toS(x.rec.kv.key)].push_back(fromRec(x.rec));
        ++n;
        return stopAfter > 0 && n >= stopAfter ? jungle::SearchCbDecision::STOP : jungle::SearchCbDecision::NEXT;
    });
    std::string q = strf("%s: prefix(%s)", where, hex(p).c_str());
    std::map<std::string, Ver> exp;
    for (auto& e : s)
        if (!e.second.del && e.first.compare(0, p.size(), p) == 0) exp[e.first] = e.second;
    if (!r.ok() && r != Status::KEY_NOT_FOUND) ctx.fail("prefix", "%s returned %d", q.c_str(), (int)r);
    if (r == Status::KEY_NOT_FOUND && n) ctx.fail("prefix", "%s invoked the callback %ld times but returned KEY_NOT_FOUND", q.c_str(), (long)n);
    if (stopAfter > 0 && n > stopAfter) ctx.fail("prefix", "%s: %ld callbacks after STOP at %ld", q.c_str(), (long)n, (long)stopAfter);
    for (auto& g : got) {
        if (g.first.compare(0, p.size(), p) != 0) ctx.fail("prefix", "%s returned %s", q.c_str(), hex(g.first).c_str());
        auto f = s.find(g.first);
        if (f == s.end()) ctx.fail("prefix", "%s returned %s, which was never written in this view", q.c_str(), hex(g.first).c_str());
        // Older or equal versions may follow the newest one. Without range
        // partitioning, tables of the same hash are not ordered by age.
        size_t b = 0;
        for (size_t i = 1; i < g.second.size(); ++i)
            if (g.second[i].seq > g.second[b].seq) b = i;
        if (c("next")==0 && stopAfter > 0) continue;
        if (c("next")) b = 0;
        if (!(g.second[b] == f->second))
            ctx.fail("prefix-stale", "%s returned %s as %s first, current version %s", q.c_str(), hex(g.first).c_str(), vstr(g.second[b]).c_str(), vstr(f->second).c_str());
    }
    if (stopAfter <= 0)
        for (auto& e : exp)
            if (!got.count(e.first)) ctx.fail("prefix", "%s lacks %s %s", q.c_str(), hex(e.first).c_str(), vstr(e.second).c_str());
    if (stopAfter > 0 && (int64_t)exp.size() >= stopAfter && n < stopAfter) ctx.fail("prefix", "%s: only %ld callbacks, %zu records match", q.c_str(), (long)n, exp.size());
}

DB* World::view(int64_t v, const State*& s, uint64_t* seq) {
    if (v > 0 && !snaps.empty()) {
        size_t i = (v - 1) % (snaps.size() + 1);
        if (i < snaps.size() && snaps[i].h) {
            s = &snaps[i].st;
            if (seq) *seq = snaps[i].seq;
            return snaps[i].h;
        }
    }
    s = &st;
    if (seq) *seq = maxSeq;
    return db;
}

// ------------------------------------------------------------ open iterators
static const uint64_t NI = ~0ull;
void World::itOpen(const Op& op) {
    if (op.arg(3)) { itOpenSeq(op); return; }
    if (its.size() >= 4) { its[0].it->close(); its.erase(its.begin()); }
    const State* s;
    ItH h;
    h.h = view(op.arg(0), s);
    h.it.reset(new Iterator());
    bool hs = op.arg(1, -1) >= 0, he = op.arg(2, -1) >= 0;
    std::string sk = hs ? key(op.arg(1)) : "", ek = he ? key(op.arg(2)) : "";
    if (hs && he && keyCompare(cmpKind(), sk, ek) > 0) std::swap(sk, ek);
    Status r = h.it->init(h.h, hs ? SizedBuf(sk) : SizedBuf(), he ? SizedBuf(ek) : SizedBuf());
    if (!r.ok()) ctx.fail("iter-init", "iterator init returned %d", (int)r);
    for (auto& e : *s) {
        if (e.second.del) continue;
        if (hs && keyCompare(cmpKind(), e.first, sk) < 0) continue;
        if (he && keyCompare(cmpKind(), e.first, ek) > 0) continue;
        h.rows.push_back(e);
    }
    h.pos = h.rows.empty() ? -1 : 0;
    its.push_back(std::move(h));
    ctx.count("op:itopen");
    itCheck(its.back(), "after init");
}
std::vector<std::pair<std::string, Ver>> World::seqDump(DB* h, const char* where) {
    std::vector<std::pair<std::string, Ver>> o;
    Iterator it;
    Status r = it.initSN(h);
    if (!r.ok()) ctx.fail("seqscan", "%s: initSN returned %d", where, (int)r);
    do {
        Record rec;
        if (!it.get(rec).ok()) break;
        o.push_back({toS(rec.kv.key), fromRec(rec)});
        rec.free();
    } while (it.next().ok());
    it.close();
    return o;
}
// Stepwise sequence iterator. What a sequence scan of the same handle shows
// (verified by verifySeq) is the reference for ranges, seeks and directions.
void World::itOpenSeq(const Op& op) {
    if (!c("seqidx")) return;
    if (its.size() >= 4) { its[0].it->close(); its.erase(its.begin()); }
    const State* s;
    uint64_t snap = 0;
    ItH h;
    h.h = view(op.arg(0), s, &snap);
    verifySeq(h.h, snap, *s, "seqscan before a range");
    auto all = seqDump(h.h, "seqscan before a range");
    h.it.reset(new Iterator());
    h.bySeq = true;
    uint64_t lo = NI, hi = NI;
    if (op.arg(1, -1) >= 0) lo = 1 + op.arg(1) * (maxSeq + 3) / 100;
    if (op.arg(2, -1) >= 0) hi = 1 + op.arg(2) * (maxSeq + 3) / 100;
    if (lo != NI && hi != NI && lo > hi) std::swap(lo, hi);
    Status r = h.it->initSN(h.h, lo, hi);
    if (!r.ok()) ctx.fail("iter-init", "initSN(%ld, %ld) returned %d", (long)lo, (long)hi, (int)r);
    for (auto& e : all)
        if ((lo == NI || e.second.seq >= lo) && (hi == NI || e.second.seq <= hi)) h.rows.push_back(e);
    h.pos = h.rows.empty() ? -1 : 0;
    its.push_back(std::move(h));
    ctx.count("op:itopenseq");
    itCheck(its.back(), strf("after initSN(%ld, %ld)", (long)lo, (long)hi).c_str());
}
void World::chkSnap(const Op& op) {
    std::list<uint64_t> l;
    Status r = db->getCheckpoints(l);
    if (!r.ok()) ctx.fail("checkpoint", "getCheckpoints returned %d", (int)r);
    if ((int64_t)l.size() > c("maxchk")) ctx.fail("checkpoint", "%zu checkpoints listed, the limit is %ld", l.size(), (long)c("maxchk"));
    uint64_t prev = 0;
    for (uint64_t q : l) {
        if (!chks.count(q)) ctx.fail("checkpoint", "getCheckpoints lists %lu, which was never taken", (unsigned long)q);
        if (prev && q <= prev) ctx.fail("checkpoint", "getCheckpoints is not ascending");
        prev = q;
    }
    if (l.empty()) {
        ctx.count("chksnap:none");
        return;
    }
    auto i = l.begin();
    std::advance(i, std::max<int64_t>(0, op.arg(0)) % l.size());
    if (snaps.size() >= 6) { if (snaps[0].h) { closeIts(); DB::close(snaps[0].h); } snaps.erase(snaps.begin()); }
    Snap s;
    r = db->openSnapshot(&s.h, *i);
    if (!r.ok()) ctx.fail("checkpoint", "openSnapshot(%lu) of a listed checkpoint returned %d", (unsigned long)*i, (int)r);
    s.st = chks[*i];
    s.seq = *i;
    s.chk = true;
    snaps.push_back(s);
    ctx.count("op:chksnap");
    verify(s.h, snaps.back().st, "checkpoint snapshot");
}
void World::itCheck(ItH& h, const char* what) {
    Record rec;
    Status r = h.it->get(rec);
    if (h.rows.empty()) {
        if (r.ok()) ctx.fail("iter", "%s: iterator over an empty range returned %s", what, hex(toS(rec.kv.key)).c_str());
    } else if (h.pos >= 0) {
        auto& e = h.rows[h.pos];
        if (!r.ok()) ctx.fail("iter", "%s: get returned %d, expected %s (position %ld of %zu)", what, (int)r, hex(e.first).c_str(), (long)h.pos, h.rows.size());
        Ver g = fromRec(rec);
        if (toS(rec.kv.key) != e.first || !(g == e.second))
            ctx.fail("iter", "%s: got %s %s, expected %s %s (position %ld of %zu)", what, hex(toS(rec.kv.key)).c_str(), vstr(g).c_str(),
                     hex(e.first).c_str(), vstr(e.second).c_str(), (long)h.pos, h.rows.size());
    } else if (r.ok()) {
        // Position unspecified: at least the record must belong to the view and range.
        bool in = false;
        for (auto& e : h.rows) if (e.first == toS(rec.kv.key) && e.second == fromRec(rec)) in = true;
        if (!in) ctx.fail("iter", "%s: iterator returned %s %s, which is outside its view or range", what, hex(toS(rec.kv.key)).c_str(), vstr(fromRec(rec)).c_str());
    }
    rec.free();
}
void World::itStep(const Op& op) {
    if (its.empty()) return;
    ItH& h = its[std::max<int64_t>(0, op.arg(0)) % its.size()];
    int64_t n = (int64_t)h.rows.size();
    if (op.name == "itnext" || op.name == "itprev") {
        bool nx = op.name == "itnext";
        for (int64_t k = 0; k < std::max<int64_t>(1, op.arg(1, 1)); ++k) {
            if (h.pos < 0 && h.edge) {
                // One step back from beyond the end: the last record that was
                // returned, or the one before it (the end itself is a
                // position of its own only if there is something invisible).
                if ((h.edge > 0) == nx) {
                    Status r = nx ? h.it->next() : h.it->prev();
                    if (r.ok()) ctx.fail("iter", "%s beyond the end returned 0", op.name.c_str());
                    itCheck(h, op.name.c_str());
                    continue;
                }
                Status r = nx ? h.it->next() : h.it->prev();
                if (!r.ok()) {
                    if (n > 1) ctx.fail("iter", "%s back from beyond the end of %ld records returned %d", op.name.c_str(), (long)n, (int)r);
                    h.edge = 0;
                    return;
                }
                Record rec;
                r = h.it->get(rec);
                if (!r.ok()) ctx.fail("iter", "get after %s back from beyond the end returned %d", op.name.c_str(), (int)r);
                std::string k = toS(rec.kv.key);
                uint64_t q = rec.seqNum;
                rec.free();
                for (int64_t i = 0; i < std::min<int64_t>(2, n); ++i) {
                    int64_t p = nx ? i : n - 1 - i;
                    if (h.rows[p].first == k && h.rows[p].second.seq == q) h.pos = p;
                }
                if (h.pos < 0) ctx.fail("iter", "%s back from beyond the end gave %s seq %lu", op.name.c_str(), hex(k).c_str(), (unsigned long)q);
                h.edge = 0;
                itCheck(h, op.name.c_str());
                continue;
            }
            if (h.pos < 0) return;
            Status r = nx ? h.it->next() : h.it->prev();
            int64_t np = h.pos + (nx ? 1 : -1);
            bool can = np >= 0 && np < n;
            if (can != r.ok())
                ctx.fail("iter", "%s at position %ld of %zu (key %s) returned %d", op.name.c_str(), (long)h.pos, h.rows.size(), hex(h.rows[h.pos].first).c_str(), (int)r);
            h.pos = can ? np : -1;
            h.edge = can ? 0 : nx ? 1 : -1;
            itCheck(h, op.name.c_str());
        }
        return;
    }
    h.edge = 0;
    if (op.name == "itbegin") {
        h.it->gotoBegin();
        h.pos = n ? 0 : -1;
        itCheck(h, "after gotoBegin");
    } else if (op.name == "itend") {
        h.it->gotoEnd();
        h.pos = n ? n - 1 : -1;
        itCheck(h, "after gotoEnd");
    } else if (op.name == "itseek") {
        std::string k = key(op.arg(1));
        bool gt = op.arg(2) == 0;
        int64_t p = -1;
        if (h.bySeq) {
            uint64_t q = 1 + std::max<int64_t>(0, op.arg(1)) * (maxSeq + 3) / 100;
            if (gt) {
                for (int64_t i = 0; i < n; ++i) if (h.rows[i].second.seq >= q) { p = i; break; }
            } else {
                for (int64_t i = n - 1; i >= 0; --i) if (h.rows[i].second.seq <= q) { p = i; break; }
            }
            Status r = h.it->seekSN(q, gt ? Iterator::GREATER : Iterator::SMALLER);
            h.pos = p;
            if (p >= 0 && !r.ok()) ctx.fail("iter", "seekSN(%lu, %s) returned %d", (unsigned long)q, gt ? "GREATER" : "SMALLER", (int)r);
            itCheck(h, strf("after seekSN(%lu, %s)", (unsigned long)q, gt ? "GREATER" : "SMALLER").c_str());
            ctx.count(p >= 0 ? "seek:hit" : "seek:outside");
            return;
        }
        if (gt) {
            for (int64_t i = 0; i < n; ++i) if (keyCompare(cmpKind(), h.rows[i].first, k) >= 0) { p = i; break; }
        } else {
            for (int64_t i = n - 1; i >= 0; --i) if (keyCompare(cmpKind(), h.rows[i].first, k) <= 0) { p = i; break; }
        }
        Status r = h.it->seek(SizedBuf(k), gt ? Iterator::GREATER : Iterator::SMALLER);
        h.pos = p;
        if (p >= 0 && !r.ok()) ctx.fail("iter", "seek(%s, %s) returned %d", hex(k).c_str(), gt ? "GREATER" : "SMALLER", (int)r);
        itCheck(h, strf("after seek(%s, %s)", hex(k).c_str(), gt ? "GREATER" : "SMALLER").c_str());
        ctx.count(p >= 0 ? "seek:hit" : "seek:outside");
    }
}

// ------------------------------------------------------------ sampling
void World::sample(const Op& op) {
    const State* s;
    uint64_t vseq;
    DB* h = view(op.arg(0), s, &vseq);
    jungle::SamplingParams p;
    p.numSamples = std::max<int64_t>(0, op.arg(1));
    p.liveKeysOnly = op.arg(2);
    std::list<SizedBuf> out;
    Status r = h->getSampleKeys(p, out);
    std::vector<std::string> keys;
    for (auto& b : out) {
        keys.push_back(toS(b));
        b.free();
    }
    if (!p.numSamples) {
        if (r.getValue() != Status::INVALID_PARAMETERS || !keys.empty()) ctx.fail("sample", "sampling 0 keys returned %d and %zu keys", (int)r, keys.size());
        return;
    }
    if (!r.ok()) ctx.fail("sample", "sampling %zu keys returned %d", (size_t)p.numSamples, (int)r);
    if (keys.size() > p.numSamples) ctx.fail("sample", "asked for %zu keys, got %zu", (size_t)p.numSamples, keys.size());
    std::set<std::string> seen;
    for (auto& k : keys) {
        if (!seen.insert(k).second) ctx.fail("sample", "key %s was returned twice", hex(k).c_str());
        auto i = s->find(k);
        if (i == s->end()) ctx.fail("sample", "key %s was never written", hex(k).c_str());
        if (p.liveKeysOnly && i->second.del) ctx.fail("sample", "deleted key %s was returned as a live key", hex(k).c_str());
    }
    size_t live = 0;
    for (auto& e : *s) live += !e.second.del;
    if (!c("seqidx")) return;
    // the range of sequence numbers covers every write, so there is something to find
    if (live && !p.liveKeysOnly && keys.empty()) ctx.fail("sample", "no key out of %zu live ones", live);
    if (s->empty() && !keys.empty()) ctx.fail("sample", "keys of an empty database");
    if (c("unique") && h == db) {   // (a snapshot reports the live maximum)
        // every key was written once: exactly as many as asked for, spread over the history
        size_t want = std::min<size_t>(live, p.numSamples);
        if (keys.size() != want) ctx.fail("sample", "asked for %zu of %zu keys that were written once, got %zu", (size_t)p.numSamples, live, keys.size());
        uint64_t prev = 0, gap = 0, mx = 0;
        for (auto& k : keys) {
            uint64_t q = s->find(k)->second.seq;
            gap = std::max(gap, q > prev ? q - prev : 0);
            prev = q;
            mx = std::max(mx, q);
        }
        gap = std::max(gap, vseq > mx ? vseq - mx : 0);
        if (p.numSamples >= 2 && gap > 2 * (vseq / p.numSamples) + p.numSamples + 2)
            ctx.fail("sample", "%zu samples of %lu writes leave a gap of %lu", (size_t)p.numSamples, (unsigned long)vseq, (unsigned long)gap);
        ctx.count("sample:unique");
    }
    n_samples++;
    ctx.count("sample:keys", keys.size());
}

// ------------------------------------------------------------ dispatcher
void dumpTables(DB* db);
bool World::exec(const Op& op) {
    bool r = exec1(op);
    if (r && ctx.verbose && db && op.name.compare(0, 4, "cfg.") && getenv("VH_TABLES")) dumpTables(db);
    return r;
}
bool World::exec1(const Op& op) {
    const std::string& n = op.name;
    if (!n.compare(0, 4, "cfg.")) return true;
    if (ctx.verbose) {
        std::string t = op.name;
        for (auto v : op.a) t += " " + std::to_string(v);
        fprintf(stderr, "[%lu] %s\n", (unsigned long)maxSeq, t.c_str());
    }
    if (n == "put") put(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4));
    else if (n == "del") del(op.arg(0), op.arg(1), op.arg(2));
    else if (n == "fill") {   // fill first count seed len
        for (int64_t i = 0; i < op.arg(1); ++i) put((op.arg(0) + i) % std::max<int64_t>(1, c("nkeys")), op.arg(2) + i, op.arg(3), 0, 0);
    }
    else if (n == "uput") {   // uput seed len count: new keys
        for (int64_t i = 0; i < std::min<int64_t>(1000, op.arg(2)); ++i) put((int64_t)((log.size() * 7919) % 100003), op.arg(0) + 2 * i, op.arg(1), 0, 0);
    }
    else if (n == "batch") batch(op);
    else if (n == "sync") sync(op.arg(0));
    else if (n == "flush") flush(op.arg(0), op.arg(1), op.arg(2));
    else if (n == "cl0" || n == "clv" || n == "cin" || n == "split" || n == "merge") maint(op);
    else if (n == "cl0all") {
        for (int64_t i = 0; i < c("l0parts"); ++i) maint(Op{"cl0", {i, op.arg(0)}});
    }
    else if (n == "idxup") {
        CompactOptions co;
        Status s = db->compactIdxUpto(co, op.arg(0));
        ctx.count("op:idxup");
        if (!s) ctx.fail("maintenance-status", "compactIdxUpto returned %d", (int)s);
    }
    else if (n == "reopen") reopen(op.a);
    else if (n == "snap") {
        if (snaps.size() >= 6) { if (snaps[0].h) { closeIts(); DB::close(snaps[0].h); } snaps.erase(snaps.begin()); }
        Snap s;
        Status r = db->openSnapshot(&s.h);
        if (!r.ok()) ctx.fail("snapshot", "openSnapshot returned %d", (int)r);
        s.st = st;
        s.seq = maxSeq;
        snaps.push_back(s);
        ctx.count("op:snap");
    }
    else if (n == "snapclose") {
        if (!snaps.empty()) {
            size_t i = std::max<int64_t>(0, op.arg(0)) % snaps.size();
            closeIts();
            Status r = DB::close(snaps[i].h);
            if (!r.ok()) ctx.fail("snapshot", "closing a snapshot returned %d", (int)r);
            snaps.erase(snaps.begin() + i);
        }
    }
    else if (n == "chksnap") chkSnap(op);
    else if (n == "chk") {
        uint64_t q = 0;
        Status r = db->checkpoint(q, op.arg(0));
        ctx.count(strf("checkpoint:%d", (int)r).c_str());
        if (r.ok()) {
            if (q != maxSeq) ctx.fail("checkpoint", "checkpoint marker is %lu, the last write was %lu", (unsigned long)q, (unsigned long)maxSeq);
            chks[q] = st;
            syncedSeq = maxSeq;
        } else if (maxSeq) ctx.fail("checkpoint", "checkpoint returned %d", (int)r);
    }
    else if (n == "get") {
        const State* s;
        DB* h = view(op.arg(0), s);
        checkGet(h, *s, key(op.arg(1)), "get");
    }
    else if (n == "near") {
        const State* s;
        DB* h = view(op.arg(0), s);
        checkNearest(h, *s, key(op.arg(1)), (int)op.arg(2), "nearest");
    }
    else if (n == "prefix") {
        const State* s;
        DB* h = view(op.arg(0), s);
        std::string k = key(op.arg(1));
        size_t len = 1 + (size_t)std::max<int64_t>(0, op.arg(2)) % k.size();
        checkPrefix(h, *s, k.substr(0, len), op.arg(3), "prefix");
    }
    else if (n == "seqscan") {
        const State* s;
        uint64_t q;
        DB* h = view(op.arg(0), s, &q);
        verifySeq(h, q, *s, "seqscan");
    }
    else if (n == "verify") verifyAll("verify");
    else if (n == "sample") sample(op);
    else if (n == "itopen") itOpen(op);
    else if (n == "itclose") {
        if (!its.empty()) {
            size_t i = std::max<int64_t>(0, op.arg(0)) % its.size();
            its[i].it->close();
            its.erase(its.begin() + i);
        }
    }
    else if (n == "itnext" || n == "itprev" || n == "itseek" || n == "itbegin" || n == "itend") itStep(op);
    else return false;
    return true;
}

// ------------------------------------------------------------ generators
void genConfig(Rng& r, Case& c, const GenOpt& o, int tier) {
    auto set = [&](const char* n, int64_t v) { c.add(std::string("cfg.") + n, {v}); };
    (void)tier;
    set("nkeys", o.nkeys);
    set("keys", r.oneOf({0, 0, 1, 1, 2, 3, 4}));
    set("log_entries", r.oneOf({4, 8, 16, 32, 64, 1000}));
    if (r.chance(20)) set("log_size", r.oneOf({600, 2000, 8000}));
    if (o.tables) {
        set("l0parts", r.oneOf({1, 2, 3, 4, 4, 7}));
        set("l0size", r.oneOf({512, 2048, 8192, 1 << 20}));
        set("l1size", r.oneOf({512, 2048, 4096, 16384}));
        set("l1total", r.oneOf({1024, 8192, 65536, 1 << 22}));
        set("mintables", r.oneOf({0, 0, 1, 2, 8}));
        set("minfs", r.oneOf({1, 512, 4096}));
        set("cf", r.oneOf({101, 150, 300, 101}));
        set("bloomx10", r.oneOf({0, 0, 40, 100, 200}));
        if (r.chance(15)) set("usebloom", 0);
        set("boost", r.oneOf({0, 1, 1, 2}));
        if (r.chance(15)) set("next", 0);
        if (r.chance(15)) set("seqidx", 0);
        if (r.chance(30)) set("fastscan", 1);
        if (r.chance(25)) set("purgedel", 0);
        if (r.chance(10)) set("bulk", 1);
        if (r.chance(15)) set("preflush", r.oneOf({256, 2048}));
        if (r.chance(20)) set("hashlen", r.oneOf({1, 2, 4}));
        if (r.chance(30)) set("pw", r.oneOf({0, 1, 2, 4}));
        if (r.chance(20)) set("tw", r.oneOf({1, 4, 8}));
        if (r.chance(20)) set("reuse", r.oneOf({0, 2}));
        if (r.chance(20)) set("ratio", r.oneOf({10, 20, 40}));
        if (r.chance(10)) set("safe", 1);
        if (r.chance(20)) set("minwss", r.oneOf({0, 1024}));
    }
    if (o.customCmp && r.chance(20)) set("cmp", r.range(1, 3));
    if (o.compression && r.chance(25)) set("comp", r.range(1, 4));
    if (o.dio && r.chance(15)) set("dio", r.range(1, 3));
    if (r.chance(15)) set("skipmani", 1);
    if (r.chance(20)) set("fbuf", r.oneOf({64, 200, 1024}));
    if (r.chance(20)) set("serialize", 0);
    if (r.chance(20)) set("maxchk", r.oneOf({1, 2, 3}));
}

static int64_t genLen(Rng& r, bool big) {
    switch (r.below(big ? 8 : 6)) {
    case 0: return 0;
    case 1: return r.range(1, 8);
    case 2: case 3: return r.range(9, 60);
    case 4: case 5: return r.range(61, 400);
    case 6: return r.range(401, 4200);
    default: return r.range(4000, 20000);
    }
}
Op genWrite(Rng& r, int nkeys, bool big, int hot) {
    int64_t k = hot > 0 && r.chance(50) ? r.below(std::min(hot, nkeys)) : r.below(nkeys);
    int64_t vs = r.below(100000);
    size_t w = r.weighted({60, 25, 15});
    if (w == 0) return Op{"put", {k, vs, genLen(r, big), (int64_t)r.weighted({60, 15, 15, 10}), (int64_t)r.oneOf({0, 3, 17, 100})}};
    if (w == 1) return Op{"del", {k, (int64_t)r.weighted({70, 15, 15}), (int64_t)r.oneOf({0, 5, 30})}};
    Op b{"batch", {r.chance(30) ? 1 : 0}};
    int n = (int)r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        b.a.push_back(r.below(nkeys));
        b.a.push_back(r.below(100000));
        b.a.push_back(r.chance(25) ? -1 : genLen(r, false));
    }
    return b;
}

void genOps(Rng& r, Case& c, const GenOpt& o, int n) {
    int hot = r.chance(30) ? 4 : 0;
    // weights
    int wMaint = o.tables ? 22 : 0;
    std::vector<int> w = {
        40,                              // 0 single write
        6,                               // 1 burst
        6,                               // 2 sync
        o.tables ? 12 : 0,               // 3 flush
        wMaint,                          // 4 maintenance
        o.reopen ? 4 : 0,                // 5 reopen
        o.readPct,                       // 6 get
        2,                               // 7 verify
        o.snaps ? 8 : 0,                 // 8 snapshots / checkpoints
        o.iters ? 22 : 0,                // 9 iterators
        o.seqs ? 8 : 0,                  // 10 seq
        o.nearest ? 30 : 0,              // 11
        o.prefix ? 20 : 0,               // 12
        o.sample ? 20 : 0,               // 13
    };
    for (int i = 0; i < n; ++i) {
        switch (r.weighted(w)) {
        case 13: c.add("sample", {o.snaps ? (int64_t)r.below(4) : 0, r.chance(5) ? 0 : r.chance(50) ? r.range(1, 8) : r.range(1, o.nkeys * 2), r.chance(40)}); break;
        case 0:
            if (o.unique) { c.add("uput", {(int64_t)r.below(100000), genLen(r, o.bigValues), r.range(1, 12)}); break; }
            c.ops.push_back(genWrite(r, o.nkeys, o.bigValues, hot)); break;
        case 1:
            if (o.unique) { c.add("uput", {(int64_t)r.below(100000), 20, r.range(1, o.nkeys)}); break; }
            c.add("fill", {(int64_t)r.below(o.nkeys), r.range(2, o.nkeys), (int64_t)r.below(100000), r.oneOf({8, 30, 120})}); break;
        case 2: c.add("sync", {r.chance(50)}); break;
        case 3:
            if (r.chance(50)) c.add("sync", {r.chance(50)});
            c.add("flush", {r.chance(70), r.chance(35) ? r.range(1, 100) : 0, r.chance(10) ? r.range(1, 3) : 0});
            break;
        case 4: {
            static const char* nm[] = {"cl0", "clv", "cin", "split", "merge", "cl0all"};
            size_t k = r.weighted({30, 15, 15, 15, 10, 15});
            if (r.chance(40)) { c.add("sync", {0}); c.add("flush", {1, 0, 0}); }
            int64_t opt = (r.chance(70) ? 1 : 0) | (r.chance(15) ? 2 : 0);
            if (k == 5) c.add("cl0all", {opt});
            else c.add(nm[k], {k == 0 ? (int64_t)r.below(8) : (int64_t)r.weighted({60, 25, 10, 5}), opt});
            break;
        }
        case 5: {
            Op op{"reopen", {}};
            if (r.chance(50)) {
                int m = (int)r.range(1, 3);
                for (int j = 0; j < m; ++j) {
                    static const char* nm[] = {"log_entries", "l0parts", "bloomx10", "usebloom", "boost", "fastscan", "purgedel", "l1size", "l0size", "pw", "skipmani", "dio", "tw", "minfs", "bulk"};
                    static const int64_t vals[][3] = {{4, 16, 1000}, {1, 2, 5}, {0, 50, 150}, {0, 1, 1}, {0, 1, 2}, {0, 1, 1}, {0, 1, 1}, {512, 2048, 16384}, {512, 4096, 1 << 20}, {0, 1, 3}, {0, 1, 1}, {0, 1, 3}, {1, 2, 6}, {1, 1024, 8192}, {0, 1, 1}};
                    int k = (int)r.below(15);
                    op.a.push_back(cfgIdx(nm[k]));
                    op.a.push_back(vals[k][r.below(3)]);
                }
            }
            c.ops.push_back(op);
            break;
        }
        case 6: c.add("get", {o.snaps ? (int64_t)r.below(4) : 0, (int64_t)r.below(o.nkeys + 4)}); break;
        case 7: c.add("verify"); break;
        case 8: {
            size_t k = r.weighted({40, 20, 20, 20});
            if (k == 0) c.add("snap");
            else if (k == 1) c.add("snapclose", {(int64_t)r.below(6)});
            else if (k == 2) c.add("chk", {r.chance(50)});
            else c.add("chksnap", {(int64_t)r.below(12)});
            break;
        }
        case 9: {
            size_t k = r.weighted({25, 25, 20, 20, 4, 4, 2});
            int64_t id = r.below(4);
            if (k == 0 && o.seqs) c.add("itopen", {o.snaps ? (int64_t)r.below(4) : 0, r.chance(50) ? (int64_t)r.below(102) : -1, r.chance(50) ? (int64_t)r.below(102) : -1, 1});
            else if (k == 3 && o.seqs) c.add("itseek", {id, (int64_t)r.below(104), r.chance(50)});
            else if (k == 0) c.add("itopen", {o.snaps ? (int64_t)r.below(4) : 0, r.chance(50) ? (int64_t)r.below(o.nkeys + 2) : -1, r.chance(50) ? (int64_t)r.below(o.nkeys + 2) : -1});
            else if (k == 1) c.add("itnext", {id, r.range(1, 6)});
            else if (k == 2) c.add("itprev", {id, r.range(1, 6)});
            else if (k == 3) c.add("itseek", {id, (int64_t)r.below(o.nkeys + 2), r.chance(50)});
            else if (k == 4) c.add("itbegin", {id});
            else if (k == 5) c.add("itend", {id});
            else c.add("itclose", {id});
            break;
        }
        case 10: c.add("seqscan", {o.snaps ? (int64_t)r.below(4) : 0}); break;
        case 11: c.add("near", {o.snaps ? (int64_t)r.below(4) : 0, (int64_t)r.below(o.nkeys + 4), (int64_t)r.below(4)}); break;
        case 12: c.add("prefix", {o.snaps ? (int64_t)r.below(4) : 0, (int64_t)r.below(o.nkeys + 4), (int64_t)r.below(6), r.chance(25) ? r.range(1, 3) : 0}); break;
        }
    }
}

} // namespace vh
