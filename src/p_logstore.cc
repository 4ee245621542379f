// D14: log-section-only mode (a durable, sequence-numbered log): append,
// overwrite, purge, rollback, memtable reclaim, snapshots, iterators, re-opening
// and the end of the process at any point.
#include "db_internal.h"
#include "io.h"
#include "log_file.h"
#include "log_manifest.h"
#include "log_mgr.h"
#include "world.h"

using namespace jungle;
namespace vh {
static const uint64_t NI = (uint64_t)-1;

static Case genLs(Rng& r, int tier, uint64_t) {
    Case c;
    c.add("cfg.logonly", {1});
    c.add("cfg.trunc", {r.chance(85)});
    c.add("cfg.log_entries", {r.oneOf({2, 3, 5, 10, 30})});
    c.add("cfg.log_size", {r.oneOf({512, 2048, 1 << 20, 1 << 20})});
    // (a small limit of mem-tables only without the background thread that reclaims: it is "age" that does it here)
    int64_t ttl = r.oneOf({0, 1, 3600, 3600});
    c.add("cfg.ttl", {ttl});
    c.add("cfg.keepmem", {!ttl && r.chance(50) ? r.range(1, 4) : 100000});
    c.add("cfg.skipmani", {r.chance(25)});
    c.add("cfg.serialize", {r.chance(80)});
    c.add("cfg.fbuf", {r.oneOf({64, 300, 32768})});
    if (r.chance(20)) c.add("cfg.dio", {r.range(1, 3)});
    int crash = r.chance(45), over = !crash && r.chance(30), roll = r.chance(60);
    int power = crash && !roll && !over && r.chance(50);
    c.add("cfg.overwrite", {over});
    c.add("cfg.power", {power});
    if (r.chance(15)) c.add("cfg.comp", {r.range(1, 4)});
    if (r.chance(20)) c.add("first", {r.oneOf({2, 100, 1LL << 33})});
    int n = (int)r.range(8, tier ? 120 : 50);
    int step = (int)r.oneOf({2, 6, 20});
    for (int i = 0; i < n; ++i) {
        switch (r.weighted({34, 14, 8, roll ? 5 : 0, 6, 8, 12, 10, 4, 6, 3, 8, over ? 8 : 0, 3, 3, 2})) {
        case 0: c.add("app", {r.range(1, step), (int64_t)r.below(4), r.chance(20) ? r.range(50, 600) : r.range(0, 20), (int64_t)r.below(1000)}); break;
        case 1: c.add("sync", {(int64_t)r.below(2)}); break;
        case 2: c.add("purge", {r.chance(15) ? 100 : r.range(0, 100), r.range(-1, 1), (int64_t)r.below(2)}); break;
        case 3: c.add("roll", {r.chance(50) ? r.range(70, 100) : r.range(0, 100), r.range(-1, 1)}); break;
        case 4: c.add("reopen", {(int64_t)r.below(8)}); break;
        case 5: c.add("age", {(int64_t)r.below(256)}); break;
        case 6: c.add("get", {r.range(0, 104)}); break;
        case 7: c.add("itr", {r.chance(30) ? -1 : r.range(0, 103), r.chance(30) ? -1 : r.range(0, 103), (int64_t)r.below(4)}); break;
        case 8: c.add("snap", {(int64_t)r.below(2)}); break;
        case 9: c.add("snapitr", {(int64_t)r.below(2), r.chance(50) ? -1 : r.range(0, 103), r.chance(50) ? -1 : r.range(0, 103)}); break;
        case 10: c.add("snapclose", {(int64_t)r.below(2)}); break;
        case 11: c.add("kget", {(int64_t)r.below(12)}); break;
        case 12: c.add("over", {r.range(0, 100), r.range(0, 30), (int64_t)r.below(1000)}); break;
        case 13: c.add("keep", {(int64_t)r.below(2), r.chance(40) ? -1 : r.range(0, 103), r.chance(40) ? -1 : r.range(0, 103)}); break;
        case 14: c.add("keepstep", {(int64_t)r.below(2), r.range(1, 30)}); break;
        case 15: c.add("verify"); break;
        }
    }
    if (crash) for (int i = 0; i < (tier ? 12 : 6); ++i) c.add("crash", {(int64_t)r.below(1000001), power ? r.range(1, 3) : 0, (int64_t)r.below(1 << 20)});
    return c;
}

namespace {
struct R {
    std::string key, val, meta;
    bool del = false;
    bool operator==(const R& o) const { return key == o.key && val == o.val && meta == o.meta && del == o.del; }
};
struct Log {
    std::map<uint64_t, R> rec;
    uint64_t lo = 1, hi = 0;       // available: [lo, hi]
    uint64_t synced = 0, powerSynced = 0;
    uint64_t purgeMax = 0;         // the highest number ever asked to be purged
};
struct LSnap { DB* h = nullptr; std::map<uint64_t, R> rec; uint64_t lo = 0, hi = 0; };
struct LIt { std::unique_ptr<Iterator> it; std::map<uint64_t, R> rec; uint64_t lo = 0, hi = 0, cur = 0; bool end = false; };

struct Ls {
    World& w;
    Ctx& x;
    Log m;
    DB* db = nullptr;
    bool overwritten = false;
    std::string at = "";
    LSnap sn[2];
    LIt its[2];
    uint64_t nRoll = 0, nPurge = 0, nAge = 0, nReopen = 0, nRead = 0;

    Ls(World& w_, Ctx& x_) : w(w_), x(x_) {}
    std::string rs(uint64_t s, const R& r) { return strf("seq %lu key %s val[%zu] %s%s", (unsigned long)s, r.key.c_str(), r.val.size(), hex(r.val, 8).c_str(), r.del ? " deleted" : ""); }
    void same(uint64_t seq, const Record& g, const R& e, const char* what) {
        R got;
        got.key = toS(g.kv.key); got.val = toS(g.kv.value); got.meta = toS(g.meta);
        got.del = g.isDel();
        if (g.seqNum != seq) x.fail("log-seq", "%s%s: record with sequence number %lu instead of %lu", at.c_str(), what, (unsigned long)g.seqNum, (unsigned long)seq);
        if (!(got == e)) x.fail("log-data", "%s%s: read %s, written %s", at.c_str(), what, rs(seq, got).c_str(), rs(seq, e).c_str());
    }
    void get(uint64_t seq, const char* what = "getRecord") {
        nRead++;
        Record r;
        Record::Holder h(r);
        Status s = db->getRecord(seq, r);
        bool in = seq >= m.lo && seq <= m.hi && m.rec.count(seq);
        if (!s) {
            if (in) x.fail("log-lost", "%s%s of %lu returned %d, but [%lu, %lu] are there", at.c_str(), what, (unsigned long)seq, (int)s.getValue(), (unsigned long)m.lo, (unsigned long)m.hi);
            return;
        }
        if (seq > m.hi) x.fail("log-ghost", "%s%s of %lu found something although the last number is %lu", at.c_str(), what, (unsigned long)seq, (unsigned long)m.hi);
        if (m.rec.count(seq)) same(seq, r, m.rec[seq], what);
        else x.fail("log-ghost", "%s%s of %lu found something never written", at.c_str(), what, (unsigned long)seq);
        if (in) {
            KV kv;
            KV::Holder hk(kv);
            s = db->getSN(seq, kv);
            if (m.rec[seq].del ? s.ok() : (!s || toS(kv.key) != m.rec[seq].key || toS(kv.value) != m.rec[seq].val))
                x.fail("log-data", "%sgetSN of %lu returned %d %s", at.c_str(), (unsigned long)seq, (int)s.getValue(), s ? toS(kv.key).c_str() : "");
        }
    }
    uint64_t pct(int64_t p) {
        uint64_t base = m.lo > 2 ? m.lo - 2 : 0, top = m.hi + 2;
        if (p < 0) return NI;
        return base + (top - base) * (uint64_t)p / 103;
    }
    // the records an iterator over [a, b] shows
    void rows(Iterator& it, const std::map<uint64_t, R>& rec, uint64_t lo, uint64_t hi, uint64_t a, uint64_t b, int how, const char* what, bool snap) {
        uint64_t f = a == NI ? lo : std::max(a, lo), t = b == NI ? hi : std::min(b, hi);
        std::vector<uint64_t> got;
        auto one = [&]() -> bool {
            Record r;
            Record::Holder h(r);
            Status s = it.get(r);
            if (!s) return false;
            auto e = rec.find(r.seqNum);
            if (e == rec.end() || r.seqNum > hi || (a != NI && r.seqNum < a) || (b != NI && r.seqNum > b))
                x.fail("log-itr", "%s%s over [%ld, %ld] shows %lu, but has [%lu, %lu]", at.c_str(), what, (long)a, (long)b, (unsigned long)r.seqNum, (unsigned long)lo, (unsigned long)hi);
            if (r.seqNum < lo && !snap) x.fail("log-itr", "%s%s shows the purged %lu", at.c_str(), what, (unsigned long)r.seqNum);
            same(r.seqNum, r, e->second, what);
            got.push_back(r.seqNum);
            return true;
        };
        if (how == 0) {
            do { if (!one()) break; } while (it.next().ok());
        } else if (how == 1) {
            it.gotoEnd();
            do { if (!one()) break; } while (it.prev().ok());
            std::reverse(got.begin(), got.end());
        } else if (f <= t && rec.size()) {
            uint64_t mid = f + (t - f) / 2;
            Status s = it.seekSN(mid, how == 2 ? Iterator::GREATER : Iterator::SMALLER);
            if (!s) x.fail("log-itr", "%s%s: seekSN(%lu) returned %d within [%lu, %lu]", at.c_str(), what, (unsigned long)mid, (int)s.getValue(), (unsigned long)f, (unsigned long)t);
            do { if (!one()) break; } while (it.next().ok());
            // (the model has every number, so that both options land on mid)
            f = mid;
        }
        std::vector<uint64_t> want;
        for (auto i = rec.lower_bound(f); i != rec.end() && i->first <= t; ++i) want.push_back(i->first);
        if (f > t) want.clear();
        // a snapshot may also show purged records that are still around
        while (!got.empty() && (want.empty() || got[0] < want[0]) && snap && got[0] < lo) got.erase(got.begin());
        if (got != want) {
            size_t k = 0;
            while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
            x.fail("log-itr", "%s%s over [%ld, %ld] (available [%lu, %lu]) shows %zu records, expected %zu; at %zu: %ld instead of %ld", at.c_str(), what, (long)a, (long)b,
                   (unsigned long)lo, (unsigned long)hi, got.size(), want.size(), k, k < got.size() ? (long)got[k] : -1L, k < want.size() ? (long)want[k] : -1L);
        }
        nRead += got.size();
    }
    void scan(uint64_t a, uint64_t b, int how) {
        Iterator it;
        Status s = it.initSN(db, a, b);
        if (!s) {
            uint64_t f = a == NI ? m.lo : std::max(a, m.lo), t = b == NI ? m.hi : std::min(b, m.hi);
            if (f <= t && m.rec.size()) x.fail("log-itr", "%siterator over [%ld, %ld] could not be opened: %d (available [%lu, %lu])", at.c_str(), (long)a, (long)b, (int)s.getValue(), (unsigned long)m.lo, (unsigned long)m.hi);
            return;
        }
        rows(it, m.rec, m.lo, m.hi, a, b, how, "iterator", false);
        it.close();
    }
    void range() {
        uint64_t v = 0;
        Status s = db->getMaxSeqNum(v);
        uint64_t first = m.rec.empty() ? 0 : m.rec.begin()->first;
        if (m.hi >= m.lo && m.hi >= first && first) {
            if (!s || v != m.hi) x.fail("log-range", "%sgetMaxSeqNum: %d, %lu, expected %lu", at.c_str(), (int)s.getValue(), (unsigned long)v, (unsigned long)m.hi);
            s = db->getMinSeqNum(v);
            if (!s || v != m.lo) x.fail("log-range", "%sgetMinSeqNum: %d, %lu, expected %lu", at.c_str(), (int)s.getValue(), (unsigned long)v, (unsigned long)m.lo);
        }
        s = db->getLastSyncedSeqNum(v);
        if (m.synced >= m.lo && m.synced) {
            if (!overwritten && (!s || v != m.synced)) x.fail("log-range", "%sgetLastSyncedSeqNum: %d, %lu, expected %lu", at.c_str(), (int)s.getValue(), (unsigned long)v, (unsigned long)m.synced);
        }
        if (s && v > m.hi) x.fail("log-range", "%sgetLastSyncedSeqNum %lu beyond the last record %lu", at.c_str(), (unsigned long)v, (unsigned long)m.hi);
    }
    void keys() {
        if (overwritten) return;
        std::map<std::string, std::pair<uint64_t, const R*>> last;
        for (auto i = m.rec.lower_bound(m.lo); i != m.rec.end(); ++i) last[i->second.key] = {i->first, &i->second};
        for (int k = 0; k < 12; ++k) kget(strf("key%02d", k), last);
    }
    void kget(const std::string& k, std::map<std::string, std::pair<uint64_t, const R*>>& last) {
        Record r;
        Record::Holder h(r);
        Status s = db->getRecordByKey(SizedBuf(k), r);
        auto i = last.find(k);
        bool live = i != last.end() && !i->second.second->del;
        if (s.ok() != live) x.fail("log-key", "%sgetRecordByKey(%s) returned %d; its last record is %s", at.c_str(), k.c_str(), (int)s.getValue(), i == last.end() ? "none" : rs(i->second.first, *i->second.second).c_str());
        if (live) same(i->second.first, r, *i->second.second, "getRecordByKey");
    }
    void verify() {
        range();
        for (auto i = m.rec.lower_bound(m.lo); i != m.rec.end(); ++i) get(i->first, "verification");
        get(m.hi + 1);
        get(m.hi + 5);
        scan(NI, NI, 0);
        scan(NI, NI, 1);
        keys();
    }
    void closeIts() {
        for (auto& i : its) { if (i.it) i.it->close(); i = LIt(); }
    }
    void closeAll() {
        closeIts();
        for (auto& s : sn) { if (s.h) DB::close(s.h); s = LSnap(); }
    }
    void exec(const Op& o) {
        if (x.verbose) fprintf(stderr, "op %s %ld %ld %ld | [%lu, %lu] synced %lu\n", o.name.c_str(), (long)o.arg(0), (long)o.arg(1), (long)o.arg(2), (unsigned long)m.lo, (unsigned long)m.hi, (unsigned long)m.synced);
        if (o.name == "first") {
            if (m.hi) return;
            m.lo = std::max<int64_t>(1, o.arg(0)); m.hi = m.lo - 1;
        } else if (o.name == "app") {
            for (int64_t i = 0; i < std::min<int64_t>(o.arg(0), 100); ++i) {
                uint64_t seq = m.hi + 1;
                R r;
                int api = (int)((o.arg(1) + i) % 4);
                if (m.rec.empty() && seq != 1) api = 0;
                if (overwritten && api == 1) api = 0;       // (where automatic numbers go on after an overwrite is not specified)
                r.key = strf("key%02d", (int)((o.arg(3) + i * 7) % 12));
                r.val = makeVal(o.arg(3) + i, o.arg(2));
                SizedBuf k(r.key), v(r.val);
                Status s;
                if (api == 0) s = db->setSN(seq, KV(k, v));
                else if (api == 1) s = db->set(KV(k, v));
                else if (api == 2) {
                    r.meta = "m" + std::to_string(seq);
                    Record rec;
                    rec.kv.key = k; rec.kv.value = v; rec.meta = SizedBuf(r.meta); rec.seqNum = seq;
                    s = db->setRecord(rec);
                } else if ((o.arg(3) + i) % 5 == 0) {
                    r.del = true; r.val.clear();
                    s = db->delSN(seq, k);
                } else {
                    std::list<Record> b;
                    Record rec;
                    rec.kv.key = k; rec.kv.value = v; rec.seqNum = (o.arg(3) % 2 || overwritten) ? seq : NI;
                    b.push_back(rec);
                    s = db->setRecordBatch(b);
                }
                if (!s) x.fail("log-write", "appending %lu (way %d) returned %d", (unsigned long)seq, api, (int)s.getValue());
                m.rec[seq] = r;
                m.hi = seq;
            }
        } else if (o.name == "over") {
            if (!w.c("overwrite") || m.hi < m.lo) return;
            closeAll();
            uint64_t seq = m.lo + (m.hi - m.lo) * (uint64_t)o.arg(0) / 100;
            R r;
            r.key = strf("key%02d", (int)(o.arg(2) % 12));
            r.val = makeVal(o.arg(2), o.arg(1));
            Status s = db->setSN(seq, KV(SizedBuf(r.key), SizedBuf(r.val)));
            if (!s) x.fail("log-write", "overwriting %lu in [%lu, %lu] returned %d", (unsigned long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (int)s.getValue());
            m.rec[seq] = r;
            m.synced = std::min(m.synced, seq - 1);
            m.powerSynced = std::min(m.powerSynced, seq - 1);
            overwritten = true;
            get(seq, "after overwriting");
        } else if (o.name == "sync") {
            Status s = db->sync(o.arg(0) != 0);
            if (!s) x.fail("log-sync", "sync returned %d", (int)s.getValue());
            m.synced = m.hi;
            if (o.arg(0)) m.powerSynced = m.hi;
            range();
        } else if (o.name == "purge") {
            uint64_t seq;
            bool all = o.arg(0) == 100 && o.arg(1) == 0;
            if (all) seq = NI;
            else seq = std::max<int64_t>(0, (int64_t)(m.lo + (m.hi + 1 - m.lo) * (uint64_t)o.arg(0) / 100) + o.arg(1));
            FlushOptions fo;
            fo.purgeOnly = o.arg(2) != 0;
            uint64_t upto = all ? m.hi : seq;
            m.purgeMax = std::max(m.purgeMax, std::min(upto, m.hi));
            Status s = db->flushLogs(fo, seq);
            uint64_t v = 0;
            Status s2 = db->getMinSeqNum(v);
            if (s2) {
                if (m.rec.size() && v > std::max(m.lo, std::min(upto, m.hi) + 1))
                    x.fail("log-purge", "after purging up to %ld of [%lu, %lu], the minimum is %lu", (long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (unsigned long)v);
                if (m.rec.size() && v < m.lo) x.fail("log-purge", "after purging up to %ld, the minimum went back from %lu to %lu", (long)seq, (unsigned long)m.lo, (unsigned long)v);
                uint64_t eff = std::min(upto, m.hi);
                if (s && !all && seq && eff <= m.synced && m.rec.size() && !(overwritten && seq > m.hi) && v != std::max(m.lo, eff + 1))
                    x.fail("log-purge", "purging up to %ld of [%lu, %lu] (synced up to %lu) succeeded, but the minimum is %lu", (long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (unsigned long)m.synced, (unsigned long)v);
                if (m.rec.size()) m.lo = v;
            } else if (m.rec.size() && m.hi >= m.lo) {
                if (upto < m.hi) x.fail("log-purge", "purging up to %ld of [%lu, %lu] left no minimum: %d", (long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (int)s2.getValue());
                m.lo = m.hi + 1;
            }
            if (!s && !all && seq >= m.lo && seq <= m.synced)
                x.fail("log-purge", "purging up to %ld of [%lu, %lu] (synced up to %lu) returned %d", (long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (unsigned long)m.synced, (int)s.getValue());
            if (s) nPurge++;
            range();
        } else if (o.name == "roll") {
            if (m.hi < m.lo) return;
            // (known: a rollback does not remove records located before an overwriting record,
            // corpus/D14/overroll.case)
            if (overwritten && !w.c("overroll")) return;
            uint64_t seq = std::max<int64_t>(1, (int64_t)(m.lo + (m.hi - m.lo) * (uint64_t)o.arg(0) / 100) + o.arg(1));
            bool inside = seq >= m.lo && seq <= m.hi;
            if (!inside) return;
            closeAll();
            Status s = db->rollback(seq);
            if (!s) x.fail("log-roll", "rollback to %lu of [%lu, %lu] returned %d", (unsigned long)seq, (unsigned long)m.lo, (unsigned long)m.hi, (int)s.getValue());
            m.rec.erase(m.rec.upper_bound(seq), m.rec.end());
            m.hi = seq;
            m.synced = std::min(seq, m.hi);
            m.powerSynced = std::min(m.powerSynced, seq);
            nRoll++;
            range();
            get(seq + 1, "after rollback");
            get(seq, "after rollback");
        } else if (o.name == "reopen") {
            closeAll();
            Status s = DB::close(db);
            if (!s) x.fail("close", "closing returned %d", (int)s.getValue());
            if (o.arg(0) & 1) { w.cfg["log_entries"] = 2 + o.arg(0) * 3; }
            if (o.arg(0) == 6 && w.c("keepmem") > 100) { w.cfg["ttl"] = w.c("ttl") ? 0 : 1; }
            if (o.arg(0) == 4) { w.globalShutdown(); }
            s = w.open();
            db = w.db;
            w.db = nullptr;
            if (!s) x.fail("open", "re-opening returned %d", (int)s.getValue());
            m.synced = m.powerSynced = m.hi;
            nReopen++;
            if (m.rec.size()) range();
        } else if (o.name == "age") {
            // some log files have not been accessed for long
            LogMgr* lm = db->p->logMgr;
            uint64_t a = lm->getMinLogFileIndex(), b = lm->getMaxLogFileIndex();
            for (uint64_t i = a; i != NI && b != NI && i <= b; ++i) {
                LogFileInfo* li = nullptr;
                if (!lm->mani->getLogFileInfo(i, li, true)) continue;
                if ((o.arg(0) >> (i % 8)) & 1) {
                    std::lock_guard<std::mutex> l(li->file->lastAcc.lock);
                    li->file->lastAcc.tCreated -= std::chrono::seconds(1000000);
                }
                li->done();
            }
            lm->doLogReclaim();
            nAge++;
        } else if (o.name == "get") get(pct(std::max<int64_t>(0, o.arg(0))));
        else if (o.name == "itr") scan(pct(o.arg(0)), pct(o.arg(1)), (int)o.arg(2) % 4);
        else if (o.name == "snap") {
            LSnap& s = sn[o.arg(0) & 1];
            if (s.h || m.hi < m.lo || m.rec.empty()) return;
            Status st = db->openSnapshot(&s.h);
            if (!st) x.fail("log-snap", "openSnapshot returned %d", (int)st.getValue());
            s.rec = m.rec; s.lo = m.lo; s.hi = m.hi;
        } else if (o.name == "snapitr") {
            LSnap& s = sn[o.arg(0) & 1];
            if (!s.h) return;
            uint64_t base = s.lo > 2 ? s.lo - 2 : 0;
            auto pc = [&](int64_t p) { return p < 0 ? NI : base + (s.hi + 2 - base) * (uint64_t)p / 103; };
            uint64_t a = pc(o.arg(1)), b = pc(o.arg(2));
            Iterator it;
            Status st = it.initSN(s.h, a, b);
            uint64_t f = a == NI ? s.lo : std::max(a, s.lo), t = b == NI ? s.hi : std::min(b, s.hi);
            if (!st) {
                if (f <= t) x.fail("log-snap", "iterator over [%ld, %ld] on a snapshot of [%lu, %lu] could not be opened: %d", (long)a, (long)b, (unsigned long)s.lo, (unsigned long)s.hi, (int)st.getValue());
                return;
            }
            rows(it, s.rec, s.lo, s.hi, a, b, 0, "snapshot iterator", true);
            it.close();
        } else if (o.name == "snapclose") {
            LSnap& s = sn[o.arg(0) & 1];
            if (s.h) DB::close(s.h);
            s = LSnap();
        } else if (o.name == "kget") keys();
        else if (o.name == "keep") {
            // an iterator that stays open over later operations
            LIt& i = its[o.arg(0) & 1];
            if (i.it || m.hi < m.lo || m.rec.empty()) return;
            uint64_t a = pct(o.arg(1)), b = pct(o.arg(2));
            i.it.reset(new Iterator());
            Status s = i.it->initSN(db, a, b);
            i.lo = a == NI ? m.lo : std::max(a, m.lo);
            i.hi = b == NI ? m.hi : std::min(b, m.hi);
            if (!s) {
                if (i.lo <= i.hi) x.fail("log-itr", "iterator over [%ld, %ld] could not be opened: %d", (long)a, (long)b, (int)s.getValue());
                i = LIt();
                return;
            }
            i.rec = m.rec; i.cur = i.lo;
            if (i.lo > i.hi) { i.it->close(); i = LIt(); }
        } else if (o.name == "keepstep") {
            LIt& i = its[o.arg(0) & 1];
            if (!i.it) return;
            for (int64_t k = 0; k < o.arg(1); ++k) {
                Record r;
                Record::Holder h(r);
                Status s = i.it->get(r);
                if (!s) x.fail("log-itr", "an iterator kept open over later operations: get at %lu of [%lu, %lu] returned %d", (unsigned long)i.cur, (unsigned long)i.lo, (unsigned long)i.hi, (int)s.getValue());
                same(i.cur, r, i.rec[i.cur], "kept iterator");
                if (i.cur == i.hi) { i.it->close(); i = LIt(); return; }
                s = i.it->next();
                if (!s) x.fail("log-itr", "an iterator kept open over later operations: next after %lu of [%lu, %lu] returned %d", (unsigned long)i.cur, (unsigned long)i.lo, (unsigned long)i.hi, (int)s.getValue());
                i.cur++;
            }
        } else if (o.name == "verify") verify();
    }
};
} // namespace

static void runLs(const Case& c, Ctx& x) {
    World w(x, c);
    w.cfg["logonly"] = 1;
    bool crash = false, power = c.cfg("power") != 0;
    for (auto& o : c.ops) crash |= o.name == "crash";
    if (crash) g_io.start(w.path);

    struct B { size_t ev; Log m; std::map<std::string, int64_t> cfg; bool over; bool roll; };
    std::vector<B> bs;
    w.openOrFail();
    Ls l(w, x);
    l.db = w.db;
    w.db = nullptr;
    bs.push_back({g_io.events(), l.m, w.cfg, false, false});
    for (auto& o : c.ops) {
        if (o.name == "crash") continue;
        l.exec(o);
        if (crash) bs.push_back({g_io.events(), l.m, w.cfg, l.overwritten, o.name == "roll"});
    }
    l.verify();
    l.closeAll();
    DB::close(l.db);
    l.db = nullptr;
    l.m.synced = l.m.powerSynced = l.m.hi;
    bs.push_back({g_io.events(), l.m, w.cfg, l.overwritten, false});
    // what was closed is there again
    {
        Status s = w.open();
        if (!s) x.fail("open", "opening at the end returned %d", (int)s.getValue());
        l.db = w.db; w.db = nullptr;
        l.at = "after the last re-opening: ";
        l.verify();
        DB::close(l.db);
    }
    size_t total = bs.back().ev;
    uint64_t deep = 0;
    int k = 0;
    for (auto& o : c.ops) {
        if (o.name != "crash") continue;
        size_t n = bs[0].ev + (total - bs[0].ev) * (uint64_t)std::max<int64_t>(0, std::min<int64_t>(1000000, o.arg(0))) / 1000000;
        int how = power ? 1 + (int)std::max<int64_t>(0, o.arg(1)) % 3 : 0;
        size_t b = 0;
        while (b + 1 < bs.size() && bs[b + 1].ev <= n) ++b;
        const Log &A = bs[b].m, &Z = bs[std::min(b + 1, bs.size() - 1)].m;
        // (known: log files that are read on first use only may hide that a rollback
        // was cut short, corpus/D14/lazyroll.case)
        if (bs[b].cfg["ttl"] && bs[std::min(b + 1, bs.size() - 1)].roll && !c.cfg("lazyroll")) continue;
        std::string sub = "img" + std::to_string(k++);
        g_io.journal = false;
        g_io.image(x.dir + "/" + sub, n, how, o.arg(2));
        World v(x, c, sub);
        v.cfg = bs[b].cfg;
        v.cfg["keepmem"] = 100000;
        v.global_up = true;
        uint64_t ack = std::min(how ? A.powerSynced : A.synced, how ? Z.powerSynced : Z.synced), hi = std::max(A.hi, Z.hi);
        bool over = bs[std::min(b + 1, bs.size() - 1)].over;
        std::string where = strf("after %s at event %zu of %zu (up to %lu acknowledged, %lu written, %lu purged)", how ? "power loss" : "a process kill", n, total,
                                 (unsigned long)ack, (unsigned long)hi, (unsigned long)Z.purgeMax);
        if (x.verbose) fprintf(stderr, "--- %s, op %zu how %d\n", where.c_str(), b, how);
        Status s = v.open();
        if (!s) x.fail("recovery", "%s: opening returned %d", where.c_str(), (int)s.getValue());
        DB* d = v.db;
        v.db = nullptr;
        uint64_t mx = NI, mn = NI;
        Status s1 = d->getMaxSeqNum(mx), s2 = d->getMinSeqNum(mn);
        uint64_t need = std::max(A.purgeMax, Z.purgeMax) + 1;       // the first number that must not be missing
        if (!s1) mx = 0;
        if (!over && ack >= need && ack >= A.lo && (!s1 || mx < ack)) x.fail("log-crash", "%s: the last number is %lu", where.c_str(), (unsigned long)mx);
        if (s1 && mx > hi && mx != NI) x.fail("log-crash", "%s: the last number is %lu", where.c_str(), (unsigned long)mx);
        if (s1 && s2 && c.cfg("trunc")) {
            if (mn > need && mn > Z.lo && mn > A.lo && (!how || ack >= std::max(need, std::min(A.lo, Z.lo)))) x.fail("log-crash", "%s: the first number is %lu", where.c_str(), (unsigned long)mn);
            bool holes = false;
            for (uint64_t q = mn; q <= mx && !over; ++q) {
                Record r;
                Record::Holder h(r);
                Status st = d->getRecord(q, r);
                if (!st) {
                    holes = true;
                    // (after power loss, what was not made durable may be missing within the range)
                    if ((q >= need && !how) || q < ack) x.fail("log-crash", "%s: reported [%lu, %lu], but %lu is not found (%d)", where.c_str(), (unsigned long)mn, (unsigned long)mx, (unsigned long)q, (int)st.getValue());
                    continue;
                }
                R got;
                got.key = toS(r.kv.key); got.val = toS(r.kv.value); got.meta = toS(r.meta);
                got.del = r.isDel();
                auto i = A.rec.find(q), j = Z.rec.find(q);
                if (!((i != A.rec.end() && i->second == got) || (j != Z.rec.end() && j->second == got)))
                    x.fail("log-crash", "%s: %lu has data that was not written to it last", where.c_str(), (unsigned long)q);
            }
            if (mx >= mn && n < total) deep++;
            // life goes on
            // (known: a log file that is read on first use only and turns out to be damaged cuts
            // off what is written later, corpus/D14/lazypower.case)
            bool lazy = how && c.cfg("ttl") && !c.cfg("lazypower");
            if (!over && !lazy && !(how && holes && !c.cfg("lazypower")) && mx && mx != NI && o.arg(2) % 2 && mx >= mn) {
                Ls g(v, x);
                g.db = d;
                g.at = where + ", then written to: ";
                for (uint64_t q = mn; q <= mx; ++q) {
                    auto i = A.rec.find(q);
                    Record r;
                    Record::Holder h(r);
                    if (d->getRecord(q, r)) { R e; e.key = toS(r.kv.key); e.val = toS(r.kv.value); e.meta = toS(r.meta); e.del = r.isDel(); g.m.rec[q] = e; }
                }
                g.m.lo = mn; g.m.hi = mx;
                g.m.synced = 0;
                g.overwritten = true;       // (no key reads)
                g.exec(Op{"app", {7, 0, 10, 3}});
                g.exec(Op{"sync", {1}});
                g.verify();
                g.exec(Op{"reopen", {0}});
                g.verify();
                d = g.db;
            }
        }
        DB::close(d);
        v.global_up = false;
        rm_rf(x.dir + "/" + sub);
    }
    w.globalShutdown();
    g_io.reset();
    x.count("n:purges", l.nPurge); x.count("n:rollbacks", l.nRoll); x.count("n:reclaims", l.nAge); x.count("n:reopens", l.nReopen); x.count("n:images", k);
    if (l.m.rec.size() > (size_t)c.cfg("log_entries", 2) && (l.nPurge || l.nRoll || l.nAge || deep) && l.nRead > 5) x.nontrivial();
}

void addLogStoreChecks(std::vector<Check>& v) {
    Check k;
    k.id = "D14";
    k.rule = "programs of appends, syncs, purges, rollbacks, overwrites, memory reclaims, snapshots, iterators, re-openings and crashes on a log-section-only database, compared with a numbered list; non-trivial = more records than fit one log file, a purge, rollback, reclaim or crash image, and reads";
    k.quick_cases = 12000; k.thorough_cases = 400000;
    k.hang_s = 60; k.schedule = true;
    k.gen = genLs;
    k.run = runLs;
    v.push_back(k);
}
} // namespace vh
