// C14: iterators over the in-memory index of one log file.
#include "db_internal.h"
#include "log_file.h"
#include "log_manifest.h"
#include "log_mgr.h"
#include "memtable.h"
#include "world.h"

#include <atomic>
#include <thread>

using namespace jungle;
namespace vh {

static const uint64_t NI = (uint64_t)-1;

static Case genMt(Rng& r, int tier, uint64_t) {
    Case c;
    int nk = (int)r.oneOf({3, 8, 20, 60});
    c.add("cfg.nkeys", {nk});
    c.add("cfg.keys", {r.oneOf({0, 1, 1, 2, 3, 4})});
    c.add("cfg.log_entries", {100000});
    c.add("cfg.log_size", {1 << 26});
    if (r.chance(25)) c.add("cfg.cmp", {r.range(1, 3)});
    int n = (int)r.range(10, tier ? 300 : 110);
    for (int i = 0; i < n; ++i) {
        int64_t id = r.below(3);
        switch (r.weighted({30, 3, 4, 12, 8, 14, 14, 14, 4, 4, 2, 2})) {
        case 0: c.ops.push_back(genWrite(r, nk, false, r.chance(30) ? 3 : 0)); break;
        case 1: c.add("fill", {(int64_t)r.below(nk), r.range(1, nk), (int64_t)r.below(1000), 10}); break;
        case 2:
            if (r.chance(30)) c.add("flush", {0, r.range(1, 80), 0});
            else c.add("sync", {0});
            break;
        case 3: c.add("ok", {id, r.chance(50) ? (int64_t)r.below(nk + 2) : -1, r.chance(50) ? (int64_t)r.below(nk + 2) : -1, r.chance(25) ? r.range(0, 100) : -1, r.chance(60) ? r.range(0, 100) : -1}); break;
        case 4: c.add("os", {id, r.range(0, 104), r.range(0, 104), (int64_t)r.below(2)}); break;
        case 5: c.add("n", {id, r.range(1, 6), (int64_t)r.below(2)}); break;
        case 6: c.add("p", {id, r.range(1, 6), (int64_t)r.below(2)}); break;
        case 7: c.add("s", {id, (int64_t)r.below(nk + 3), (int64_t)r.below(2)}); break;
        case 8: c.add("b", {id}); break;
        case 9: c.add("e", {id}); break;
        case 10: c.add("c", {id}); break;
        case 11: c.add("race", {id, r.range(5, 60), (int64_t)r.below(1000)}); break;
        }
    }
    return c;
}
namespace {
struct Mi {
    std::unique_ptr<LogFile::Iterator> it;
    bool bySeq = false, ok = false;
    std::vector<LogEnt> rows;
    int64_t pos = 0;
    uint64_t from = NI, upto = NI;
};
} // namespace

static void runMt(const Case& c, Ctx& x) {
    World w(x, c);
    w.openOrFail();
    Mi its[3];
    uint64_t steps = 0, opened = 0;
    auto file = [&]() -> LogFile* {
        LogMgr* lm = w.db->p->logMgr;
        uint64_t num = 0;
        if (!lm->mani->getMaxLogFileNum(num).ok()) return nullptr;
        LogFileInfo* li = lm->mani->getLogFileInfoP(num);
        if (!li) return nullptr;
        LogFile* f = li->file;
        li->done();
        return f;
    };
    auto same = [&](const Record& r, const LogEnt& e) {
        return r.seqNum == e.seq && toS(r.kv.key) == e.key && r.isDel() == e.v.del && toS(r.kv.value) == e.v.val && toS(r.meta) == e.v.meta;
    };
    auto check = [&](Mi& m, const char* what) {
        Record r;
        Status s = m.it->get(r);        // (borrowed: nothing to free)
        if (!m.ok) {
            if (s.ok()) x.fail("memtable", "%s: an iterator without records returned key %s", what, hex(toS(r.kv.key)).c_str());
            return;
        }
        if (!s.ok()) x.fail("memtable", "%s: get returned %d, expected key %s seq %lu", what, (int)s.getValue(), hex(m.rows[m.pos].key).c_str(), (unsigned long)m.rows[m.pos].seq);
        if (!same(r, m.rows[m.pos])) x.fail("memtable", "%s: got key %s seq %lu, expected key %s seq %lu (row %ld of %zu)", what, hex(toS(r.kv.key)).c_str(), (unsigned long)r.seqNum,
                                          hex(m.rows[m.pos].key).c_str(), (unsigned long)m.rows[m.pos].seq, (long)m.pos, m.rows.size());
        steps++;
    };
    auto closeIt = [&](Mi& m) {
        if (m.it) m.it->close();
        m.it.reset();
    };
    auto pctSeq = [&](int64_t p) -> uint64_t { return p < 0 ? NI : (uint64_t)p * (w.maxSeq + 2) / 100; };
    for (auto& o : c.ops) {
        Mi& m = its[std::max<int64_t>(0, o.arg(0)) % 3];
        if (o.name == "ok") {
            closeIt(m);
            LogFile* f = file();
            if (!f) continue;
            std::string a = o.arg(1) < 0 ? "" : w.key(o.arg(1)), b = o.arg(2) < 0 ? "" : w.key(o.arg(2));
            if (!a.empty() && !b.empty() && keyCompare(w.cmpKind(), a, b) > 0) std::swap(a, b);
            m = Mi();
            m.from = pctSeq(o.arg(3));
            m.upto = o.arg(4) < 0 ? w.maxSeq : pctSeq(o.arg(4));
            if (m.upto == NI || m.upto > w.maxSeq) m.upto = w.maxSeq;
            if (m.from != NI && m.from > m.upto) std::swap(m.from, m.upto);
            m.upto = std::min(m.upto, w.maxSeq);
            if (m.from != NI) m.from = std::min(m.from, m.upto);
            std::map<std::string, LogEnt, KeyCmp> st(KeyCmp{w.cmpKind()});
            for (auto& e : w.log) if (e.seq <= m.upto) st[e.key] = e;
            for (auto& e : st) {
                if (m.from != NI && e.second.seq < m.from) continue;
                if (!a.empty() && keyCompare(w.cmpKind(), e.first, a) < 0) continue;
                if (!b.empty() && keyCompare(w.cmpKind(), e.first, b) > 0) continue;
                m.rows.push_back(e.second);
            }
            m.it.reset(new LogFile::Iterator());
            Status s = m.it->init(f, a.empty() ? SizedBuf() : SizedBuf(a), b.empty() ? SizedBuf() : SizedBuf(b), m.from, m.upto);
            m.ok = !m.rows.empty();
            if (m.ok && !s.ok()) x.fail("memtable", "init(%s, %s) returned %d although %zu keys are in the range", hex(a).c_str(), hex(b).c_str(), (int)s.getValue(), m.rows.size());
            check(m, "init");
            opened++;
            if (!m.ok) closeIt(m);
        } else if (o.name == "os") {
            closeIt(m);
            LogFile* f = file();
            if (!f || w.log.empty()) continue;
            m = Mi();
            m.bySeq = true;
            uint64_t lo = pctSeq(std::max<int64_t>(0, o.arg(1))), hi = pctSeq(std::max<int64_t>(0, o.arg(2)));
            if (lo > hi) std::swap(lo, hi);
            bool snap = o.arg(3);
            uint64_t fl = f->getFlushedSeqNum(), mn = lo;
            if (!snap && fl != NI) mn = std::max(mn, fl);
            for (auto& e : w.log) if (e.seq >= mn && e.seq <= hi) m.rows.push_back(e);
            m.it.reset(new LogFile::Iterator());
            Status s = m.it->initSN(f, lo, hi, snap);
            m.ok = !m.rows.empty();
            if (m.ok && !s.ok()) x.fail("memtable", "initSN(%lu, %lu) returned %d although %zu records are in the range", (unsigned long)lo, (unsigned long)hi, (int)s.getValue(), m.rows.size());
            check(m, "initSN");
            opened++;
            if (!m.ok) closeIt(m);
        } else if (o.name == "n" || o.name == "p") {
            bool fwd = o.name == "n", tomb = o.arg(2) || m.bySeq;
            for (int64_t i = 0; m.it && i < std::min<int64_t>(100, o.arg(1)); ++i) {
                int64_t q = m.pos;
                do q += fwd ? 1 : -1;
                while (q >= 0 && q < (int64_t)m.rows.size() && !tomb && m.rows[q].v.del);
                Status s = fwd ? m.it->next(o.arg(2)) : m.it->prev(o.arg(2));
                bool in = q >= 0 && q < (int64_t)m.rows.size();
                if (s.ok() != in) x.fail("memtable", "%s from row %ld of %zu returned %d", fwd ? "next" : "prev", (long)m.pos, m.rows.size(), (int)s.getValue());
                if (in) m.pos = q;
                check(m, fwd ? "next" : "prev");
            }
        } else if (o.name == "s" && m.it) {
            bool gt = o.arg(2) == 0;
            auto opt = gt ? LogFile::Iterator::GREATER : LogFile::Iterator::SMALLER;
            int64_t p = -1, n = m.rows.size();
            Status s;
            if (m.bySeq) {
                uint64_t q = pctSeq(std::max<int64_t>(0, o.arg(1)) * 100 / (w.c("nkeys") + 2));
                if (gt) { for (int64_t i = 0; i < n && p < 0; ++i) if (m.rows[i].seq >= q) p = i; if (p < 0) p = n - 1; }
                else { for (int64_t i = n - 1; i >= 0 && p < 0; --i) if (m.rows[i].seq <= q) p = i; if (p < 0) p = 0; }
                s = m.it->seekSN(q, opt);
            } else {
                std::string k = w.key(o.arg(1));
                auto cmp = [&](int64_t i) { return keyCompare(w.cmpKind(), m.rows[i].key, k); };
                if (gt) { for (int64_t i = 0; i < n && p < 0; ++i) if (cmp(i) >= 0) p = i; if (p < 0) p = n - 1; }
                else { for (int64_t i = n - 1; i >= 0 && p < 0; --i) if (cmp(i) <= 0) p = i; if (p < 0) p = 0; }
                s = m.it->seek(SizedBuf(k), opt);
            }
            if (!s.ok()) x.fail("memtable", "seek returned %d in a range of %ld records", (int)s.getValue(), (long)n);
            m.pos = p;
            check(m, gt ? "seek greater" : "seek smaller");
        } else if ((o.name == "b" || o.name == "e") && m.it) {
            Status s = o.name == "b" ? m.it->gotoBegin() : m.it->gotoEnd();
            if (!s.ok()) x.fail("memtable", "going to the %s returned %d", o.name == "b" ? "begin" : "end", (int)s.getValue());
            m.pos = o.name == "b" ? 0 : m.rows.size() - 1;
            check(m, o.name == "b" ? "gotoBegin" : "gotoEnd");
        } else if (o.name == "c") closeIt(m);
        else if (o.name == "race" && m.it) {
            // the iterator walks to both ends while another thread writes
            std::atomic<bool> go{false};
            std::thread t([&] {
                while (!go) {}
                for (int64_t i = 0; i < std::min<int64_t>(500, o.arg(1)); ++i) w.put((o.arg(2) + i * 7) % (w.c("nkeys") + 5), o.arg(2) + i, 12, 0, 0);
            });
            go = true;
            for (int round = 0; round < 2; ++round) {
                while (m.pos + 1 < (int64_t)m.rows.size()) {
                    Status s = m.it->next(true);
                    if (!s.ok()) x.fail("memtable", "next returned %d at row %ld of %zu while writes go on", (int)s.getValue(), (long)m.pos, m.rows.size());
                    m.pos++;
                    check(m, "next during writes");
                }
                if (m.it->next(true).ok()) x.fail("memtable", "next moved beyond the last record while writes go on");
                while (m.pos > 0) {
                    Status s = m.it->prev(true);
                    if (!s.ok()) x.fail("memtable", "prev returned %d at row %ld of %zu while writes go on", (int)s.getValue(), (long)m.pos, m.rows.size());
                    m.pos--;
                    check(m, "prev during writes");
                }
                if (m.it->prev(true).ok()) x.fail("memtable", "prev moved beyond the first record while writes go on");
            }
            t.join();
            check(m, "after writes");
            x.count("op:race");
        } else if (o.name == "flush") {
            // leaves something in the log file: iterators stay valid
            w.exec(o);
        } else w.exec(o);
    }
    for (auto& m : its) closeIt(m);
    w.close();
    w.globalShutdown();
    if (steps > 5 && opened) x.nontrivial();
    x.count("n:iterators", opened);
    x.count("n:checks", steps);
}

void addMemtableCheck(std::vector<Check>& v) {
    Check k;
    k.id = "C14";
    k.rule = "programs of writes, deletes, batches, syncs and partial flushes on one log file, with key and sequence iterators over its in-memory index bounded by keys and sequence numbers, also stepped while another thread writes; every position is compared with the list of writes; non-trivial = more than 5 checked positions";
    k.quick_cases = 5000; k.thorough_cases = 300000;
    k.gen = genMt;
    k.run = runMt;
    v.push_back(k);
}
} // namespace vh
