// Concurrency: several writers with private keys, readers, snapshots,
// iterators and maintenance (called by hand and by the background workers).
//
// Every writer executes a fixed list of steps (one step = one call = one or
// several records that become visible together).  A read that covers some keys
// of writer w must be explained by one prefix of w's steps that contains every
// step that had returned before the read began, and none that had not started
// when the read ended; a thread never goes back to an earlier prefix.
#include "io.h"
#include "db_internal.h"
#include "table_mgr.h"
#include "world.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <thread>

extern "C" { extern volatile int vh_perturb; extern volatile uint64_t vh_perturb_seed; extern volatile int64_t vh_perturb_budget; }

namespace vh {
using jungle::CompactOptions;
using jungle::FlushOptions;
using jungle::GlobalConfig;
using jungle::SearchOptions;

namespace {
using Clock = std::chrono::steady_clock;
struct Mod { uint64_t step; bool del; std::string val; };
struct Writer {
    std::vector<Op> steps;
    std::vector<std::string> keys;                 // sorted
    std::map<std::string, std::vector<Mod>> mods;  // ascending step
    std::atomic<uint64_t> started{0}, done{0};
    std::vector<uint64_t> firstSeq;                // filled by readers only
    // version of key k after step s; null = none
    const Mod* at(const std::string& k, uint64_t s) const {
        auto i = mods.find(k);
        if (i == mods.end()) return nullptr;
        auto& v = i->second;
        size_t lo = 0, hi = v.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].step <= s) lo = m + 1; else hi = m; }
        return lo ? &v[lo - 1] : nullptr;
    }
};
thread_local Rng* t_rng = nullptr;
struct UseRng {
    Rng r;
    explicit UseRng(uint64_t s) : r(s) { t_rng = &r; }
    ~UseRng() { t_rng = nullptr; }
};
std::atomic<int> g_jit{0};
void jitter(int boost = 1) {
    int p = g_jit.load(std::memory_order_relaxed);
    if (!p || !t_rng) return;
    uint64_t r = t_rng->below(1000);
    if ((int)r < p * boost) std::this_thread::sleep_for(std::chrono::microseconds(t_rng->below(boost > 1 ? 3000 : 300)));
    else if ((int)r < p * boost * 2) std::this_thread::yield();
}
} // namespace

} // namespace vh

// jitter at every lock operation of the program under test
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    vh::jitter();
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    vh::jitter();
    return r;
}
}

namespace vh {
namespace {

struct Conc {
    const Case& c;
    Ctx& x;
    World w;
    std::vector<Writer> ws;
    std::map<std::string, int> owner;
    std::atomic<int> writersLeft{0};
    std::atomic<bool> stop{false};
    std::vector<std::vector<Op>> rd, mt;
    std::mutex failM;
    std::atomic<uint64_t> nScan{0}, nGet{0}, nMaint{0}, nSnap{0}, nOverlap{0};
    std::map<std::pair<int, uint64_t>, uint64_t> seqOf;   // (writer, step) -> seq of its last record
    uint64_t total = 0;

    Conc(const Case& cs, Ctx& ctx) : c(cs), x(ctx), w(ctx, cs), ws(std::max<int64_t>(1, std::min<int64_t>(6, cs.cfg("writers", 2)))) {}

    static std::string keyName(int wi, int64_t k) {
        char b[32];
        // keys of different writers are interleaved in key order
        snprintf(b, sizeof(b), "k%03d.w%d", (int)k, wi);
        return b;
    }
    void plan() {
        int nr = (int)std::max<int64_t>(1, std::min<int64_t>(6, c.cfg("readers", 2)));
        int nm = (int)std::max<int64_t>(0, std::min<int64_t>(3, c.cfg("maints", 1)));
        rd.resize(nr);
        mt.resize(std::max(1, nm));
        for (auto& o : c.ops) {
            if (o.name == "wput" || o.name == "wdel" || o.name == "wbatch") {
                Writer& wr = ws[(uint64_t)o.arg(0) % ws.size()];
                int wi = (int)((uint64_t)o.arg(0) % ws.size());
                wr.steps.push_back(o);
                uint64_t st = wr.steps.size();
                auto mod = [&](int64_t k, bool del, int64_t len) {
                    std::string kk = keyName(wi, k), v = strf("%d.%llu.%d.", wi, (unsigned long long)st, (int)k) + makeVal(st, len);
                    auto& m = wr.mods[kk];
                    owner[kk] = wi;
                    if (m.size() && m.back().step == st) m.back() = Mod{st, del, v};
                    else m.push_back({st, del, v});
                    total++;
                };
                if (o.name == "wput") mod(o.arg(1), false, o.arg(2));
                else if (o.name == "wdel") mod(o.arg(1), true, 0);
                else for (size_t i = 1; i + 1 < o.a.size(); i += 2) mod(o.a[i], o.a[i + 1] < 0, o.a[i + 1]);
            } else if (o.name == "get" || o.name == "getrec" || o.name == "near" || o.name == "prefix" || o.name == "scan" || o.name == "snap" ||
                       o.name == "seqscan" || o.name == "rsleep")
                rd[(uint64_t)o.arg(0) % rd.size()].push_back(o);
            else if (o.name.size() > 1 && o.name[0] == 'm' && o.name[1] == '.')
                mt[(uint64_t)o.arg(0) % mt.size()].push_back(o);
        }
        for (auto& wr : ws) for (auto& p : wr.mods) wr.keys.push_back(p.first);
    }

    // -------------------------------------------------------- writer
    void writer(int wi) {
        Writer& wr = ws[wi];
        UseRng ur(mix64(x.salt * 131 + wi + 1));
        for (uint64_t st = 1; st <= wr.steps.size(); ++st) {
            const Op& o = wr.steps[st - 1];
            wr.started.store(st);
            Status s;
            auto val = [&](int64_t k) { return wr.at(keyName(wi, k), st)->val; };
            if (o.name == "wput") {
                std::string k = keyName(wi, o.arg(1)), v = val(o.arg(1));
                if (o.arg(3) == 1) {
                    Record rec;
                    rec.kv = KV(k, v);
                    rec.meta = SizedBuf("meta");
                    s = w.db->setRecordByKey(rec);
                } else s = w.db->set(KV(k, v));
            } else if (o.name == "wdel") {
                std::string k = keyName(wi, o.arg(1));
                if (o.arg(2) == 1) {
                    Record rec;
                    rec.kv.key = SizedBuf(k);
                    s = w.db->delRecord(rec);
                } else s = w.db->del(SizedBuf(k));
            } else {
                std::list<Record> b;
                std::vector<std::string> hold;
                hold.reserve(o.a.size() * 2);
                for (size_t i = 1; i + 1 < o.a.size(); i += 2) {
                    Record rec;
                    hold.push_back(keyName(wi, o.a[i]));
                    rec.kv.key = SizedBuf(hold.back());
                    if (o.a[i + 1] < 0) rec.type = Record::DELETION;
                    else {
                        hold.push_back(strf("%d.%llu.%d.", wi, (unsigned long long)st, (int)o.a[i]) + makeVal(st, o.a[i + 1]));
                        rec.kv.value = SizedBuf(hold.back());
                    }
                    b.push_back(rec);
                }
                if (b.size()) s = w.db->setRecordBatch(b);
            }
            if (!s) x.fail("write-status", "writer %d step %llu (%s) returned %d", wi, (unsigned long long)st, o.name.c_str(), (int)s);
            wr.done.store(st);
            jitter();
        }
        writersLeft--;
    }

    // -------------------------------------------------------- reader
    struct Obs { bool found; std::string val; };
    using Floor = std::vector<uint64_t>;
    Floor doneNow() {
        Floor f(ws.size());
        for (size_t i = 0; i < ws.size(); ++i) f[i] = ws[i].done.load();
        return f;
    }
    Floor startedNow() {
        Floor f(ws.size());
        for (size_t i = 0; i < ws.size(); ++i) f[i] = ws[i].started.load();
        return f;
    }
    std::string describe(const std::string& v) {
        if (v.empty()) return "nothing";
        size_t p = v.find('.');
        size_t q = p == std::string::npos ? p : v.find('.', p + 1);
        return q == std::string::npos ? hex(v) : "the value of step " + v.substr(p + 1, q - p - 1);
    }
    // one key
    void checkKey(const std::string& k, const Obs& o, Floor& fl, const Floor& hi, const char* what) {
        auto ow = owner.find(k);
        if (ow == owner.end()) { if (o.found) x.fail("phantom", "%s: key %s was never written", what, hex(k).c_str()); return; }
        Writer& wr = ws[ow->second];
        uint64_t lo = fl[ow->second], h = hi[ow->second];
        for (uint64_t s = lo; s <= h; ++s) {
            const Mod* m = wr.at(k, s);
            bool f = m && !m->del;
            if (f == o.found && (!f || m->val == o.val)) { fl[ow->second] = s; if (h > lo) nOverlap++; return; }
        }
        const Mod* a = wr.at(k, lo);
        x.fail("stale-read", "%s of %s shows %s; %llu steps of its writer were visible before the call (%s then) and %llu had started when it ended", what,
               k.c_str(), o.found ? describe(o.val).c_str() : "nothing", (unsigned long long)lo, a && !a->del ? describe(a->val).c_str() : "nothing",
               (unsigned long long)h);
    }
    // Known finding: a view created while records newer than it are being
    // flushed may show those of the level-0 tables that are done already.
    // Strict views are created while no flush can write to tables; for others
    // every key is judged on its own.
    bool strict(const Op&) { return true; }
    std::unique_lock<std::mutex> hold(const Op& o) {
        if (strict(o) && !c.cfg("tornflush")) return std::unique_lock<std::mutex>(w.db->p->tableMgr->L0Lock);
        return std::unique_lock<std::mutex>();
    }
    void checkViewOf(const Op& o, const std::map<std::string, std::string>& rows, Floor& fl, const Floor& hi, const char* what) {
        if (strict(o)) { checkView(rows, fl, hi, what); return; }
        for (auto& p : rows) if (!owner.count(p.first)) x.fail("phantom", "%s: key %s was never written", what, hex(p.first).c_str());
        for (auto& p : owner) {
            auto i = rows.find(p.first);
            Floor f2 = fl;
            checkKey(p.first, Obs{i != rows.end(), i != rows.end() ? i->second : ""}, f2, hi, what);
        }
    }
    // all keys of all writers at one point in time
    void checkView(const std::map<std::string, std::string>& rows, Floor& fl, const Floor& hi, const char* what) {
        for (auto& p : rows) if (!owner.count(p.first)) x.fail("phantom", "%s: key %s was never written", what, hex(p.first).c_str());
        for (size_t i = 0; i < ws.size(); ++i) {
            Writer& wr = ws[i];
            uint64_t best = 0;
            std::string why;
            bool ok = false;
            size_t bestN = (size_t)-1;
            for (uint64_t s = fl[i]; s <= hi[i] && !ok; ++s) {
                size_t bad = 0;
                std::string firstBad;
                for (auto& k : wr.keys) {
                    const Mod* m = wr.at(k, s);
                    bool f = m && !m->del;
                    auto r = rows.find(k);
                    bool g = r != rows.end();
                    if (f != g || (f && m->val != r->second)) {
                        if (!bad++) firstBad = k + " shows " + (g ? describe(r->second) : "nothing") + " instead of " + (f ? describe(m->val) : "nothing");
                    }
                }
                if (!bad) { ok = true; fl[i] = s; if (hi[i] > fl[i]) nOverlap++; }
                else if (bad < bestN) { bestN = bad; best = s; why = firstBad; }
            }
            if (!ok) x.fail("torn-view", "%s: no prefix of writer %zu's steps between %llu and %llu explains the view; closest is step %llu with %zu differing keys, e.g. %s",
                            what, i, (unsigned long long)fl[i], (unsigned long long)hi[i], (unsigned long long)best, bestN, why.c_str());
        }
    }
    std::map<std::string, std::string> scanAll(Iterator& it, bool fwd, const char* what) {
        std::map<std::string, std::string> rows;
        std::string prev;
        bool first = true;
        Status s = fwd ? it.gotoBegin() : it.gotoEnd();
        while (s) {
            Record r;
            Record::Holder h(r);
            if (!it.get(r)) break;
            std::string k = toS(r.kv.key);
            if (!first && (fwd ? k <= prev : k >= prev)) x.fail("order", "%s: %s after %s", what, hex(k).c_str(), hex(prev).c_str());
            first = false;
            prev = k;
            rows[k] = toS(r.kv.value);
            if (r.isDel()) x.fail("deleted-row", "%s shows the deleted record %s", what, hex(k).c_str());
            s = fwd ? it.next() : it.prev();
        }
        return rows;
    }
    Obs getOne(DB* h, const std::string& k, int how, const char* what) {
        Obs o{false, ""};
        Status s;
        if (how == 0) {
            SizedBuf v;
            s = h->get(SizedBuf(k), v);
            if (s) { o.found = true; o.val = toS(v); }
            v.free();
        } else {
            Record r;
            Record::Holder hr(r);
            s = h->getRecordByKey(SizedBuf(k), r, false);
            if (s) {
                o.found = !r.isDel();
                if (toS(r.kv.key) != k) x.fail("wrong-key", "%s of %s returned key %s", what, k.c_str(), hex(toS(r.kv.key)).c_str());
                o.val = toS(r.kv.value);
            }
        }
        if (!s && s != Status::KEY_NOT_FOUND) x.fail("read-status", "%s of %s returned %d", what, k.c_str(), (int)s);
        return o;
    }
    std::string anyKey(int64_t a, int64_t b) {
        int wi = (int)((uint64_t)a % ws.size());
        if (ws[wi].keys.empty()) return "none";
        return ws[wi].keys[(uint64_t)b % ws[wi].keys.size()];
    }
    void near(const Op& o, Floor& fl) {
        std::string q = anyKey(o.arg(1), o.arg(2));
        int opt = (int)(o.arg(3) % 4);
        Floor lo = doneNow();
        for (size_t i = 0; i < lo.size(); ++i) lo[i] = std::max(lo[i], fl[i]);
        Record r;
        Record::Holder hr(r);
        Status s = w.db->getNearestRecordByKey(SizedBuf(q), r, SearchOptions((SearchOptions::Options)opt));
        Floor hi = startedNow();
        bool gt = opt < 2, eq = opt == 0 || opt == 2;
        if (!s && s != Status::KEY_NOT_FOUND) x.fail("read-status", "nearest search returned %d", (int)s);
        std::string got = s ? toS(r.kv.key) : "";
        if (s) {
            if (gt ? got < q : got > q) x.fail("nearest", "nearest(%d) of %s returned %s on the wrong side", opt, q.c_str(), hex(got).c_str());
            if (!eq && got == q) x.fail("nearest", "nearest(%d) of %s returned the excluded key itself", opt, q.c_str());
            Obs ob{!r.isDel(), toS(r.kv.value)};
            Floor f2 = lo;
            checkKey(got, ob, f2, hi, "nearest");
        }
        // a key present all the time between the query and the answer
        for (size_t i = 0; i < ws.size(); ++i)
            for (auto& k : ws[i].keys) {
                bool between = gt ? (eq ? k >= q : k > q) && (!s || k < got) : (eq ? k <= q : k < q) && (!s || k > got);
                if (!between) continue;
                bool always = true;
                for (uint64_t st = lo[i]; st <= hi[i] && always; ++st) {
                    const Mod* m = ws[i].at(k, st);
                    if (!m || m->del) always = false;
                }
                if (always) x.fail("nearest", "nearest(%d) of %s returned %s although %s was present all the time", opt, q.c_str(), s ? hex(got).c_str() : "nothing", k.c_str());
            }
        nGet++;
    }
    void prefix(const Op& o, Floor& fl) {
        std::string p = anyKey(o.arg(1), o.arg(2)).substr(0, 3 + (o.arg(3) % 2));
        Floor lo = doneNow();
        for (size_t i = 0; i < lo.size(); ++i) lo[i] = std::max(lo[i], fl[i]);
        // several versions may be handed out; the newest one counts
        std::map<std::string, std::pair<uint64_t, std::pair<bool, std::string>>> rows;
        Status s = w.db->getRecordsByPrefix(SizedBuf(p), [&](const jungle::SearchCbParams& cp) {
            std::string k = toS(cp.rec.kv.key);
            if (!rows.count(k) || rows[k].first < cp.rec.seqNum) rows[k] = {cp.rec.seqNum, {!cp.rec.isDel(), toS(cp.rec.kv.value)}};
            if (k.compare(0, p.size(), p)) x.fail("prefix", "prefix %s returned %s", p.c_str(), hex(k).c_str());
            return jungle::SearchCbDecision::NEXT;
        });
        Floor hi = startedNow();
        if (!s && s != Status::KEY_NOT_FOUND) x.fail("read-status", "prefix search returned %d", (int)s);
        for (auto& q : rows) { Floor f2 = lo; checkKey(q.first, Obs{q.second.second.first, q.second.second.second}, f2, hi, "prefix search"); }
        for (size_t i = 0; i < ws.size(); ++i)
            for (auto& k : ws[i].keys) {
                if (k.compare(0, p.size(), p) || rows.count(k)) continue;
                Floor f2 = lo;
                checkKey(k, Obs{false, ""}, f2, hi, "prefix search");
            }
        nGet++;
    }
    void reader(int ri) {
        UseRng ur(mix64(x.salt * 977 + ri + 100));
        Floor fl(ws.size(), 0);
        std::map<std::pair<int, uint64_t>, uint64_t> seqs;
        auto refresh = [&] {
            Floor d = doneNow();
            for (size_t i = 0; i < d.size(); ++i) fl[i] = std::max(fl[i], d[i]);
        };
        bool last = false;
        for (;;) {
            if (writersLeft.load() == 0) last = true;
            for (auto& o : rd[ri]) {
                if (o.name == "get" || o.name == "getrec") {
                    std::string k = anyKey(o.arg(1), o.arg(2));
                    refresh();
                    Obs ob = getOne(w.db, k, o.name == "get" ? 0 : 1, o.name.c_str());
                    checkKey(k, ob, fl, startedNow(), o.name.c_str());
                    nGet++;
                } else if (o.name == "near") near(o, fl);
                else if (o.name == "prefix") prefix(o, fl);
                else if (o.name == "scan") {
                    Iterator it;
                    refresh();
                    Status s;
                    { auto l = hold(o); s = it.init(w.db); }
                    Floor hi = startedNow();
                    if (!s) x.fail("read-status", "creating an iterator returned %d", (int)s);
                    bool fwd = o.arg(1) < 2;
                    auto rows = scanAll(it, fwd, "iterator");
                    checkViewOf(o, rows, fl, hi, "iterator");
                    if (o.arg(2)) {
                        auto again = scanAll(it, !fwd, "iterator, other direction");
                        if (again != rows) x.fail("iterator", "a second pass of the same iterator differs (%zu and %zu rows)", rows.size(), again.size());
                    }
                    it.close();
                    nScan++;
                } else if (o.name == "seqscan") {
                    Iterator it;
                    refresh();
                    Status s;
                    { auto l = hold(o); s = it.initSN(w.db); }
                    Floor hi = startedNow();
                    if (!s) x.fail("read-status", "creating a sequence iterator returned %d", (int)s);
                    // the newest version of every key must be there, in order;
                    // older ones may have been compacted away
                    std::map<std::string, std::pair<uint64_t, std::string>> rows;
                    std::set<std::string> dels;
                    uint64_t prev = 0;
                    s = it.gotoBegin();
                    while (s) {
                        Record rec;
                        Record::Holder h(rec);
                        if (!it.get(rec)) break;
                        if (rec.seqNum <= prev) x.fail("order", "sequence iterator: %llu after %llu", (unsigned long long)rec.seqNum, (unsigned long long)prev);
                        prev = rec.seqNum;
                        std::string k = toS(rec.kv.key);
                        if (rec.isDel()) rows.erase(k);
                        else rows[k] = {rec.seqNum, toS(rec.kv.value)};
                        s = it.next();
                    }
                    it.close();
                    std::map<std::string, std::string> rv;
                    for (auto& p : rows) rv[p.first] = p.second.second;
                    checkViewOf(o, rv, fl, hi, "sequence iterator");
                    nScan++;
                } else if (o.name == "snap") {
                    DB* h = nullptr;
                    refresh();
                    Status s;
                    { auto l = hold(o); s = w.db->openSnapshot(&h); }
                    Floor hi = startedNow();
                    if (!s || !h) x.fail("read-status", "opening a snapshot returned %d", (int)s);
                    std::map<std::string, std::string> rows;
                    int how = (int)o.arg(2) % 3;
                    if (how != 1) {
                        for (auto& p : owner) {
                            Obs ob = getOne(h, p.first, (int)o.arg(2) / 3 % 2, "snapshot get");
                            if (ob.found) rows[p.first] = ob.val;
                        }
                        Floor f2 = fl;
                        checkViewOf(o, rows, f2, hi, "snapshot (get)");
                        if (how != 2) fl = f2;
                    }
                    if (how != 0) {
                        Iterator it;
                        s = it.init(h);
                        if (!s) x.fail("read-status", "creating an iterator on a snapshot returned %d", (int)s);
                        auto r2 = scanAll(it, o.arg(3) % 2 == 0, "snapshot iterator");
                        it.close();
                        if (how == 2 && strict(o) && r2 != rows) {
                            std::string d;
                            for (auto& p : rows) if (!r2.count(p.first) || r2[p.first] != p.second) { d = p.first; break; }
                            if (d.empty()) for (auto& p : r2) if (!rows.count(p.first)) { d = p.first; break; }
                            x.fail("snapshot", "a snapshot shows %zu keys by get and %zu by iterator, e.g. %s: %s and %s", rows.size(), r2.size(), d.c_str(),
                                   rows.count(d) ? describe(rows[d]).c_str() : "nothing", r2.count(d) ? describe(r2[d]).c_str() : "nothing");
                        }
                        checkViewOf(o, r2, fl, hi, "snapshot (iterator)");
                    }
                    DB::close(h);
                    nSnap++;
                } else if (o.name == "rsleep") std::this_thread::sleep_for(std::chrono::microseconds(o.arg(1) % 2000));
                jitter();
            }
            if (last || rd[ri].empty()) break;
        }
    }

    // -------------------------------------------------------- maintenance
    void maint(int mi) {
        UseRng ur(mix64(x.salt * 313 + mi + 200));
        for (;;) {
            bool last = writersLeft.load() == 0;
            for (auto& o : mt[mi]) {
                if (stop) return;
                Status s;
                CompactOptions co;
                if (o.name == "m.flush") {
                    FlushOptions f;
                    f.beyondLastSync = o.arg(1) != 0;
                    f.numFilesLimit = (uint32_t)o.arg(2);
                    s = w.db->flushLogs(f);
                } else if (o.name == "m.sync") s = w.db->sync(o.arg(1) != 0);
                else if (o.name == "m.syncnw") s = w.db->syncNoWait(o.arg(1) != 0);
                else if (o.name == "m.l0") s = w.db->compactL0(co, (uint32_t)(o.arg(1) % std::max<int64_t>(1, w.c("l0parts"))));
                else if (o.name == "m.level") s = w.db->compactLevel(co, o.arg(1));
                else if (o.name == "m.inplace") s = w.db->compactInplace(co, o.arg(1));
                else if (o.name == "m.split") s = w.db->splitLevel(co, o.arg(1));
                else if (o.name == "m.merge") s = w.db->mergeLevel(co, o.arg(1));
                else if (o.name == "m.chk") { uint64_t q = 0; s = w.db->checkpoint(q, false); }
                else if (o.name == "m.async") {
                    FlushOptions f;
                    f.beyondLastSync = o.arg(1) != 0;
                    f.syncOnly = o.arg(2) % 3 == 1;
                    f.execDelayUs = (uint32_t)(o.arg(3) % 2000);
                    s = w.db->flushLogsAsync(f, [](Status, void*) {}, nullptr);
                } else if (o.name == "m.sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.arg(1) % 3000));
                else if (o.name == "m.stats") { jungle::DBStats st; s = w.db->getStats(st); }
                if (s && o.name != "m.sleep") nMaint++;
                jitter();
            }
            if (last || mt[mi].empty()) break;
        }
    }

    void go() {
        plan();
        GlobalConfig g;
        g.globalLogPath = x.dir;
        g.numFlusherThreads = std::max<int64_t>(0, std::min<int64_t>(3, c.cfg("flushers", 0)));
        g.numCompactorThreads = std::max<int64_t>(0, std::min<int64_t>(3, c.cfg("compactors", 0)));
        g.flusherSleepDuration_ms = std::max<int64_t>(1, c.cfg("fsleep", 5));
        g.compactorSleepDuration_ms = std::max<int64_t>(1, c.cfg("csleep", 5));
        g.flusherMinRecordsToTrigger = std::max<int64_t>(1, c.cfg("frec", 50));
        g.flusherMinLogFilesToTrigger = std::max<int64_t>(1, c.cfg("flogs", 2));
        g.flusherAutoSync = c.cfg("fauto") != 0;
        g.numTableWriters = std::max<int64_t>(1, w.c("tw"));
        g.memTableFlushBufferSize = std::max<int64_t>(64, w.c("fbuf"));
        g.fdbCacheSize = 0;
        g.logFileReclaimerSleep_sec = 1;
        DB::init(g);
        w.global_up = true;
        if (c.cfg("bg")) w.cfgHook = [](DBConfig& d) { d.autoLogFlush = true; };
        w.openOrFail();
        int jp = (int)c.cfg("jit");
        if (c.cfg("cbs")) {
            jungle::DebugParams dp;
            auto cb = [](const jungle::DebugParams::GenericCbParams&) { jitter(20); };
            dp.tableSetBatchCb = cb;
            dp.addNewLogFileCb = cb;
            dp.newLogBatchCb = cb;
            dp.getLogFileInfoBySeqCb = cb;
            dp.logFlushCb = cb;
            dp.logFlushBeforeRemoveCb = cb;
            dp.syncCb = cb;
            dp.adjustL0Cb = cb;
            DB::setDebugParams(dp);
            DB::enableDebugCallbacks(true);
        }
        g_jit = jp;
        vh_perturb_seed = c.cfg("jit") * 131 + x.salt + total * 7 + 1;
        vh_perturb_budget = 5000;
        vh_perturb = (int)c.cfg("pert");
        std::vector<std::thread> th;
        writersLeft = (int)ws.size();
        for (size_t i = 0; i < ws.size(); ++i) th.emplace_back([this, i] { writer((int)i); });
        for (size_t i = 0; i < rd.size(); ++i) th.emplace_back([this, i] { reader((int)i); });
        for (size_t i = 0; i < mt.size(); ++i) th.emplace_back([this, i] { maint((int)i); });
        for (auto& t : th) t.join();
        g_jit = 0;
        vh_perturb = 0;
        if (c.cfg("cbs")) DB::enableDebugCallbacks(false);
        // everything has returned: the exact final state
        finalCheck("after all threads ended");
        w.close();
        w.openOrFail();
        finalCheck("after close and reopen");
        w.close();
        w.globalShutdown();
        if (nOverlap) x.nontrivial();
        x.count("n:concurrent-reads", nOverlap);
        x.count("n:gets", nGet);
        x.count("n:scans", nScan);
        x.count("n:snapshots", nSnap);
        x.count("n:maintenance", nMaint);
        x.count("n:records", total);
    }
    void finalCheck(const char* where) {
        Floor fl(ws.size());
        for (size_t i = 0; i < ws.size(); ++i) fl[i] = ws[i].steps.size();
        Floor hi = fl;
        Iterator it;
        Status s = it.init(w.db);
        if (!s) x.fail("read-status", "%s: creating an iterator returned %d", where, (int)s);
        auto rows = scanAll(it, true, where);
        it.close();
        checkView(rows, fl, hi, where);
        std::map<uint64_t, std::pair<int, uint64_t>> bySeq;
        for (auto& p : owner) {
            Obs ob = getOne(w.db, p.first, 0, where);
            checkKey(p.first, ob, fl, hi, where);
            Record r;
            Record::Holder h(r);
            if (!w.db->getRecordByKey(SizedBuf(p.first), r)) continue;
            const Mod* m = ws[p.second].at(p.first, hi[p.second]);
            if (!m) continue;
            if (bySeq.count(r.seqNum)) x.fail("seqnum", "%s: two records carry the sequence number %llu", where, (unsigned long long)r.seqNum);
            bySeq[r.seqNum] = {p.second, m->step};
        }
        std::map<int, uint64_t> lastStep;
        for (auto& p : bySeq) {
            uint64_t& l = lastStep[p.second.first];
            if (p.second.second < l) x.fail("seqnum", "%s: writer %d's step %llu has a smaller sequence number than an earlier step", where, p.second.first, (unsigned long long)p.second.second);
            l = p.second.second;
        }
        uint64_t mx = 0;
        w.db->getMaxSeqNum(mx);
        if (total && mx != total) x.fail("seqnum", "%s: %llu records were written but the largest sequence number is %llu", where, (unsigned long long)total, (unsigned long long)mx);
    }
};

Case genConc(Rng& r, int tier, uint64_t) {
    Case c;
    GenOpt o;
    o.customCmp = false;
    o.dio = r.chance(20);
    genConfig(r, c, o, tier);
    auto set = [&](const char* n, int64_t v) { c.add(std::string("cfg.") + n, {v}); };
    int nw = (int)r.range(1, 3), nr = (int)r.range(1, 3), nm = (int)r.range(0, 2);
    set("writers", nw);
    set("readers", nr);
    set("maints", nm);
    bool bg = r.chance(50);
    if (bg) {
        set("bg", 1);
        set("flushers", r.range(1, 2));
        set("compactors", 0);
        set("fsleep", r.oneOf({1, 3, 10}));
        set("csleep", r.oneOf({1, 3, 10}));
        set("frec", r.oneOf({1, 10, 100}));
        set("flogs", r.oneOf({1, 2, 4}));
        set("fauto", r.chance(50));
    }
    set("jit", r.oneOf({0, 1, 3, 10, 30, 30, 150}));
    set("cbs", r.chance(60));
    set("pert", r.oneOf({0, 0, 300, 2000, 10000}));
    int nkeys = (int)r.oneOf({3, 8, 20, 50});
    int big = r.chance(20);
    for (int i = 0; i < nw; ++i) {
        int n = (int)r.range(20, tier ? 400 : 150);
        int pb = (int)r.oneOf({10, 40, 100});
        for (int j = 0; j < n; ++j) {
            if (r.chance(pb)) {
                Op b{"wbatch", {i}};
                int m = (int)r.range(1, 10);
                // (a key appears once: a read that overlaps the batch and its flush
                // could see the overwritten version in the table)
                std::set<int64_t> used;
                for (int q = 0; q < m; ++q) {
                    int64_t kk = r.below(nkeys);
                    if (!used.insert(kk).second) continue;
                    b.a.push_back(kk);
                    b.a.push_back(r.chance(20) ? -1 : r.below(big ? 2000 : 60));
                }
                c.ops.push_back(b);
            } else if (r.chance(25)) c.add("wdel", {i, (int64_t)r.below(nkeys), r.chance(30)});
            else c.add("wput", {i, (int64_t)r.below(nkeys), (int64_t)r.below(big ? 2000 : 60), r.chance(30)});
        }
    }
    bool seqidx = c.cfg("seqidx", 1) != 0;
    for (int i = 0; i < nr; ++i) {
        int n = (int)r.range(3, 20);
        std::vector<int> wt = {20, 20, 10, 10, 20, 20, seqidx ? 6 : 0, 5};
        if (r.chance(30)) wt = {10, 10, 0, 0, 40, 10, 0, 2};
        for (int j = 0; j < n; ++j) {
            int64_t a = r.below(100), b = r.below(100), d = r.below(4);
            switch (r.weighted(wt)) {
            case 0: c.add("get", {i, a, b}); break;
            case 1: c.add("getrec", {i, a, b}); break;
            case 2: c.add("near", {i, a, b, d}); break;
            case 3: c.add("prefix", {i, a, b, d}); break;
            case 4: c.add("scan", {i, d, r.chance(30)}); break;
            case 5: c.add("snap", {i, d, a, b}); break;
            case 6: c.add("seqscan", {i, d}); break;
            default: c.add("rsleep", {i, (int64_t)r.below(2000)}); break;
            }
        }
    }
    for (int i = 0; i < nm; ++i) {
        int n = (int)r.range(2, 14);
        bool logs = r.chance(20);       // this thread only writes the log
        if (logs) n = std::min(n, 4);
        for (int j = 0; j < n; ++j) {
            int64_t a = r.below(8);
            if (logs) {
                if (r.chance(60)) c.add("m.chk", {i});
                else c.add("m.sync", {i, r.chance(30)});
                continue;
            }
            switch (r.weighted({30, 15, 5, c.cfg("next", 1) == 0 ? 12 : 0, 0, 0, 0, 0, 4, bg ? 8 : 0, 10, 3})) {
            case 0: c.add("m.flush", {i, r.chance(60), r.chance(30) ? 1 : 0}); break;
            case 1: c.add("m.sync", {i, r.chance(50)}); break;
            case 2: c.add("m.syncnw", {i, 0}); break;
            case 3: c.add("m.l0", {i, a}); break;
            case 4: c.add("m.level", {i, 1 + a % 2}); break;
            case 5: c.add("m.inplace", {i, a % 3}); break;
            case 6: c.add("m.split", {i, 1 + a % 2}); break;
            case 7: c.add("m.merge", {i, 1 + a % 2}); break;
            case 8: c.add("m.chk", {i}); break;
            case 9: c.add("m.async", {i, r.chance(60), a, (int64_t)r.below(2000)}); break;
            case 10: c.add("m.sleep", {i, (int64_t)r.below(3000)}); break;
            default: c.add("m.stats", {i}); break;
            }
        }
    }
    return c;
}
} // namespace

void addConcChecks(std::vector<Check>& v) {
    Check k;
    k.id = "D18";
    k.rule = "programs of 1 to 3 writers, 1 to 3 readers and up to 2 maintenance threads, half of them with the background flushers, compactors and reclaimer running, with random delays at locks and debug call-backs; every read must be explained by a prefix of each writer's steps between what had returned and what had started; non-trivial = at least one read that overlapped a write";
    k.quick_cases = 600; k.thorough_cases = 60000;
    k.schedule = true;
    k.workers = 5;
    k.hang_s = 90;
    k.gen = genConc;
    k.run = [](const Case& c, Ctx& x) { Conc z(c, x); z.go(); };
    v.push_back(k);
}
} // namespace vh
