// D06 power loss and D07 process kill: a program runs with every file-system
// call journaled; what storage may hold after a crash at generated points is
// rebuilt from the journal and opened.
#include "io.h"
#include "world.h"

using namespace jungle;
namespace vh {

void dumpTables(DB* db);
static const char* HOW[] = {"process kill", "power loss (nothing unsynced survives)", "power loss (some unsynced sectors survive)",
                            "power loss (a prefix of each file's unsynced writes survives)"};

static Case genCrash(Rng& r, int tier, bool power) {
    Case c;
    GenOpt o;
    o.nkeys = (int)r.oneOf({4, 10, 25, tier ? 100 : 50});
    o.bigValues = r.chance(10);
    o.readPct = 0;
    o.minOps = 6; o.maxOps = tier ? 160 : 60;
    genConfig(r, c, o, tier);
    // 0: sync before every flush, always with fsync; 1: any order
    int strict = r.chance(65);
    c.add("cfg.strict", {strict});
    Case t;
    genOps(r, t, o, (int)r.range(o.minOps, o.maxOps));
    for (auto& op : t.ops) {
        if (op.name == "verify") continue;
        if (op.name == "flush" && strict) c.add("sync", {1});
        if (op.name == "sync" && (strict && power)) c.add("sync", {1});
        else c.ops.push_back(op);
        if (r.chance(3)) c.add("chk", {1});
    }
    int n = tier ? 14 : 7;
    for (int i = 0; i < n; ++i) c.add("crash", {(int64_t)r.below(1000001), power ? r.range(1, 3) : 0, (int64_t)r.below(1 << 20)});
    return c;
}

namespace {
struct Bound { size_t ev; uint64_t issued, kill, power; bool relaxed; std::map<std::string, int64_t> cfg; size_t log; };
} // namespace

static void runCrash(const Case& c, Ctx& x, bool power_model) {
    World w(x, c);
    g_io.start(w.path);

    std::vector<Bound> bs;
    uint64_t power = 0, kill = 0;
    bool relaxed = false;
    auto bound = [&] { bs.push_back({g_io.events(), w.maxSeq, kill, power, relaxed, w.cfg, w.log.size()}); };
    bound();
    std::vector<std::pair<uint64_t, uint64_t>> batches;     // (first, last] sequence numbers of batches
    w.openOrFail();
    bound();
    for (auto& o : c.ops) {
        if (o.name == "crash") continue;
        if (o.name == "flush" && ((w.syncedSeq < w.maxSeq && o.arg(0)) || (power_model && power < w.maxSeq))) relaxed = true;
        uint64_t before = w.maxSeq;
        w.exec(o);
        if (o.name == "batch" && w.maxSeq > before) batches.push_back({before, w.maxSeq});
        kill = w.syncedSeq;
        if ((o.name == "sync" && o.arg(0)) || o.name == "reopen") power = w.maxSeq;
        if (o.name == "chk" && o.arg(0) && w.chks.count(w.maxSeq)) power = w.maxSeq;
        bound();
    }
    kill = power = w.maxSeq;
    w.close();
    bound();
    size_t total = g_io.events();
    uint64_t deep = 0;
    int k = 0;
    for (auto& o : c.ops) {
        if (o.name != "crash") continue;
        size_t n = bs[1].ev + (total - bs[1].ev) * (uint64_t)std::max<int64_t>(0, std::min<int64_t>(1000000, o.arg(0))) / 1000000;
        int how = power_model ? 1 + (int)std::max<int64_t>(0, o.arg(1)) % 3 : 0;
        size_t b = 0;
        while (b + 1 < bs.size() && bs[b + 1].ev <= n) ++b;
        const Bound& A = bs[b];
        const Bound& B = bs[std::min(b + 1, bs.size() - 1)];
        uint64_t ack = how ? A.power : A.kill, issued = std::max(A.issued, B.issued);
        bool rel = A.relaxed || B.relaxed || how > 1;    // parts of unsynced files may survive in any order
        std::string sub = "img" + std::to_string(k++);
        g_io.journal = false;
        std::string root = g_io.root;
        g_io.image(x.dir + "/" + sub, n, how, o.arg(2));
        g_io.journal = true;
        World v(x, c, sub);
        v.cfg = A.cfg;
        v.global_up = true;
        std::string where = strf("after %s at event %zu of %zu (writes up to %lu acknowledged, %lu issued)", HOW[how], n, total, (unsigned long)ack,
                                 (unsigned long)issued);
        if (x.verbose) {
            fprintf(stderr, "--- %s op %zu\n", where.c_str(), b);
            for (size_t i = n > 60 ? n - 60 : 0; i < n; ++i)
                fprintf(stderr, "   ev %zu kind %d ino %lu off %lu len %zu %s %s\n", i, g_io.ev[i].kind, (unsigned long)g_io.ev[i].ino, (unsigned long)g_io.ev[i].off,
                        g_io.ev[i].data.size(), g_io.ev[i].kind == IO_WRITE ? "" : g_io.ev[i].data.c_str(), g_io.ev[i].to.c_str());
        }
        Status s = v.open();
        if (!s.ok()) x.fail("recovery", "%s: opening the database returned %d", where.c_str(), (int)s.getValue());
        if (x.verbose && getenv("VH_TABLES")) dumpTables(v.db);
        uint64_t mx = 0;
        v.db->getMaxSeqNum(mx);
        auto rows = v.dump(v.db, where.c_str());
        std::map<std::string, Ver> got(rows.begin(), rows.end());
        // candidate states
        State st(KeyCmp{w.cmpKind()});
        size_t i = 0;
        auto diff = [&](const State& s2, std::string* d) {
            size_t live = 0;
            for (auto& e : s2) {
                if (e.second.del) continue;
                live++;
                auto f = got.find(e.first);
                if (f == got.end() || !(f->second == e.second)) {
                    if (d) *d = strf("key %s should have seq %lu, has %s", hex(e.first).c_str(), (unsigned long)e.second.seq,
                                     f == got.end() ? "nothing" : strf("seq %lu", (unsigned long)f->second.seq).c_str());
                    return true;
                }
            }
            if (live != got.size()) {
                if (d)
                    for (auto& g : got) {
                        auto f = s2.find(g.first);
                        if (f == s2.end() || f->second.del) *d = strf("key %s seq %lu should not be there", hex(g.first).c_str(), (unsigned long)g.second.seq);
                    }
                return true;
            }
            return false;
        };
        for (; i < w.log.size() && w.log[i].seq <= ack; ++i) st[w.log[i].key] = w.log[i].v;
        if (!rel) {
            // exactly the writes up to some point between acknowledged and issued
            std::string first;
            bool found = false;
            State cur = st;
            size_t at = i;
            uint64_t p = ack;
            bool any = diff(cur, &first), anyAll = !any;
            if (!any) { found = true; st = cur; p = ack; at = i; }
            for (size_t j = i; j < w.log.size() && w.log[j].seq <= issued; ++j) {
                cur[w.log[j].key] = w.log[j].v;
                bool inBatch = false;
                for (auto& bt : batches) inBatch |= w.log[j].seq > bt.first && w.log[j].seq < bt.second;
                if (inBatch && c.cfg("atomic")) continue;     // known finding otherwise
                anyAll = anyAll || !diff(cur, nullptr);
                if ((mx == (uint64_t)-1 || w.log[j].seq <= mx) && !diff(cur, nullptr)) { found = true; st = cur; p = w.log[j].seq; at = j + 1; }
            }
            if (!found && anyAll) x.fail("crash-seq", "%s: the maximum sequence number is reported as %lu, below that of recovered writes", where.c_str(), (unsigned long)mx);
            if (!found) x.fail("crash-state", "%s: the recovered state is not that of any point in between; against the acknowledged one: %s", where.c_str(), first.c_str());
            if (mx != (uint64_t)-1 && mx < p && !st.empty()) x.fail("crash-seq", "%s: recovered up to %lu but the maximum is reported as %lu", where.c_str(), (unsigned long)p, (unsigned long)mx);
            // life goes on
            v.st = st;
            v.log.assign(w.log.begin(), w.log.begin() + at);
            v.maxSeq = (mx == (uint64_t)-1 || mx < p) ? p : mx;
            v.universe = w.universe;
            v.uniset = w.uniset;
            v.verify(v.db, v.st, where.c_str(), false);
            if (o.arg(2) % 3 == 0) {
                std::string w2 = where + ", then written to";
                v.put(o.arg(2) % 7, 1, 5, 0, 0);
                v.del(o.arg(2) % 5, 0, 0);
                v.put(o.arg(2) % 11, 3, 50, 0, 0);
                if (x.verbose && getenv("VH_TABLES")) dumpTables(v.db);
                v.verify(v.db, v.st, w2.c_str(), false);
                if (o.arg(2) % 2) v.exec(Op{"flush", {1, 0, 0}});
                if (o.arg(2) % 4 == 1) v.exec(Op{"cl0all", {1}});
                v.verify(v.db, v.st, w2.c_str(), false);
                v.close();
                v.openOrFail();
                v.verify(v.db, v.st, (w2 + " and re-opened").c_str(), false);
            }
        } else {
            // unsynced data went to tables at the user's request: each key has a
            // version that is at least as new as the acknowledged one
            std::map<std::string, std::vector<const Ver*>> allow;
            for (auto& e : st) allow[e.first].push_back(&e.second);
            for (size_t j = i; j < w.log.size() && w.log[j].seq <= issued; ++j) {
                if (!allow.count(w.log[j].key)) allow[w.log[j].key].push_back(nullptr);
                allow[w.log[j].key].push_back(&w.log[j].v);
            }
            for (auto& g : got) {
                bool ok = false;
                for (auto* a : allow[g.first]) ok |= a && !a->del && *a == g.second;
                if (!ok) x.fail("crash-state", "%s: key %s has seq %lu, which is none of its versions from the acknowledged one on", where.c_str(), hex(g.first).c_str(), (unsigned long)g.second.seq);
            }
            for (auto& a : allow) {
                if (got.count(a.first)) continue;
                bool ok = false;
                for (auto* p : a.second) ok |= !p || p->del;
                if (!ok) x.fail("crash-state", "%s: key %s is lost", where.c_str(), hex(a.first).c_str());
            }
        }
        x.count(rel ? "image:relaxed" : "image:strict");
        if (!got.empty() && n < total && ack) deep++;
        v.close();
        v.global_up = false;
        rm_rf(x.dir + "/" + sub);
    }
    w.globalShutdown();
    g_io.reset();
    if (deep && w.n_maint_ok) x.nontrivial();
    x.count("n:images", k);
    x.count("n:events", total);
}

void addCrashChecks(std::vector<Check>& v) {
    for (int p = 1; p >= 0; --p) {
        Check k;
        k.id = p ? "D06" : "D07";
        k.rule = p ? "programs of writes, syncs, flushes, compactions and re-openings with all file-system calls journaled; at generated points the possible contents of storage after power loss (nothing, some sectors, or a prefix of the unsynced writes survive) are opened and compared with the states between acknowledged and issued; non-trivial = a successful maintenance operation and an image with acknowledged, recovered data before the end"
                   : "the same programs with the process killed between two file-system calls (everything issued survives); non-trivial = a successful maintenance operation and an image with acknowledged, recovered data before the end";
        k.quick_cases = 6000; k.thorough_cases = 200000;
        k.hang_s = 120;
        k.gen = [p](Rng& r, int tier, uint64_t) { return genCrash(r, tier, p); };
        k.run = [p](const Case& c, Ctx& x) { runCrash(c, x, p); };
        v.push_back(k);
    }
}
} // namespace vh
