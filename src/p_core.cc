#include "world.h"
using namespace vh;

static Case genCore(Rng& r, int tier, GenOpt o) {
    Case c;
    o.nkeys = (int)r.oneOf({5, 12, 30, 60, tier ? 200 : 90});
    o.bigValues = r.chance(20);
    genConfig(r, c, o, tier);
    genOps(r, c, o, (int)r.range(o.minOps, tier ? o.maxOps * 3 : o.maxOps));
    return c;
}
static void runCore(const Case& c, Ctx& x, std::function<bool(World&)> nt, std::function<void(World&)> fin = nullptr) {
    World w(x, c);
    w.openOrFail();
    for (auto& o : c.ops) w.exec(o);
    w.verifyAll("end");
    if (fin) fin(w);
    w.close();
    w.openOrFail();
    w.verify(w.db, w.st, "after close and reopen");
    w.close();
    w.globalShutdown();
    if (nt(w)) x.nontrivial();
    x.count("n:splits", w.n_split);
    x.count("n:merges", w.n_merge);
    x.count("n:interlevel", w.n_interlevel);
    x.count("n:l0compact", w.n_l0c);
    x.count("n:inplace", w.n_inpl);
    x.count("n:writes", w.log.size());
}

namespace vh { void addWorkerCheck(std::vector<Check>& v); void addMemtableCheck(std::vector<Check>& v); void addCrashChecks(std::vector<Check>& v); void addLogStoreChecks(std::vector<Check>& v); void addConcChecks(std::vector<Check>& v); }
int main(int argc, char** argv) {
    std::vector<Check> v;
    {
        Check k;
        k.id = "D01";
        k.rule = "programs of writes, batches, syncs, flushes, compactions, splits, merges, re-openings and reads over generated configurations; every read is compared with a map model; non-trivial = at least 2 successful maintenance operations, 1 overwrite and 1 delete";
        k.quick_cases = 8000; k.thorough_cases = 400000;
        k.gen = [](Rng& r, int tier, uint64_t) { GenOpt o; o.readPct = 25; return genCore(r, tier, o); };
        k.run = [](const Case& c, Ctx& x) { runCore(c, x, [](World& w) { return w.n_maint_ok >= 2 && w.n_over && w.n_del; }); };
        v.push_back(k);
    }
    auto add = [&](const char* id, const char* rule, uint64_t q, uint64_t th, GenOpt o, std::function<bool(World&)> nt) {
        Check k;
        k.id = id;
        k.rule = rule;
        k.quick_cases = q;
        k.thorough_cases = th;
        k.gen = [o](Rng& r, int tier, uint64_t) { return genCore(r, tier, o); };
        k.run = [nt](const Case& c, Ctx& x) { runCore(c, x, nt); };
        v.push_back(k);
    };
    { GenOpt o; o.iters = true; o.snaps = true; o.readPct = 2; add("D02", "programs with snapshots, maintenance and key iterators over bounded or unbounded ranges kept open across later writes, flushes, compactions and splits; every record met by next, prev, seek and the ends is compared with the model's view at creation; non-trivial = at least 2 successful maintenance operations and 1 delete", 8000, 400000, o, [](World& w) { return w.n_maint_ok > 1 && w.n_del; }); }
    { GenOpt o; o.seqs = true; o.iters = true; o.snaps = true; o.readPct = 2; add("D03", "programs with sequence-number lookups and sequence iterators over generated ranges on the live database and on snapshots; every record is compared with the log of writes of the model; non-trivial = at least 2 successful maintenance operations and 1 delete", 8000, 400000, o, [](World& w) { return w.n_maint_ok > 1 && w.n_del; }); }
    { GenOpt o; o.snaps = true; o.readPct = 5; add("D04", "programs that open and close snapshots and checkpoints between writes and maintenance; every read of a snapshot is compared with the copy of the model taken when it was opened; non-trivial = at least 2 successful maintenance operations and 1 delete", 8000, 400000, o, [](World& w) { return w.n_maint_ok > 1 && w.n_del; }); }
    { GenOpt o; o.nearest = true; o.snaps = true; o.readPct = 2; add("D11", "programs with nearest-key searches of all six kinds around present, deleted and absent keys, on live data and snapshots, compared with the ordered model; non-trivial = at least 2 successful maintenance operations and 1 delete", 8000, 400000, o, [](World& w) { return w.n_maint_ok > 1 && w.n_del; }); }
    { GenOpt o; o.prefix = true; o.customCmp = false; o.snaps = true; o.readPct = 2; add("D12", "programs with prefix searches with generated prefixes and stop points, on live data and snapshots, compared with the model; non-trivial = at least 2 successful maintenance operations and 1 delete", 8000, 400000, o, [](World& w) { return w.n_maint_ok > 1 && w.n_del; }); }
    {
        Check k;
        k.id = "D20";
        k.rule = "programs that sample keys (0 to twice the number of keys, any or live only) on live data and snapshots, in a third of the cases with every key written once, where number and spread of the samples are determined; non-trivial = at least one sampling with samples and 1 successful maintenance operation";
        k.quick_cases = 3000; k.thorough_cases = 300000;
        k.gen = [](Rng& r, int tier, uint64_t i) {
            GenOpt o;
            o.sample = true; o.snaps = true; o.readPct = 0; o.unique = i % 3 == 0;
            Case c = genCore(r, tier, o);
            if (o.unique) c.ops.insert(c.ops.begin(), Op{"cfg.unique", {1}});
            return c;
        };
        k.run = [](const Case& c, Ctx& x) { runCore(c, x, [](World& w) { return w.n_maint_ok && w.n_samples; }); };
        v.push_back(k);
    }
    addWorkerCheck(v);
    addMemtableCheck(v);
    addCrashChecks(v);
    addLogStoreChecks(v);
    addConcChecks(v);
    return main_impl(argc, argv, v);
}
