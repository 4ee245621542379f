// C13: worker threads (WorkerMgr) and the derived values of configurations.
#include "db_mgr.h"
#include "vh.h"
#include "worker_mgr.h"

#include <libjungle/jungle.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <memory>
#include <thread>

using namespace jungle;
namespace vh {

namespace {
struct Tw : WorkerBase {
    std::atomic<uint64_t> started{0}, finished{0}, applied{0}, lastCfg{0}, overlap{0}, badOrder{0}, again{0};
    std::atomic<bool> busy{false};
    std::atomic<int64_t>* alive;
    int workUs = 0;
    bool pend = false;      // an invocation may still be on its way to this worker
    Tw(const std::string& n, int64_t sleepMs, int us, std::atomic<int64_t>* a) : alive(a), workUs(us) {
        workerName = n;
        curOptions.sleepDurationMs = sleepMs;
        ++*alive;
    }
    ~Tw() override { --*alive; }
    void start() { handle = std::thread([this] { loop(); }); }
    void work() override {
        if (busy.exchange(true)) overlap++;
        started++;
        if (workUs) std::this_thread::sleep_for(std::chrono::microseconds(workUs));
        if (again.load()) {
            again--;
            doNotSleepNextTime = true;
        }
        finished++;
        busy = false;
    }
    void applyNewGlobalConfig(const GlobalConfig& g) override {
        if (busy.load()) overlap++;
        if (g.numTableWriters < lastCfg.load()) badOrder++;
        lastCfg = g.numTableWriters;
        applied++;
    }
};
template <class F> bool within(int ms, F f) {
    auto t0 = std::chrono::steady_clock::now();
    while (!f()) {
        if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms)) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    return true;
}
const char* NAMES[] = {"flusher_0", "flusher_1", "compactor_0", "compactor_1", "logReclaimer", "a", "aa", "xa"};
const char* PREFIX[] = {"flusher", "compactor", "logReclaimer", "a", "aa", "flusher_1", "zzz", "compactor_0"};
const int LIVE_MS = 20000;
} // namespace

static Case genWorker(Rng& r, int tier, uint64_t) {
    Case c;
    if (r.chance(60)) {
        // configuration arithmetic
        int n = (int)r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            Op t{"tsize", {r.range(1, r.oneOf({10, 1 << 20, 1LL << 31})), r.range(1, r.oneOf({10, 1 << 20, 1LL << 31}))}};
            int m = (int)r.below(4);
            for (int j = 0; j < m; ++j) t.a.push_back(r.range(10, 120));      // tenths
            c.ops.push_back(t);
        }
        c.add("pwriters", {r.range(0, 6), r.range(0, 6), r.range(0, 20), r.chance(20) ? r.range(1, 9) : 0, r.chance(15)});
        if (r.chance(30)) c.add("pwnone", {r.chance(50) ? r.range(1, 9) : 0, r.chance(30)});
        return c;
    }
    int n = (int)r.range(6, tier ? 60 : 25);
    for (int i = 0; i < 3; ++i) c.add("add", {(int64_t)r.below(8), r.oneOf({60000, 60000, 60000, 1}), r.oneOf({0, 0, 300, 2000})});
    for (int i = 0; i < n; ++i) {
        switch (r.weighted({10, 20, 10, 30, 14, 8, 8})) {
        case 0: c.add("add", {(int64_t)r.below(8), r.oneOf({60000, 60000, 60000, 1}), r.oneOf({0, 0, 300, 2000})}); break;
        case 1: c.add("run", {(int64_t)r.below(8)}); break;
        case 2: c.add("stop", {(int64_t)r.below(8)}); break;
        case 3: c.add("invoke", {(int64_t)r.below(8), r.chance(60)}); break;
        case 4: c.add("config", {r.range(1, 3)}); break;
        case 5: c.add("again", {(int64_t)r.below(8), r.range(1, 4)}); break;
        case 6: c.add("storm", {(int64_t)r.below(8), r.range(2, 30)}); break;
        }
    }
    if (r.chance(50)) c.add("destroy", {(int64_t)r.below(8)});
    return c;
}

static void runWorker(const Case& c, Ctx& x) {
    bool cfgOnly = true;
    for (auto& o : c.ops) if (o.name == "add") cfgOnly = false;
    // ---- configuration arithmetic
    for (auto& o : c.ops) {
        if (o.name == "tsize") {
            DBConfig d;
            d.maxL0TableSize = std::max<int64_t>(1, o.arg(0));
            d.maxL1TableSize = std::max<int64_t>(1, o.arg(1));
            d.tableSizeRatio.clear();
            for (size_t i = 2; i < o.a.size(); ++i) d.tableSizeRatio.push_back(o.a[i] / 10.0);
            if (d.getMaxTableSize(0) != d.maxL0TableSize) x.fail("table-size", "L0 limit is %lu", (unsigned long)d.getMaxTableSize(0));
            long double e = d.maxL1TableSize, err = 0;
            for (size_t lv = 1; lv <= 7; ++lv) {
                if (lv > 1) {
                    double ra = d.tableSizeRatio.empty() ? 10 : d.tableSizeRatio[std::min(lv - 2, d.tableSizeRatio.size() - 1)];
                    e *= ra;
                    err = err * ra + 1;       // rounding down at each step
                    if (e > 1e15L) break;
                }
                long double g = d.getMaxTableSize(lv);
                if (g > e + 1 || g < e - err - 1) x.fail("table-size", "limit of level %zu is %.0Lf, expected %.1Lf", lv, g, e);
                x.count("n:levels");
                if (lv > 2) x.nontrivial();
            }
        } else if (o.name == "pwriters" || o.name == "pwnone") {
            bool none = o.name == "pwnone";
            DBConfig d;
            d.maxParallelWritesPerJob = none ? o.arg(0) : o.arg(3);
            d.readOnly = none ? o.arg(1) : o.arg(4);
            size_t want = d.maxParallelWritesPerJob, got;
            if (none) {
                got = d.getMaxParallelWriters();
                if (!want) want = 1;
            } else {
                GlobalConfig g;
                g.globalLogPath = x.dir;
                g.numFlusherThreads = std::min<int64_t>(16, o.arg(0));
                g.numCompactorThreads = std::min<int64_t>(16, o.arg(1));
                g.numTableWriters = std::min<int64_t>(64, o.arg(2));
                g.fdbCacheSize = 0;
                DB::init(g);
                got = d.getMaxParallelWriters();
                DB::shutdown();
                size_t t = g.numFlusherThreads + g.numCompactorThreads, w = g.numTableWriters;
                // one more than a fair share of the writers for each thread
                if (!want) want = d.readOnly || !t || !w ? 1 : (w + t - 1) / t + 1;
                if (!o.arg(3) && t && w) x.nontrivial();
            }
            if (got != want) x.fail("parallel-writers", "getMaxParallelWriters is %zu, expected %zu", got, want);
            x.count("n:pwriters");
        }
    }
    if (cfgOnly) return;
    // ---- workers
    GlobalConfig g;
    g.globalLogPath = x.dir;
    g.numFlusherThreads = g.numCompactorThreads = 0;
    g.numTableWriters = 1;
    g.fdbCacheSize = 0;
    DB::init(g);
    std::atomic<int64_t> alive{0};
    {
        auto mgr = std::make_unique<WorkerMgr>();
        std::map<std::string, Tw*> ws;
        std::set<std::string> running;
        uint64_t cfgVal = 0, nInv = 0;
        auto settle = [&](const char* what) {      // nobody is in work()
            for (auto& w : ws) {
                Tw* t = w.second;
                if (!within(LIVE_MS, [&] { return t->started == t->finished && !t->busy; })) x.fail("worker", "%s: worker %s does not finish", what, w.first.c_str());
            }
        };
        // A running worker with a long sleep is idle once it has nothing left to do.
        auto quiet = [&](Tw* t) {
            return within(LIVE_MS, [&] {
                if (t->status == WorkerBase::WORKING || t->busy) return false;
                uint64_t n = t->started;
                std::this_thread::sleep_for(std::chrono::microseconds(300));
                return n == t->started.load() && !t->busy && !t->again;
            });
        };
        for (auto& o : c.ops) {
            std::string nm = NAMES[std::max<int64_t>(0, o.arg(0)) % 8];
            Tw* w = ws.count(nm) ? ws[nm] : nullptr;
            if (o.name == "add") {
                Tw* t = new Tw(nm, std::max<int64_t>(1, o.arg(1)), (int)std::min<int64_t>(5000, std::max<int64_t>(0, o.arg(2))), &alive);
                Status s = mgr->addWorker(t);
                if (w) {
                    if (s.getValue() != Status::ALREADY_EXIST) x.fail("worker", "adding %s twice returned %d", nm.c_str(), (int)s.getValue());
                    delete t;
                    x.count("add:dup");
                } else {
                    if (!s.ok()) x.fail("worker", "adding %s returned %d", nm.c_str(), (int)s.getValue());
                    if (t->status != WorkerBase::STOP) x.fail("worker", "a new worker is not stopped");
                    ws[nm] = t;
                    t->start();
                }
            } else if (o.name == "run" && w) {
                settle("run");
                w->run();
                if (w->pend) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(10));
                    w->pend = false;
                }
                if (running.insert(nm).second) {
                    auto stt = w->status.load();
                    if (stt != WorkerBase::IDLE && stt != WorkerBase::WORKING) x.fail("worker", "%s did not become idle by run()", nm.c_str());
                }
            } else if (o.name == "stop" && w) {
                w->stop();
                running.erase(nm);
                settle("stop");
                uint64_t n = w->started;
                w->invoke();
                w->pend = true;
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                // one work may have begun just before the status changed
                if (w->started > n + 1 || w->status != WorkerBase::STOP) x.fail("worker", "%s works although it is stopped (%lu more, status %d)", nm.c_str(),
                                                                                 (unsigned long)(w->started - n), (int)w->status.load());
            } else if (o.name == "invoke") {
                std::string pre = PREFIX[std::max<int64_t>(0, o.arg(0)) % 8];
                bool all = o.arg(1);
                std::map<std::string, uint64_t> before;
                size_t matching = 0, slow = 0;
                for (auto& p : ws) {
                    bool sl = p.second->curOptions.sleepDurationMs > 1000;
                    if (running.count(p.first) && sl && !quiet(p.second)) x.fail("worker", "%s never becomes idle", p.first.c_str());
                    before[p.first] = p.second->started;
                    if (p.first.find(pre) != std::string::npos) {
                        if (!running.count(p.first)) p.second->pend = true;
                        matching++;
                        if (running.count(p.first) && sl) slow++;
                    }
                }
                if (mgr->invokeWorker(pre, all).getValue() != Status::OK) x.fail("worker", "invokeWorker failed");
                size_t need = all ? slow : (slow == matching && matching ? 1 : 0);
                if (!all && !need)
                    for (auto& p : ws) if (p.first.find(pre) != std::string::npos) p.second->pend = true;
                auto worked = [&] {
                    size_t k = 0;
                    for (auto& p : ws)
                        if (p.first.find(pre) != std::string::npos && running.count(p.first) && p.second->curOptions.sleepDurationMs > 1000)
                            k += p.second->started > before[p.first];
                    return k;
                };
                if (!within(LIVE_MS, [&] { return worked() >= need; }))
                    x.fail("worker", "invokeWorker(%s, %d) woke %zu of %zu idle workers", pre.c_str(), (int)all, worked(), need);
                if (need) { std::this_thread::sleep_for(std::chrono::microseconds(500)); nInv++; }
                bool anyPend = false;
                for (auto& p : ws) anyPend |= p.second->pend && running.count(p.first);
                if (!all && !anyPend && worked() > 1) x.fail("worker", "invokeWorker(%s, false) woke %zu workers", pre.c_str(), worked());
                for (auto& p : ws) {
                    bool m = p.first.find(pre) != std::string::npos;
                    if (!m && !p.second->pend && running.count(p.first) && p.second->curOptions.sleepDurationMs > 1000 && p.second->started > before[p.first])
                        x.fail("worker", "invokeWorker(%s) woke %s", pre.c_str(), p.first.c_str());
                    if (!running.count(p.first) && !p.second->pend && p.second->started > before[p.first] + 1) x.fail("worker", "%s works although it is stopped", p.first.c_str());
                }
                x.count("op:invoke", need ? 1 : 0);
            } else if (o.name == "config") {
                GlobalConfig ng = g;
                for (int64_t i = 0; i < std::min<int64_t>(5, o.arg(0)); ++i) {
                    ng.numTableWriters = ++cfgVal;
                    if (!mgr->updateGlobalConfig(ng).ok()) x.fail("worker", "updateGlobalConfig failed");
                }
                for (auto& p : ws) {
                    // applied after the current task: at the latest in the second round
                    uint64_t want = cfgVal;
                    bool ok = false;
                    for (int k = 0; k < 3 && !ok; ++k) {
                        p.second->pend = true;
                        p.second->invoke();
                        ok = within(k < 2 ? 50 : LIVE_MS, [&] { return p.second->lastCfg == want; });
                    }
                    if (!ok) x.fail("worker", "%s did not apply the new configuration (has %lu, set %lu)", p.first.c_str(), (unsigned long)p.second->lastCfg, (unsigned long)want);
                }
                x.count("op:config");
            } else if (o.name == "again" && w && running.count(nm) && w->curOptions.sleepDurationMs > 1000) {
                if (!quiet(w)) x.fail("worker", "%s never becomes idle", nm.c_str());
                uint64_t n = w->started, k = std::min<int64_t>(10, std::max<int64_t>(1, o.arg(1)));
                w->again = k;
                w->invoke();
                if (!within(LIVE_MS, [&] { return w->started >= n + k + 1; }))
                    x.fail("worker", "%s asked for %lu more rounds without sleep but did %lu", nm.c_str(), (unsigned long)k, (unsigned long)(w->started - n - 1));
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if (!w->pend && w->started > n + k + 1) x.fail("worker", "%s worked %lu times instead of %lu", nm.c_str(), (unsigned long)(w->started - n), (unsigned long)k + 1);
            } else if (o.name == "storm" && w && running.count(nm)) {
                // an invocation is never lost: some work begins after each of them
                for (int64_t i = 0; i < std::min<int64_t>(100, o.arg(1)); ++i) {
                    uint64_t n = w->started;
                    w->invoke();
                    // (a work begun before may have been counted just now: need one after it)
                    if (!within(LIVE_MS, [&] { return w->started > n; })) x.fail("worker", "an invocation of %s was lost", nm.c_str());
                    nInv++;
                }
            } else if (o.name == "destroy" && w) {
                // the waiting variant needs the worker's timeout to be short
                bool shortSleep = w->curOptions.sleepDurationMs < 1000;
                WorkerBase::DestroyOptions d;
                d.wait = shortSleep;
                w->destroy(d);
                if (!shortSleep) {
                    if (!within(LIVE_MS, [&] { return w->status == WorkerBase::NO_INSTANCE; })) x.fail("worker", "%s does not terminate", nm.c_str());
                }
                if (w->status != WorkerBase::NO_INSTANCE) x.fail("worker", "destroyed worker has status %d", (int)w->status.load());
                uint64_t n = w->started;
                w->run();
                w->invoke();
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if (w->started != n) x.fail("worker", "%s worked after it was destroyed", nm.c_str());
                running.erase(nm);
                // the manager must be able to shut it down again
                w->status = WorkerBase::NO_INSTANCE;
                if (w->handle.joinable()) w->handle.join();
                for (int i = 0; i < 8; ++i) {
                    WorkerBase* got = mgr->getWorker(NAMES[i]);
                    if (got != (ws.count(NAMES[i]) ? ws[NAMES[i]] : nullptr)) x.fail("worker", "getWorker(%s) returned the wrong worker", NAMES[i]);
                }
                // leave the last one to the end of the program
                if (w->started != w->finished) x.fail("worker", "destroyed while working");
                mgr->workers.erase(nm);
                ws.erase(nm);
                delete w;
                continue;
            }
            for (int i = 0; i < 8; ++i) {
                WorkerBase* got = mgr->getWorker(NAMES[i]);
                if (got != (ws.count(NAMES[i]) ? ws[NAMES[i]] : nullptr)) x.fail("worker", "getWorker(%s) returned the wrong worker", NAMES[i]);
            }
            for (auto& p : ws) {
                if (p.second->overlap) x.fail("worker", "%s: work or configuration change overlapped", p.first.c_str());
                if (p.second->badOrder) x.fail("worker", "%s applied an older configuration after a newer one", p.first.c_str());
                if (p.second->isIdle() && p.second->busy) x.fail("worker", "%s reports idle while working", p.first.c_str());
            }
        }
        if (nInv) x.nontrivial();
        x.count("n:invocations", nInv);
        mgr.reset();
    }
    if (alive) x.fail("worker", "%ld workers survived their manager", (long)alive.load());
    DB::shutdown();
}

void addWorkerCheck(std::vector<Check>& v) {
    Check k;
    k.id = "C13";
    k.rule = "programs over up to 8 worker threads (add, run, stop, invoke by name, configuration changes, repeated rounds, destroy) and configuration arithmetic; non-trivial = at least one invocation that had to be answered by work, or a level above 2 or a computed number of writers";
    k.quick_cases = 4000; k.thorough_cases = 60000;
    k.schedule = true;
    k.gen = genWorker;
    k.run = runWorker;
    v.push_back(k);
}
} // namespace vh
