// C09 thread pool, event awaiter and timers; C12 logger.
#include "comp.h"
#include "event_awaiter.h"
#include "internal_helper.h"
#include "logger.h"
#include "simple_thread_pool.h"

#include <dirent.h>
#include <unistd.h>

using namespace jungle;
namespace vh {

// ------------------------------------------------------------------- C09
namespace stp = simple_thread_pool;
using Clk = std::chrono::system_clock;
static int64_t usNow() { return std::chrono::duration_cast<std::chrono::microseconds>(Clk::now().time_since_epoch()).count(); }

static Case genPool(Rng& r, int tier, uint64_t) {
    Case c;
    int kind = (int)r.below(5);
    if (kind == 4) {
        c.add("pingpong", {r.range(1, tier ? 3000 : 500), (int64_t)r.below(2), (int64_t)r.below(4)});
        c.add("await", {r.range(500, 4000), (int64_t)r.below(2)});
        c.add("timer", {r.range(1, 6), (int64_t)r.below(3)});
        return c;
    }
    c.add("cfg.thr", {r.range(0, 5)});
    c.add("cfg.busy", {r.oneOf({0, 0, 50, 100, 300})});
    c.add("cfg.cancelcb", {(int64_t)r.below(2)});
    int n = (int)r.range(1, tier ? 80 : 25);
    int nrec = 0;      // (timers come first: recurring tasks must leave time for others)
    for (int i = 0; i < n; ++i) {
        switch (r.below(8)) {
        case 0: case 1: c.add("task", {0, r.oneOf({0, 0, 0, 50, 500})}); break;                 // one time: interval, run time
        case 2: c.add("task", {r.range(1, 5000), r.oneOf({0, 0, 200})}); break;
        case 3: if (nrec++ < 2) c.add("rec", {r.range(2000, 6000), r.oneOf({0, 0, 200})}); break;
        case 4: c.add("cancel", {(int64_t)r.below(30)}); break;
        case 5: c.add("burst", {r.range(2, 60)}); break;
        case 6: c.add("far", {}); break;                                                        // never due
        case 7: c.add("pause", {r.range(1, 1500)}); break;
        }
    }
    return c;
}
struct PT {
    std::shared_ptr<stp::TaskHandle> h;
    std::atomic<int> ok{0}, canceled{0}, in{0}, early{0}, overlap{0};
    bool rec = false, far = false;
    int cancelRc = -1;
    int64_t added = 0, interval = 0;
};
static void runPool(const Case& c, Ctx& x) {
    bool any = false;
    for (auto& o : c.ops) {
        if (o.name == "pingpong") {
            // two parties hand over a token; a lost wake-up hangs the case
            int64_t n = std::min<int64_t>(100000, o.arg(0));
            auto play = [&](auto& a, auto& b) {
                std::atomic<int64_t> turn{0};
                int jit = (int)o.arg(2);
                std::thread t([&]() {
                    Rng r(x.salt * 3 + 1);
                    for (int64_t i = 0; i < n; ++i) {
                        while (turn.load() != 2 * i + 1) { a.wait(); a.reset(); }
                        if (jit & 1) for (volatile int k = (int)r.below(300); k > 0; k = k - 1) {}
                        turn = 2 * i + 2;
                        b.invoke();
                    }
                });
                Rng r(x.salt * 3 + 2);
                for (int64_t i = 0; i < n; ++i) {
                    turn = 2 * i + 1;
                    a.invoke();
                    if (jit & 2) for (volatile int k = (int)r.below(300); k > 0; k = k - 1) {}
                    while (turn.load() != 2 * i + 2) { b.wait(); b.reset(); }
                }
                t.join();
            };
            if (o.arg(1)) { stp::EventAwaiter a, b; play(a, b); } else { ::EventAwaiter a, b; play(a, b); }
            any = true;
        } else if (o.name == "await") {
            auto play = [&](auto& a) {
                int64_t t0 = usNow();
                a.wait_us(o.arg(0));
                int64_t d = usNow() - t0;
                if (d < o.arg(0) / 2) x.fail("await", "a wait of %lld us without a notification returned after %lld us", (long long)o.arg(0), (long long)d);
                a.reset();
                a.invoke();
                t0 = usNow();
                a.wait_us(3000000);
                if (usNow() - t0 > 2500000) x.fail("await", "a wait after a notification did not return at once");
            };
            if (o.arg(1)) { stp::EventAwaiter a; play(a); } else { ::EventAwaiter a; play(a); }
        } else if (o.name == "timer") {
            Timer t(o.arg(0) * 1000000);
            if (t.timeout() || t.timeoutAndReset()) x.fail("timer", "a timer of %lld s expired at once", (long long)o.arg(0) * 1000);
            Timer u(o.arg(0));
            Timer::sleepUs(o.arg(0) * 1000 + 300);
            if (u.getUs() < (uint64_t)o.arg(0) * 1000 || u.getMs() < (uint64_t)o.arg(0)) x.fail("timer", "elapsed time is too small");
            if (!u.timeout()) x.fail("timer", "timer has not expired");
            if (!u.timeoutAndReset()) x.fail("timer", "timer has not expired");
            u.setDurationMs(60000);
            if (u.timeout() || u.timeoutAndReset()) x.fail("timer", "reset timer has expired");
            if (u.getSec() > 60) x.fail("timer", "elapsed time is too large");
            // suppressed + printed = calls
            VerboseLog vl(1000000);
            vl.timer.tCreated -= std::chrono::hours(1);
            int sup = -1, n = 3 + (int)o.arg(1);
            if (!vl.timer.timeout()) { }
            int printed = 0, total = 0;
            for (int i = 0; i < n; ++i) { int s = 0; if (vl.checkPrint(s)) { printed++; total += s; } }
            sup = vl.numSuppressed;
            if (printed + sup + total < n || printed + sup > n) x.fail("verbose-log", "%d calls, %d printed, %d suppressed", n, printed, sup);
        }
    }
    bool pool = false;
    for (auto& o : c.ops) if (o.name == "task" || o.name == "rec" || o.name == "burst" || o.name == "far") pool = true;
    if (!pool) { if (any) x.nontrivial(); return; }

    std::vector<std::unique_ptr<PT>> ts;
    auto* mgr = new stp::ThreadPoolMgr;
    stp::ThreadPoolOptions po;
    po.numInitialThreads = (size_t)std::min<int64_t>(8, c.cfg("thr"));
    po.busyWaitingIntervalUs = (size_t)c.cfg("busy");
    po.invokeCanceledTask = c.cfg("cancelcb");
    mgr->init(po);
    auto add = [&](int64_t interval, int64_t work, bool rec, bool far) {
        ts.emplace_back(new PT);
        PT* p = ts.back().get();
        p->rec = rec; p->far = far; p->interval = interval;
        p->added = usNow();
        p->h = mgr->addTask([p, work](const stp::TaskResult& tr) {
            if (tr.value() == stp::TaskResult::CANCELED) { p->canceled++; return; }
            if (p->in.fetch_add(1) != 0) p->overlap = 1;
            if (usNow() - p->added < p->interval) p->early = 1;
            if (work) usleep((useconds_t)std::min<int64_t>(work, 2000));
            p->in--;
            p->ok++;
        }, interval, rec ? stp::RECURRING : stp::ONE_TIME);
    };
    int adds = 0;
    for (auto& o : c.ops) {
        if (o.name == "task") { add(std::min<int64_t>(o.arg(0), 20000), o.arg(1), false, false); adds++; }
        else if (o.name == "rec") { add(std::max<int64_t>(2000, std::min<int64_t>(o.arg(0), 20000)), o.arg(1), true, false); adds++; }
        else if (o.name == "burst") for (int64_t i = 0; i < std::min<int64_t>(200, o.arg(0)); ++i) { add(0, 0, false, false); adds++; }
        else if (o.name == "far") { add(3600LL * 1000000, 0, false, true); adds++; }
        else if (o.name == "cancel" && ts.size()) {
            PT* p = ts[o.arg(0) % ts.size()].get();
            int rc = p->h->cancel();
            if (p->rec) { p->cancelRc = 1; if (!rc) x.fail("cancel", "cancelling a recurring task failed"); }
            else if (p->cancelRc == 1) { if (rc) x.fail("cancel", "a task was cancelled twice"); }
            else p->cancelRc = rc;
        }
        else if (o.name == "pause") usleep((useconds_t)std::min<int64_t>(o.arg(0), 5000));
    }
    // everything that is due eventually runs
    int64_t t0 = usNow();
    for (auto& p : ts) {
        if (p->far || p->cancelRc == 1) continue;
        int need = p->rec ? 2 : 1;
        while (p->ok < need) {
            if (usNow() - t0 > 25000000) x.fail("never", "a %s task with interval %lld us ran %d times in 25 s", p->rec ? "recurring" : "one-time", (long long)p->interval, (int)p->ok);
            usleep(100);
        }
    }
    for (auto& p : ts) if (p->rec && p->cancelRc != 1) { p->h->cancel(); p->cancelRc = 1; }
    // quiesce: all threads are back
    for (;;) {
        size_t idle;
        { std::lock_guard<std::mutex> l(mgr->idleThreadsLock); idle = mgr->idleThreads.size(); }
        if (idle >= po.numInitialThreads) {
            bool busy = false;
            for (auto& p : ts) if (p->in) busy = true;
            if (!busy) break;
        }
        if (usNow() - t0 > 40000000) x.fail("idle", "threads of the pool did not become idle");
        usleep(100);
    }
    usleep(300);
    std::vector<int> cnt;
    for (auto& p : ts) cnt.push_back(p->ok);
    usleep(3500);
    for (size_t i = 0; i < ts.size(); ++i) if (ts[i]->ok != cnt[i]) x.fail("after-cancel", "task %zu still runs after it was cancelled or done (%d, then %d)", i, cnt[i], (int)ts[i]->ok);
    for (;;) {
        size_t idle;
        { std::lock_guard<std::mutex> l(mgr->idleThreadsLock); idle = mgr->idleThreads.size(); }
        if (idle >= po.numInitialThreads) break;
        usleep(50);
    }
    mgr->shutdown();
    for (size_t i = 0; i < ts.size(); ++i) {
        PT* p = ts[i].get();
        if (p->early) x.fail("early", "task %zu ran before its interval of %lld us", i, (long long)p->interval);
        if (p->overlap) x.fail("overlap", "task %zu ran twice at the same time", i);
        if (p->rec) continue;
        bool shut = p->far && p->cancelRc != 1;      // cancelled by the shutdown
        bool can = p->cancelRc == 1 || shut;
        if (p->ok != (can ? 0 : 1)) x.fail("once", "task %zu (%s) ran %d times", i, can ? "cancelled" : "not cancelled", (int)p->ok);
        if (p->canceled != (can && po.invokeCanceledTask ? 1 : 0)) x.fail("cancel-cb", "task %zu was told %d times about its cancellation", i, (int)p->canceled);
        if (!p->h->isDone()) x.fail("done", "task %zu is not done", i);
    }
    delete mgr;
    if (adds >= 3) x.nontrivial();
}

// ------------------------------------------------------------------- C12
static Case genLog(Rng& r, int tier, uint64_t) {
    Case c;
    int thr = r.chance(25) ? (int)r.range(2, 6) : 1;
    bool rot = r.chance(20);
    if (r.chance(10)) c.add("cfg.shut", {1});
    c.add("cfg.thr", {thr});
    c.add("cfg.elems", {r.chance(50) ? r.range(2, 12) : r.range(12, 300)});
    c.add("cfg.limit", {rot ? r.range(600, 8000) : 0});
    c.add("cfg.max", {r.chance(50) ? 100 : r.range(1, 3)});
    if (thr > 1) {
        c.add("cfg.each", {r.range(5, tier ? 400 : 120)});
        return c;
    }
    int n = (int)r.range(2, 40);
    for (int i = 0; i < n; ++i) {
        switch (r.below(12)) {
        case 0: c.add("level", {r.range(-1, 7)}); break;
        case 1: c.add("flush"); break;
        case 2: if (!rot || r.chance(30)) c.add("restart"); break;
        case 3: c.add("cb", {(int64_t)r.below(6)}); break;
        case 4: c.add("local", {(int64_t)r.below(6)}); break;
        case 5: c.add("check", {r.range(0, 6)}); break;
        default: c.add("log", {r.range(0, 6), r.chance(80) ? r.range(0, 60) : r.chance(80) ? r.range(0, 3600) : r.range(3600, 9000), r.chance(15) ? r.range(2, 30) : 1, (int64_t)r.below(3)});
        }
    }
    return c;
}
static std::string payload(int64_t id, int64_t len) {
    Rng r(id * 977 + len);
    std::string s;
    for (int64_t i = 0; i < len; ++i) s += "abcdefgh%s%d\\{}_-"[r.below(18) % 17];
    return s;
}
// Content of every file of the logger, oldest first.
static std::string logContent(const std::string& dir, size_t& files) {
    std::map<long, std::pair<std::string, bool>> f;
    files = 0;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.compare(0, 5, "x.log")) continue;
        std::string rest = n.substr(5);
        bool gz = rest.size() >= 7 && rest.substr(rest.size() - 7) == ".tar.gz";
        if (gz) rest = rest.substr(0, rest.size() - 7);
        long num = rest.empty() ? 0 : atol(rest.c_str() + 1);
        if (!f.count(num) || gz) f[num] = {dir + "/" + n, gz};
    }
    closedir(d);
    std::string all;
    for (auto& e : f) {
        files++;
        FILE* p = e.second.second ? popen(("tar xzOf " + e.second.first + " 2>/dev/null").c_str(), "r") : fopen(e.second.first.c_str(), "r");
        if (!p) continue;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, p)) > 0) all.append(b, n);
        if (e.second.second) pclose(p); else fclose(p);
    }
    return all;
}
static void runLog(const Case& c, Ctx& x) {
    int thr = (int)std::min<int64_t>(8, c.cfg("thr", 1));
    std::string path = x.dir + "/x.log";
    size_t elems = (size_t)std::max<int64_t>(2, c.cfg("elems", 16));
    uint64_t limit = c.cfg("limit");
    uint32_t maxf = (uint32_t)std::max<int64_t>(1, c.cfg("max", 100));
    auto mk = [&]() { auto* l = new SimpleLogger(path, elems, limit, maxf); l->start(); l->setLogLevel(6); l->setDispLevel(-1); return l; };
    static const char* LV[] = {"====", "FATL", "ERRO", "WARN", "INFO", "DEBG", "TRAC"};
    struct Ex { int level; std::string text; bool want; bool longer; };
    std::vector<Ex> ex;
    SimpleLogger* l = mk();
    int logged = 0;
    if (thr > 1) {
        int64_t each = std::min<int64_t>(2000, c.cfg("each", 10));
        std::vector<std::thread> th;
        for (int t = 0; t < thr; ++t) th.emplace_back([&, t]() {
            for (int64_t i = 0; i < each; ++i) _log_info(l, "<t%d.%lld.%s>", t, (long long)i, payload(i, (i * 7 + t) % 40).c_str());
        });
        for (auto& t : th) t.join();
        delete l;
        size_t files = 0;
        std::string all = logContent(x.dir, files);
        bool full = limit == 0 || maxf >= 100;
        for (int t = 0; t < thr && full; ++t) for (int64_t i = 0; i < each; ++i) {
            std::string w = strf("<t%d.%lld.%s>", t, (long long)i, payload(i, (i * 7 + t) % 40).c_str());
            size_t p = all.find(w);
            if (p == std::string::npos) x.fail("lost", "message %lld of thread %d of %d is not in the log (%zu slots)", (long long)i, t, thr, elems);
            if (all.find(w, p + 1) != std::string::npos) x.fail("twice", "message %lld of thread %d is in the log twice", (long long)i, t);
        }
        if (c.cfg("shut")) SimpleLogger::shutdown();
        x.nontrivial();
        return;
    }
    int level = 6;
    int64_t id = 0;
    // global / local callbacks: bit 0 pre-callback answer, bit 1 callback
    // answer, 4/5: none
    int g = 4;
    struct Seen { int pre = 0, cb = 0; std::string msg; int level = -1; size_t ctx = 0; };
    Seen gs, ls;
    auto pre = [](Seen& s, int mode) { return [&s, mode](int, const char*, const char*, size_t, const SimpleLogger::CtxMap&) { s.pre++; return (mode & 1) != 0; }; };
    auto cb = [](Seen& s, int mode) { return [&s, mode](int lv, const char*, const char*, size_t, uint64_t, uint32_t, size_t n, const char* m, const SimpleLogger::CtxMap& cm) { s.cb++; s.msg = m; s.level = lv; s.ctx = cm.size(); (void)n; return (mode & 2) != 0; }; };
    int lo = 4;
    for (auto& o : c.ops) {
        if (o.name == "level") {
            int lv = (int)o.arg(0);
            l->setLogLevel(lv);
            if (lv <= 6) level = lv;
            if (l->getLogLevel() != level) x.fail("level", "log level is %d, expected %d", l->getLogLevel(), level);
            if (l->traceAllowed() != (level >= 6) || l->debugAllowed() != (level >= 5)) x.fail("level", "level predicates are wrong at %d", level);
        } else if (o.name == "flush") {
            l->flushAll();
            if (limit == 0) {
                size_t files; std::string all = logContent(x.dir, files);
                if (!ex.empty() && ex.back().want && !ex.back().longer && all.find(ex.back().text) == std::string::npos) x.fail("flush", "the last message is not in the file after a flush");
            }
        } else if (o.name == "restart") {
            delete l;
            l = mk();
            level = 6; g = 4;
        } else if (o.name == "cb") {
            g = (int)o.arg(0);
            if (g >= 4) l->setGlobalCallback(nullptr, nullptr);
            else l->setGlobalCallback(pre(gs, g), cb(gs, g));
        } else if (o.name == "local") {
            lo = (int)o.arg(0);
        } else if (o.name == "check") {
            int lv = (int)o.arg(0);
            gs.pre = 0;
            bool w = l->checkWhetherToLog(lv, "f", "g", 1);
            bool want = lv <= level || (g < 4 && (g & 1));
            if (w != want) x.fail("gate", "a level-%d message at log level %d with callback mode %d %s", lv, level, g, w ? "is let through" : "is dropped");
        } else if (o.name == "log") {
            int lv = (int)std::max<int64_t>(0, std::min<int64_t>(6, o.arg(0)));
            for (int64_t k = 0; k < std::min<int64_t>(64, o.arg(2, 1)); ++k) {
                std::string text = "<" + std::to_string(id) + ":" + payload(id, std::min<int64_t>(o.arg(1), 9000)) + ">";
                ++id;
                gs = Seen(); ls = Seen();
                {
                    std::unique_ptr<SimpleLoggerLocalCtx> ctx;
                    if (lo < 4) { SimpleLogger::CtxMap cm; cm["k"].push_back("v"); ctx.reset(new SimpleLoggerLocalCtx(l, cm, pre(ls, lo), cb(ls, lo))); }
                    switch (o.arg(3)) {
                    case 1: switch (lv) { case 0: _s_sys(l) << text; break; case 1: _s_fatal(l) << text; break; case 2: _s_err(l) << text; break; case 3: _s_warn(l) << text; break; case 4: _s_info(l) << text; break; case 5: _s_debug(l) << text; break; default: _s_trace(l) << text; } break;
                    default: _log_(lv, l, "%s", text.c_str());
                    }
                }
                bool has = lo < 4 || g < 4;
                int mode = lo < 4 ? lo : g;
                Seen& s = lo < 4 ? ls : gs;
                Seen& other = lo < 4 ? gs : ls;
                if (lo < 4 && (other.cb)) x.fail("callback", "the global callback was called although a local one overrides it");
                bool called = has && (mode & 1);
                if (s.cb != (called ? 1 : 0)) x.fail("callback", "a level-%d message at level %d: callback (mode %d) was called %d times", lv, level, mode, s.cb);
                if (called && (s.level != lv || (text.size() < 4000 ? s.msg != text : s.msg.compare(0, 4000, text, 0, 4000) != 0))) x.fail("callback", "the callback was given another message or level");
                if (called && s.ctx != (lo < 4 ? 1u : 0u)) x.fail("callback", "the callback was given %zu context entries", s.ctx);
                bool want = lv <= level && !(called && !(mode & 2));
                ex.push_back({lv, text, want, text.size() > 3700});
                if (want) logged++;
            }
        }
    }
    delete l;
    if (c.cfg("shut")) SimpleLogger::shutdown();
    size_t files = 0;
    std::string all = logContent(x.dir, files);
    if (files > maxf + 1) x.fail("files", "%zu log files are kept, the limit is %u plus the current one", files, maxf);
    bool full = limit == 0 || files < maxf + 1;
    size_t pos = 0;
    bool seenOne = false;
    for (auto& e : ex) {
        std::string w = e.longer ? e.text.substr(0, 3700) : e.text;
        size_t p = all.find(w);
        if (!e.want) {
            std::string tag = e.text.substr(0, e.text.find(':') + 1);
            if (all.find(tag) != std::string::npos) x.fail("gate", "a message that should not be logged (%s) is in the log", hex(tag).c_str());
            continue;
        }
        if (p == std::string::npos) {
            if (full || seenOne) x.fail("lost", "message %.12s of level %d is not in the log (%zu files, limit %u)", e.text.c_str(), e.level, files, maxf);
            continue;       // in a file that was removed
        }
        seenOne = true;
        if (p < pos) x.fail("order", "message %.12s is out of order", e.text.c_str());
        pos = p;
        std::string tag = std::string("[") + LV[e.level] + "] ";
        if (p < tag.size() || all.compare(p - tag.size(), tag.size(), tag)) x.fail("tag", "message %.12s does not have level tag %s", e.text.c_str(), LV[e.level]);
        if (!e.longer) {
            size_t nl = all.find('\n', p);
            if (nl == std::string::npos) x.fail("line", "message %.12s is not followed by the end of the line", e.text.c_str());
            std::string tail = all.substr(p + w.size(), nl - p - w.size());
            if (tail.compare(0, 2, "\t[") || tail.find("p_pool.cc:") == std::string::npos || tail.find("runLog()") == std::string::npos) x.fail("line", "message %.12s is followed by '%.60s'", e.text.c_str(), tail.c_str());
        }
        if (all.find(w, p + 1) != std::string::npos) x.fail("twice", "message %.12s is in the log twice", e.text.c_str());
    }
    if (logged >= 3) x.nontrivial();
}

void regPool(std::vector<Check>& v) {
    Check p;
    p.id = "C09"; p.rule = "at least 3 tasks were given to the pool, or two threads handed over a token";
    p.quick_cases = 4000; p.thorough_cases = 120000; p.batch = 20; p.schedule = true; p.needs_dir = false; p.hang_s = 90; p.workers = 8;
    p.gen = genPool; p.run = runPool;
    v.push_back(p);
    Check l;
    l.id = "C12"; l.rule = "several threads logged, or at least 3 messages had to reach the file";
    l.quick_cases = 8000; l.thorough_cases = 250000; l.batch = 20; l.schedule = true;
    l.gen = genLog; l.run = runLog;
    v.push_back(l);
}
} // namespace vh
