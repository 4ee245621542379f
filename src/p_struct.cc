// C06 skip list, C07 AVL tree, C08 Bloom filter, bitmap and lookup booster.
#include "comp.h"
#include "avltree.h"
#include "bloomfilter.h"
#include "murmurhash3.h"
#include "skiplist.h"
#include "table_lookup_booster.h"

#include <atomic>
#include <cmath>
#include <memory>
#include <thread>

using namespace jungle;
namespace vh {

// ------------------------------------------------------------------- C06
struct SN { skiplist_node n; int64_t key; int64_t id; };
static int snCmp(skiplist_node* a, skiplist_node* b, void* aux) {
    int64_t x = _get_entry(a, SN, n)->key, y = _get_entry(b, SN, n)->key;
    int r = x < y ? -1 : x > y;
    return aux ? -r : r;
}
static SN* mk(int64_t key, int64_t id) {
    SN* s = new SN;
    skiplist_init_node(&s->n);
    s->key = key; s->id = id;
    return s;
}
static SN* ent(skiplist_node* n) { return n ? _get_entry(n, SN, n) : nullptr; }
static Case genSkip(Rng& r, int tier, uint64_t) {
    Case c;
    int thr = r.chance(35) ? (int)r.range(2, 6) : 1;
    c.add("cfg.thr", {thr});
    c.add("cfg.desc", {r.chance(30)});
    c.add("cfg.fanout", {r.oneOf({2, 4, 4, 8})});
    c.add("cfg.layers", {r.oneOf({2, 4, 12, 12})});
    c.add("cfg.seed", {(int64_t)r.below(100000)});
    c.add("cfg.dup", {thr == 1 && r.chance(25)});
    if (thr > 1) {
        c.add("cfg.shared", {(int64_t)r.below(3)});
        c.add("cfg.nops", {r.range(50, tier ? 3000 : 600)});
        c.add("cfg.keys", {r.oneOf({4, 16, 64, 300})});
        c.add("cfg.stable", {r.range(0, 40)});
        c.add("cfg.pert", {r.oneOf({0, 0, 10, 40, 150})});
        return c;
    }
    int nk = (int)r.oneOf({3, 8, 30, 200});
    int n = (int)r.range(5, tier ? 500 : 150);
    for (int i = 0; i < n; ++i) {
        int64_t k = r.below(nk) * 2 + (r.chance(15) ? 1 : 0);
        switch (r.weighted({28, 12, 10, 10, 8, 8, 8, 8, 6, 2})) {
        case 0: c.add("ins", {k}); break;
        case 1: c.add("erase", {k}); break;
        case 2: c.add("find", {k}); break;
        case 3: c.add("sm", {k}); break;
        case 4: c.add("gt", {k}); break;
        case 5: c.add("next", {k}); break;
        case 6: c.add("prev", {k}); break;
        case 7: c.add("erasen", {k}); break;
        case 8: c.add("ends"); break;
        case 9: c.add("fill", {k, r.range(1, 40)}); break;
        }
    }
    return c;
}
extern "C" { extern volatile int vh_perturb; extern volatile uint64_t vh_perturb_seed; extern volatile int64_t vh_perturb_budget; }
static void skipThreads(const Case& c, Ctx& x) {
    struct Pt { ~Pt() { vh_perturb = 0; } } pt;
    skiplist_raw sl;
    skiplist_init(&sl, snCmp);
    skiplist_raw_config cf = skiplist_get_default_config();
    cf.fanout = std::max<int64_t>(2, c.cfg("fanout", 4));
    cf.maxLayer = std::max<int64_t>(2, c.cfg("layers", 12));
    bool desc = c.cfg("desc");
    cf.aux = desc ? &sl : nullptr;
    skiplist_set_config(&sl, cf);
    int T = (int)std::min<int64_t>(8, std::max<int64_t>(2, c.cfg("thr", 2)));
    int64_t nops = std::min<int64_t>(c.cfg("nops", 100), c.cfg("pert") ? 150 : 100000), nk = std::max<int64_t>(1, c.cfg("keys", 16));
    int shared = (int)c.cfg("shared");
    // Keys are congruent to their owner modulo T+2: owner T holds keys nobody
    // touches, owner T+1 the keys everybody inserts and erases.
    std::vector<SN*> stable;
    for (int64_t i = 0; i < c.cfg("stable"); ++i) {
        SN* s = mk(i * 7 * (T + 2) + T, i);
        skiplist_insert(&sl, &s->n);
        stable.push_back(s);
    }
    std::atomic<int> go{0}, bad{0};
    std::string msg[10];
    std::vector<std::map<int64_t, SN*>> own(T);
    std::vector<std::vector<SN*>> dead(T), sharedNodes(T);
    std::atomic<int64_t> sharedCnt[400];
    for (auto& a : sharedCnt) a = 0;
    auto body = [&](int t) {
        Rng r(c.cfg("seed") * 1000 + t + x.salt * 77777);
        go++;
        while (go < T) {}
        auto err = [&](const std::string& m) { if (!bad.exchange(t + 1)) msg[t] = m; };
        for (int64_t i = 0; i < nops && !bad; ++i) {
            int64_t key = (int64_t)r.below(nk) * (T + 2) + t;
            auto& mine = own[t];
            SN q; skiplist_init_node(&q.n); q.key = key;
            int act = (int)r.below(shared ? 9 : 7);
            if (act <= 2) {
                SN* s = mk(key, i);
                int rc = skiplist_insert_nodup(&sl, &s->n);
                if ((rc == 0) != !mine.count(key)) err(strf("insert of key %lld returned %d although the key was %s", (long long)key, rc, mine.count(key) ? "present" : "absent"));
                if (rc == 0) mine[key] = s; else { skiplist_free_node(&s->n); delete s; }
            } else if (act <= 4) {
                auto f = mine.find(key);
                int rc = skiplist_erase(&sl, &q.n);
                if ((rc == 0) != (f != mine.end())) err(strf("erase of key %lld returned %d although the key was %s", (long long)key, rc, f != mine.end() ? "present" : "absent"));
                if (f != mine.end()) { dead[t].push_back(f->second); mine.erase(f); }
            } else if (act == 5) {
                skiplist_node* n = skiplist_find(&sl, &q.n);
                SN* e = ent(n);
                auto f = mine.find(key);
                if ((e != nullptr) != (f != mine.end()) || (e && e != f->second)) err(strf("find of key %lld is wrong", (long long)key));
                if (n) skiplist_release_node(n);
            } else if (act == 6) {
                // a scan sees an ordered sequence with every untouched key
                int64_t last = 0; bool first = true; size_t seen = 0;
                std::map<int64_t, SN*> todo = mine;
                skiplist_node* n = skiplist_begin(&sl);
                while (n) {
                    SN* e = ent(n);
                    int64_t kk = e->key;
                    // (a key erased and inserted again under the scan may be seen twice)
                    if (!first && (desc ? kk > last : kk < last)) err(strf("scan is not ordered: %lld after %lld", (long long)kk, (long long)last));
                    last = kk; first = false;
                    if (kk % (T + 2) == T) seen++;
                    if (kk % (T + 2) == t) todo.erase(kk);
                    skiplist_node* nx = skiplist_next(&sl, n);
                    skiplist_release_node(n);
                    n = nx;
                }
                if (seen != stable.size()) err(strf("scan saw %zu of %zu untouched keys", seen, stable.size()));
                if (!todo.empty()) err(strf("scan of the only writer of key %lld missed it", (long long)todo.begin()->first));
            } else {
                int64_t sk = (int64_t)r.below(std::min<int64_t>(nk, 16));
                q.key = sk * (T + 2) + T + 1;
                if (act == 7) {
                    SN* s = mk(q.key, i);
                    if (skiplist_insert_nodup(&sl, &s->n) == 0) { sharedCnt[sk]++; sharedNodes[t].push_back(s); }
                    else { skiplist_free_node(&s->n); delete s; }
                } else if (shared == 2) {
                    if (skiplist_erase(&sl, &q.n) == 0) sharedCnt[sk]--;
                }
            }
            skiplist_free_node(&q.n);
        }
    };
    std::vector<std::thread> th;
    vh_perturb_seed = c.cfg("seed") * 131 + x.salt + 1;
    vh_perturb_budget = 4000;
    vh_perturb = (int)c.cfg("pert");
    for (int t = 0; t < T; ++t) th.emplace_back(body, t);
    for (auto& t : th) t.join();
    vh_perturb = 0;
    if (bad) x.fail("concurrent", "%s", msg[bad - 1].c_str());
    std::map<int64_t, SN*> want;
    for (auto* s : stable) want[s->key] = s;
    for (auto& m : own) for (auto& kv : m) want[kv.first] = kv.second;
    size_t live = want.size();
    for (int64_t i = 0; i < 400; ++i) {
        int64_t v = sharedCnt[i];
        if (v != 0 && v != 1) x.fail("shared", "contended key %lld was inserted %lld times more often than erased", (long long)i, (long long)v);
        live += v;
    }
    if (skiplist_get_size(&sl) != live) x.fail("size", "size is %zu, expected %zu", skiplist_get_size(&sl), live);
    size_t got = 0;
    std::set<int64_t> seen;
    for (skiplist_node* n = skiplist_begin(&sl); n;) {
        SN* e = ent(n);
        got++;
        if (!seen.insert(e->key).second) x.fail("dup", "key %lld is in the list twice", (long long)e->key);
        auto f = want.find(e->key);
        if (e->key % (T + 2) == T + 1) { if (sharedCnt[e->key / (T + 2)] != 1) x.fail("shared", "erased key %lld is still in the list", (long long)e->key); }
        else if (f == want.end() || f->second != e) x.fail("final", "key %lld should not be in the list", (long long)e->key);
        skiplist_node* nx = skiplist_next(&sl, n);
        skiplist_release_node(n);
        n = nx;
    }
    if (got != live) x.fail("final", "the list holds %zu keys, expected %zu", got, live);
    for (auto& d : dead) for (auto* s : d) {
        if (!skiplist_is_safe_to_free(&s->n)) x.fail("refcount", "an erased node of key %lld is never safe to free", (long long)s->key);
        skiplist_free_node(&s->n);
        delete s;
    }
    for (auto& kv : want) {
        if (skiplist_erase_node(&sl, &kv.second->n)) x.fail("erase-node", "erasing key %lld at the end failed", (long long)kv.first);
        if (!skiplist_is_safe_to_free(&kv.second->n)) x.fail("refcount", "node of key %lld is never safe to free", (long long)kv.first);
        skiplist_free_node(&kv.second->n);
        delete kv.second;
    }
    for (auto& d : sharedNodes) for (auto* s : d) {
        if (skiplist_is_valid_node(&s->n)) skiplist_erase_node(&sl, &s->n);
        if (!skiplist_is_safe_to_free(&s->n)) x.fail("refcount", "node of contended key is never safe to free");
        skiplist_free_node(&s->n);
        delete s;
    }
    if (skiplist_get_size(&sl)) x.fail("size", "size of the emptied list is %zu", skiplist_get_size(&sl));
    skiplist_free(&sl);
    x.nontrivial();
    x.count("n:concurrent");
}
static void runSkip(const Case& c, Ctx& x) {
    srand((unsigned)c.cfg("seed"));
    if (c.cfg("thr", 1) > 1) { skipThreads(c, x); return; }
    skiplist_raw sl;
    skiplist_init(&sl, snCmp);
    skiplist_raw_config cf = skiplist_get_default_config();
    cf.fanout = std::max<int64_t>(2, c.cfg("fanout", 4));
    cf.maxLayer = std::max<int64_t>(2, c.cfg("layers", 12));
    bool desc = c.cfg("desc"), dup = c.cfg("dup");
    cf.aux = desc ? &sl : nullptr;
    skiplist_set_config(&sl, cf);
    skiplist_raw_config back = skiplist_get_config(&sl);
    if (back.fanout != cf.fanout || back.maxLayer != cf.maxLayer || back.aux != cf.aux) x.fail("config", "configuration reads back differently");
    std::multimap<int64_t, SN*> m;         // keyed by order (negated when descending)
    auto K = [&](int64_t k) { return desc ? -k : k; };
    int64_t id = 0;
    int n_ins = 0, n_er = 0, n_q = 0;
    auto inIt = [&](SN* e, int64_t k) { auto r = m.equal_range(K(k)); for (auto i = r.first; i != r.second; ++i) if (i->second == e) return true; return false; };
    auto rel = [&](skiplist_node* n) { if (n) skiplist_release_node(n); };
    auto gone = [&](SN* s) {
        if (skiplist_is_valid_node(&s->n)) x.fail("valid", "erased node is still valid");
        if (!skiplist_is_safe_to_free(&s->n)) x.fail("refcount", "erased node of key %lld is not safe to free although nobody uses it", (long long)s->key);
        skiplist_free_node(&s->n);
        delete s;
    };
    for (auto& o : c.ops) {
        if (o.name.compare(0, 4, "cfg.") == 0) continue;
        int64_t k = o.arg(0);
        SN q; skiplist_init_node(&q.n); q.key = k;
        auto eq = m.equal_range(K(k));
        bool present = eq.first != eq.second;
        if (o.name == "ins" || o.name == "fill") {
            int64_t cnt = o.name == "fill" ? o.arg(1) : 1;
            for (int64_t j = 0; j < cnt; ++j) {
                int64_t kk = k + 2 * j;
                bool p = m.count(K(kk));
                SN* s = mk(kk, id++);
                int rc = dup ? skiplist_insert(&sl, &s->n) : skiplist_insert_nodup(&sl, &s->n);
                if (!dup && p) { if (rc == 0) x.fail("nodup", "duplicate key %lld was accepted", (long long)kk); skiplist_free_node(&s->n); delete s; }
                else { if (rc) x.fail("insert", "insert of key %lld returned %d", (long long)kk, rc); m.emplace(K(kk), s); if (!skiplist_is_valid_node(&s->n)) x.fail("valid", "inserted node is not valid"); n_ins++; }
            }
        } else if (o.name == "erase") {
            std::vector<SN*> before;
            for (auto i = eq.first; i != eq.second; ++i) before.push_back(i->second);
            int rc = skiplist_erase(&sl, &q.n);
            if ((rc == 0) != present) x.fail("erase", "erase of %s key %lld returned %d", present ? "a present" : "an absent", (long long)k, rc);
            if (present) {
                SN* vic = nullptr;
                for (auto* s : before) if (!skiplist_is_valid_node(&s->n)) { if (vic) x.fail("erase", "erase removed two nodes"); vic = s; }
                if (!vic) x.fail("erase", "erase removed nothing");
                for (auto i = eq.first; i != eq.second; ++i) if (i->second == vic) { m.erase(i); break; }
                gone(vic);
                n_er++;
            }
        } else if (o.name == "erasen") {
            if (present) {
                SN* s = eq.first->second;
                int rc = skiplist_erase_node(&sl, &s->n);
                if (rc) x.fail("erase-node", "erase_node returned %d", rc);
                m.erase(eq.first);
                if (skiplist_erase_node(&sl, &s->n) == 0) x.fail("erase-node", "erasing a node twice succeeded");
                gone(s);
                n_er++;
            }
        } else if (o.name == "find") {
            skiplist_node* n = skiplist_find(&sl, &q.n);
            if ((n != nullptr) != present || (n && !inIt(ent(n), k))) x.fail("find", "find of key %lld is wrong", (long long)k);
            rel(n); n_q++;
        } else if (o.name == "sm" || o.name == "gt") {
            bool sm = o.name == "sm";
            skiplist_node* n = sm ? skiplist_find_smaller_or_equal(&sl, &q.n) : skiplist_find_greater_or_equal(&sl, &q.n);
            bool has = true; int64_t want = 0;
            if (present) want = K(k);
            else if (sm) { auto i = m.lower_bound(K(k)); if (i == m.begin()) has = false; else want = std::prev(i)->first; }
            else { auto i = m.lower_bound(K(k)); if (i == m.end()) has = false; else want = i->first; }
            if ((n != nullptr) != has || (n && K(ent(n)->key) != want)) x.fail(sm ? "smaller" : "greater", "nearest to key %lld is %s%lld, expected %s%lld", (long long)k, n ? "" : "nothing ", n ? (long long)ent(n)->key : 0LL, has ? "" : "nothing ", has ? (long long)K(want) : 0LL);
            if (n && !inIt(ent(n), ent(n)->key)) x.fail("stale", "a removed node was returned");
            rel(n); n_q++;
        } else if (o.name == "next" || o.name == "prev") {
            if (!present) { skiplist_free_node(&q.n); continue; }
            SN* s = eq.first->second;
            bool nx = o.name == "next";
            skiplist_node* n = nx ? skiplist_next(&sl, &s->n) : skiplist_prev(&sl, &s->n);
            bool dupKey = std::distance(eq.first, eq.second) > 1;
            bool has; int64_t want = 0;
            if (nx) { has = eq.second != m.end(); if (has) want = eq.second->first; }
            else { has = eq.first != m.begin(); if (has) want = std::prev(eq.first)->first; }
            if (nx && dupKey && n && K(ent(n)->key) == K(k)) {}
            else if ((n != nullptr) != has || (n && K(ent(n)->key) != want)) x.fail(nx ? "next" : "prev", "%s of key %lld is wrong", o.name.c_str(), (long long)k);
            rel(n); n_q++;
        } else if (o.name == "ends") {
            skiplist_node* b = skiplist_begin(&sl);
            skiplist_node* e = skiplist_end(&sl);
            if ((b != nullptr) != !m.empty() || (b && K(ent(b)->key) != m.begin()->first)) x.fail("begin", "begin is wrong");
            if ((e != nullptr) != !m.empty() || (e && K(ent(e)->key) != m.rbegin()->first)) x.fail("end", "end is wrong");
            rel(b); rel(e); n_q++;
        }
        skiplist_free_node(&q.n);
        if (skiplist_get_size(&sl) != m.size()) x.fail("size", "size is %zu, expected %zu", skiplist_get_size(&sl), m.size());
        size_t cnt = 0;
        auto it = m.begin();
        for (skiplist_node* n = skiplist_begin(&sl); n;) {
            if (it == m.end() || K(ent(n)->key) != it->first) x.fail("scan", "after %s: position %zu holds key %lld", o.name.c_str(), cnt, (long long)ent(n)->key);
            ++it; ++cnt;
            skiplist_node* nx = skiplist_next(&sl, n);
            skiplist_release_node(n);
            n = nx;
        }
        if (cnt != m.size()) x.fail("scan", "after %s: scan returned %zu of %zu keys", o.name.c_str(), cnt, m.size());
    }
    for (auto& kv : m) { if (skiplist_erase_node(&sl, &kv.second->n)) x.fail("erase-node", "erase at the end failed"); gone(kv.second); }
    skiplist_free(&sl);
    if (n_ins >= 3 && (n_er || n_q)) x.nontrivial();
}

// ------------------------------------------------------------------- C07
struct AN { avl_node n; int64_t key; };
static int anCmp(avl_node* a, avl_node* b, void* aux) {
    int64_t x = _get_entry(a, AN, n)->key, y = _get_entry(b, AN, n)->key;
    int r = x < y ? -1 : x > y;
    return aux ? -r : r;
}
static Case genAvl(Rng& r, int tier, uint64_t) {
    Case c;
    c.add("cfg.desc", {r.chance(30)});
    int nk = (int)r.oneOf({3, 8, 30, 120, 1000});
    int n = (int)r.range(5, tier ? 600 : 200);
    int bias = (int)r.range(25, 75);
    if (r.chance(30)) c.add("run", {(int64_t)r.below(50), r.range(1, 120), r.oneOf({1, -1, 3})});
    for (int i = 0; i < n; ++i) {
        int64_t k = r.below(nk) * 2 + r.chance(10);
        switch (r.weighted({bias, 100 - bias, 8, 12, 12, 10, 10})) {
        case 0: c.add("ins", {k}); break;
        case 1: c.add("rem", {k}); break;
        case 2: c.add("find", {k}); break;
        case 3: c.add("gt", {k}); break;
        case 4: c.add("sm", {k}); break;
        case 5: c.add("next", {k}); break;
        case 6: c.add("prev", {k}); break;
        }
    }
    return c;
}
static int avlDeep(Ctx& x, avl_node* n, avl_node* parent, int64_t& cnt) {
    if (!n) return 0;
    if (avl_parent(n) != parent) x.fail("structure", "parent pointer of key %lld is wrong", (long long)_get_entry(n, AN, n)->key);
    cnt++;
    int l = avlDeep(x, n->left, n, cnt), r = avlDeep(x, n->right, n, cnt);
    if (r - l > 1 || l - r > 1) x.fail("balance", "subtree of key %lld has heights %d and %d", (long long)_get_entry(n, AN, n)->key, l, r);
    if (avl_bf(n) != r - l) x.fail("balance", "balance factor of key %lld is %d, its subtrees have heights %d and %d", (long long)_get_entry(n, AN, n)->key, avl_bf(n), l, r);
    return 1 + std::max(l, r);
}
static void runAvl(const Case& c, Ctx& x) {
    avl_tree t;
    bool desc = c.cfg("desc");
    avl_init(&t, nullptr);
    avl_set_aux(&t, desc ? &t : nullptr);
    std::map<int64_t, AN*> m;
    auto K = [&](int64_t k) { return desc ? -k : k; };
    int n_ins = 0, n_rem = 0, mx = 0;
    auto key = [&](avl_node* n) { return _get_entry(n, AN, n)->key; };
    auto same = [&](avl_node* n, std::map<int64_t, AN*>::iterator i, const char* what, int64_t k) {
        bool has = i != m.end();
        if ((n != nullptr) != has || (n && n != &i->second->n)) x.fail(what, "%s of key %lld is %s%lld, expected %s%lld", what, (long long)k, n ? "" : "nothing ", n ? (long long)key(n) : 0LL, has ? "" : "nothing ", has ? (long long)i->second->key : 0LL);
    };
    for (auto& o : c.ops) {
        if (o.name.compare(0, 4, "cfg.") == 0) continue;
        int64_t k = o.arg(0);
        AN q; memset(&q, 0, sizeof q); q.key = k;
        auto f = m.find(K(k));
        if (o.name == "ins" || o.name == "run") {
            int64_t cnt = o.name == "run" ? std::min<int64_t>(o.arg(1), 500) : 1;
            for (int64_t j = 0; j < cnt; ++j) {
                AN* a = new AN; memset(a, 0, sizeof *a); a->key = k + j * o.arg(2);
                auto g = m.find(K(a->key));
                avl_node* r = avl_insert(&t, &a->n, anCmp);
                if (g != m.end()) { if (r != &g->second->n) x.fail("insert", "insert of duplicate key %lld did not return the existing node", (long long)a->key); delete a; }
                else { if (r != &a->n) x.fail("insert", "insert of key %lld did not return the node", (long long)a->key); m[K(a->key)] = a; n_ins++; }
            }
        } else if (o.name == "rem") {
            if (f != m.end()) { avl_remove(&t, &f->second->n); delete f->second; m.erase(f); n_rem++; }
            else avl_remove(&t, nullptr);
        } else if (o.name == "find") same(avl_search(&t, &q.n, anCmp), f, "find", k);
        else if (o.name == "gt") same(avl_search_greater(&t, &q.n, anCmp), m.lower_bound(K(k)), "greater", k);
        else if (o.name == "sm") { auto i = m.upper_bound(K(k)); same(avl_search_smaller(&t, &q.n, anCmp), i == m.begin() ? m.end() : std::prev(i), "smaller", k); }
        else if (o.name == "next" && f != m.end()) same(avl_next(&f->second->n), std::next(f), "next", k);
        else if (o.name == "prev" && f != m.end()) same(avl_prev(&f->second->n), f == m.begin() ? m.end() : std::prev(f), "prev", k);
        int64_t cnt = 0;
        avlDeep(x, t.root, nullptr, cnt);
        if (cnt != (int64_t)m.size()) x.fail("count", "tree holds %lld nodes, expected %zu", (long long)cnt, m.size());
        same(avl_first(&t), m.begin(), "first", 0);
        same(avl_last(&t), m.empty() ? m.end() : std::prev(m.end()), "last", 0);
        auto i = m.begin();
        for (avl_node* n = avl_first(&t); n; n = avl_next(n), ++i) { if (i == m.end()) x.fail("scan", "forward scan is too long"); same(n, i, "forward scan", i->first); }
        if (i != m.end()) x.fail("scan", "forward scan stops early");
        auto j = m.rbegin();
        for (avl_node* n = avl_last(&t); n; n = avl_prev(n), ++j) { if (j == m.rend()) x.fail("scan", "backward scan is too long"); if (n != &j->second->n) x.fail("scan", "backward scan is wrong"); }
        if (j != m.rend()) x.fail("scan", "backward scan stops early");
        mx = std::max<int>(mx, (int)m.size());
    }
    for (auto& kv : m) delete kv.second;
    if (n_ins >= 5 && n_rem >= 1) x.nontrivial();
    x.count("n:removals", n_rem);
}

// ------------------------------------------------------------------- C08
static Case genBloom(Rng& r, int tier, uint64_t) {
    Case c;
    int what = (int)r.below(3);
    c.add("cfg.what", {what});
    c.add("cfg.seed", {(int64_t)r.below(1000000)});
    if (what == 0) {
        c.add("cfg.bits", {r.chance(50) ? r.range(1, 600) : r.range(64, 40000)});
        c.add("cfg.hashes", {r.range(1, 6)});
        c.add("cfg.thr", {r.chance(15) ? r.range(2, 4) : 1});
        int n = (int)r.range(1, tier ? 120 : 50);
        for (int i = 0; i < n; ++i) switch (r.weighted({60, 20, 6, 6, 6})) {
            case 0: c.add("set", {(int64_t)r.below(100000), r.chance(10) ? 0 : r.range(1, 60)}); break;
            case 1: c.add("setp", {(int64_t)r.below(100000), r.range(1, 60)}); break;
            case 2: c.add("export"); break;
            case 3: c.add("move"); break;
            case 4: c.add("copy"); break;
        }
    } else if (what == 1) {
        c.add("cfg.bits", {r.range(1, 3000)});
        c.add("cfg.thr", {r.chance(25) ? r.range(2, 6) : 1});
        int n = (int)r.range(3, 120);
        for (int i = 0; i < n; ++i) c.add(r.chance(75) ? "b" : "g", {(int64_t)r.below(1 << 20), (int64_t)r.chance(65)});
        if (r.chance(40)) c.add("clone");
    } else {
        c.add("cfg.slots", {r.oneOf({1, 2, 7, 17, 64, 331})});
        int n = (int)r.range(3, 200), nh = (int)r.oneOf({2, 8, 40, 400});
        for (int i = 0; i < n; ++i) {
            int64_t h = r.chance(80) ? 1 + (int64_t)r.below(nh) : 1 + (int64_t)(r.next() % 0xfffffffe);
            if (r.chance(60)) c.add("put", {h, (int64_t)r.below(50), (int64_t)(r.next() >> 1)});
            else c.add("look", {h});
        }
    }
    return c;
}
static void runBloom(const Case& c, Ctx& x) {
    int what = (int)c.cfg("what");
    Rng rr(c.cfg("seed"));
    if (what == 0) {
        uint64_t bits = std::max<int64_t>(1, c.cfg("bits"));
        uint8_t hashes = (uint8_t)std::max<int64_t>(1, c.cfg("hashes"));
        auto bf = std::unique_ptr<BloomFilter>(new BloomFilter(bits, hashes));
        uint64_t round = (bits + 7) / 8 * 8;
        if (bf->size() != round) x.fail("size", "a filter for %llu bits has %zu bits", (unsigned long long)bits, bf->size());
        std::vector<std::string> in;
        int T = (int)c.cfg("thr", 1);
        auto member = [&](const char* op) {
            for (auto& s : in) {
                if (!bf->check((void*)s.data(), s.size())) x.fail("false-negative", "after %s: an inserted key of %zu bytes is reported absent", op, s.size());
                uint64_t hp[2];
                MurmurHash3_x64_128(s.data(), (int)s.size(), 0, hp);
                if (!bf->check(hp)) x.fail("false-negative", "after %s: an inserted key of %zu bytes is reported absent by its hash pair", op, s.size());
            }
        };
        if (T > 1) {
            for (auto& o : c.ops) if (o.name == "set" || o.name == "setp") in.push_back(bytes(o.arg(0), o.arg(1)));
            std::atomic<int> go{0}, miss{0};
            std::vector<std::thread> th;
            for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
                go++;
                while (go < T) {}
                for (size_t i = t; i < in.size(); i += T) { bf->set((void*)in[i].data(), in[i].size()); if (!bf->check((void*)in[i].data(), in[i].size())) miss++; }
            });
            for (auto& t : th) t.join();
            if (miss) x.fail("false-negative", "a key inserted by this thread is reported absent");
            member("concurrent insertion");
            if (in.size() > 2) x.nontrivial();
            return;
        }
        for (auto& o : c.ops) {
            if (o.name == "set" || o.name == "setp") {
                std::string s = bytes(o.arg(0), o.arg(1));
                if (o.name == "set") bf->set((void*)s.data(), s.size());
                else { uint64_t hp[2]; MurmurHash3_x64_128(s.data(), (int)s.size(), 0, hp); bf->set(hp); }
                in.push_back(s);
            } else if (o.name == "export" || o.name == "move" || o.name == "copy") {
                size_t len = bf->size() / 8;
                std::string b(len, '\0');
                bf->exportBitmap(&b[0], len);
                if (memcmp(b.data(), bf->getPtr(), len)) x.fail("export", "exported bitmap differs from the filter");
                if (o.name == "move") {
                    void* p = malloc(len);
                    memcpy(p, b.data(), len);
                    bf.reset(new BloomFilter(o.arg(0) % 2 ? 8 : 0, hashes));
                    bf->moveBitmapFrom(p, len);
                } else if (o.name == "copy") bf.reset(new BloomFilter(&b[0], len, hashes));
                if (bf->size() != len * 8) x.fail("size", "size after %s is %zu, expected %zu", o.name.c_str(), bf->size(), len * 8);
                std::string b2(len, '\0');
                bf->exportBitmap(&b2[0], len);
                if (b != b2) x.fail("export", "bitmap changed by %s", o.name.c_str());
            }
            member(o.name.c_str());
        }
        if (in.size() >= 5) {
            // false positives stay near the theoretical rate
            std::set<std::string> uniq(in.begin(), in.end());
            double n = (double)uniq.size(), m = (double)bf->size(), k = hashes;
            double fp = std::pow(1 - std::exp(-k * n / m), k);
            int hit = 0, tot = 2000;
            for (int i = 0; i < tot; ++i) { std::string s = "absent" + std::to_string(rr.next()); if (bf->check((void*)s.data(), s.size())) hit++; }
            double sd = std::sqrt(fp * (1 - fp) / tot);
            if (m >= 1000 && hit > tot * (fp * 1.6 + 8 * sd + 0.03)) x.fail("false-positive", "%d of %d absent keys pass a filter of %.0f bits with %.0f keys (expected rate %.3f)", hit, tot, m, n, fp);
            x.nontrivial();
        }
    } else if (what == 1) {
        uint64_t n = std::max<int64_t>(1, c.cfg("bits"));
        int T = (int)c.cfg("thr", 1);
        std::unique_ptr<GenericBitmap> b(new GenericBitmap(n));
        std::vector<bool> m(n, false);
        if (b->size() != n) x.fail("size", "bitmap size is %zu", b->size());
        if (T > 1) {
            // threads set disjoint bits, which share bytes
            std::atomic<int> go{0}, bad{0};
            std::vector<std::thread> th;
            std::vector<int> v(n, -1);
            for (auto& o : c.ops) if (o.name == "b") v[o.arg(0) % n] = (int)o.arg(1);
            for (int t = 0; t < T; ++t) th.emplace_back([&, t]() {
                go++;
                while (go < T) {}
                for (int rep = 0; rep < 20; ++rep)
                    for (size_t i = t; i < n; i += T) if (v[i] >= 0) { bool want = rep % 2 ? v[i] : !v[i]; b->set(i, want); if (b->get(i) != want) bad++; }
            });
            for (auto& t : th) t.join();
            if (bad) x.fail("bitmap", "a bit read back differently right after it was set");
            for (size_t i = 0; i < n; ++i) if (b->get(i) != (v[i] > 0)) x.fail("bitmap", "bit %zu was lost by a concurrent update", i);
            x.nontrivial();
            return;
        }
        int k = 0;
        for (auto& o : c.ops) {
            uint64_t i = (uint64_t)o.arg(0) % n;
            if (o.name == "b") { bool old = b->set(i, o.arg(1)); if (old != m[i]) x.fail("bitmap", "set returned the wrong previous value of bit %llu", (unsigned long long)i); m[i] = o.arg(1); k++; }
            if (o.name == "g" && b->get(i) != m[i]) x.fail("bitmap", "bit %llu is wrong", (unsigned long long)i);
            if (o.name == "clone") b.reset(new GenericBitmap(b->getPtr() ? std::string((char*)b->getPtr(), b->getMemorySize()).data() : nullptr, b->getMemorySize(), n));
        }
        for (uint64_t i = 0; i < n; ++i) if (b->get(i) != m[i]) x.fail("bitmap", "bit %llu is wrong", (unsigned long long)i);
        if (k >= 3) x.nontrivial();
    } else {
        uint64_t slots = std::max<int64_t>(1, c.cfg("slots"));
        TableLookupBooster tlb(slots, nullptr, nullptr);
        if (tlb.size() != slots) x.fail("booster-size", "booster has %zu slots", tlb.size());
        std::map<uint32_t, std::map<uint64_t, uint64_t>> ever;     // hash -> seq -> offset
        struct E { uint32_t h = 0; uint64_t s = 0, o = 0; };
        std::vector<E> m(slots);
        int hits = 0;
        for (auto& o : c.ops) {
            uint32_t h = (uint32_t)o.arg(0);
            if (!h) continue;
            E& e = m[h % slots];
            if (o.name == "put") {
                Status s = tlb.setIfNew(TableLookupBooster::Elem(h, o.arg(1), o.arg(2)));
                bool stale = e.h == h && e.s >= (uint64_t)o.arg(1);
                if (!!s == stale) x.fail("booster", "setIfNew of hash %u seq %lld returned %d", h, (long long)o.arg(1), (int)s);
                if (!stale) { e.h = h; e.s = o.arg(1); e.o = o.arg(2); }
            }
            uint64_t off = 0;
            Status s = tlb.get(h, off);
            if (!!s != (e.h == h)) x.fail("booster", "get of hash %u returned %d", h, (int)s);
            if (s && off != e.o) x.fail("booster", "get of hash %u returned a stale or foreign offset", h);
            hits += !!s;
        }
        if (hits >= 2) x.nontrivial();
    }
}

void regSkip(std::vector<Check>& v) {
    Check k;
    k.id = "C06";
    k.rule = "operation sequences on one skip list against a multimap (every step scanned), and multi-threaded histories with private, untouched and contended keys; non-trivial = at least 3 insertions and one query or erase, or a multi-threaded history";
    k.quick_cases = 14000; k.thorough_cases = 400000; k.batch = 50; k.needs_dir = false;
    k.schedule = true;
    k.gen = genSkip; k.run = runSkip;
    k.assumptions = {"thread schedules are sampled by running real threads", "memory errors are observed by AddressSanitizer"};
    v.push_back(k);
}
void regAvl(std::vector<Check>& v) {
    Check k;
    k.id = "C07";
    k.rule = "operation sequences on one AVL tree against std::map, with order, parent links and balance checked after every step; non-trivial = at least 5 insertions and 1 removal";
    k.quick_cases = 200000; k.thorough_cases = 8000000; k.batch = 100; k.needs_dir = false;
    k.gen = genAvl; k.run = runAvl;
    v.push_back(k);
}
void regBloom(std::vector<Check>& v) {
    Check k;
    k.id = "C08";
    k.rule = "Bloom filters (key sets, hash pairs, export/import), bit maps (also concurrent) and lookup boosters against models; non-trivial = at least 5 keys, 3 updated bits or 2 booster hits";
    k.quick_cases = 60000; k.thorough_cases = 1500000; k.batch = 100; k.needs_dir = false;
    k.schedule = true;
    k.gen = genBloom; k.run = runBloom;
    k.assumptions = {"thread schedules are sampled by running real threads"};
    v.push_back(k);
}
} // namespace vh
