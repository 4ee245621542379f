// A Jungle instance driven by a generated program, next to a reference model.
#pragma once
#include "vh.h"

#include <libjungle/jungle.h>
#include <libjungle/sized_buf.h>

#include <list>
#include <map>
#include <memory>

namespace vh {

using jungle::DB;
using jungle::DBConfig;
using jungle::Iterator;
using jungle::KV;
using jungle::Record;
using jungle::SizedBuf;
using jungle::Status;

struct Ver {
    uint64_t seq = 0;
    bool del = false;
    std::string val, meta;
    bool operator==(const Ver& o) const { return seq == o.seq && del == o.del && val == o.val && meta == o.meta; }
};

int keyCompare(int kind, const std::string& a, const std::string& b);
struct KeyCmp {
    int kind = 0;
    bool operator()(const std::string& a, const std::string& b) const { return keyCompare(kind, a, b) < 0; }
};
using State = std::map<std::string, Ver, KeyCmp>;

std::string makeKey(int space, int64_t idx);
std::string makeVal(int64_t vs, int64_t len);
std::string toS(const SizedBuf& b);

struct LogEnt { uint64_t seq; std::string key; Ver v; };

// names of configuration fields; index is used by the reopen operation
extern const std::vector<std::string> CFG;
int cfgIdx(const std::string& n);

struct Snap {
    DB* h = nullptr;
    State st;
    uint64_t seq = 0;
    bool chk = false;
};
struct ItH {
    std::unique_ptr<Iterator> it;
    std::vector<std::pair<std::string, Ver>> rows;
    int64_t pos = -1;          // -1: unknown
    bool bySeq = false;
    int edge = 0;              // after a step beyond the last (1) or first (-1) record
    DB* h = nullptr;
};

struct World {
    Ctx& ctx;
    std::map<std::string, int64_t> cfg;
    std::string path;
    DB* db = nullptr;
    State st;
    std::vector<LogEnt> log;           // every write, ascending seq
    uint64_t maxSeq = 0;
    uint64_t flushedSeq = 0;           // reported by the database
    uint64_t syncedSeq = 0;            // model: what the last successful sync covered
    std::vector<Snap> snaps;
    std::vector<ItH> its;
    std::map<uint64_t, State> chks;    // checkpoint marker -> state
    std::vector<std::string> universe; // every key ever used
    std::set<std::string> uniset;
    bool global_up = false;
    bool model_only = false;
    // statistics of the history
    uint64_t n_del = 0, n_maint_ok = 0, n_reopen = 0, n_flush_ok = 0, n_over = 0, n_split = 0, n_merge = 0, n_interlevel = 0, n_l0c = 0,
             n_inpl = 0, n_reads = 0, n_samples = 0;
    std::set<std::string> cbDropped;   // keys a compaction callback may have dropped
    std::function<void(DBConfig&)> cfgHook;
    std::function<void(const LogEnt&)> onWrite;

    explicit World(Ctx& c, const Case& cs, const std::string& sub = "db");
    ~World();

    int64_t c(const std::string& n) const {
        auto i = cfg.find(n);
        return i == cfg.end() ? 0 : i->second;
    }
    int cmpKind() const { return (int)c("cmp"); }
    std::string key(int64_t i) const;
    DBConfig dbConfig() const;
    void globalInit();
    void globalShutdown();
    Status open();
    void openOrFail();
    void close();
    void reopen(const std::vector<int64_t>& changes);

    // executes one operation; false when the name is unknown
    bool exec(const Op& op);
    bool exec1(const Op& op);
    // full verification of one view (0 = live)
    void verify(DB* h, const State& s, const char* where, bool deep = true);
    void verifyAll(const char* where);
    void verifySeq(DB* h, uint64_t snapSeq, const State& s, const char* where);
    // dump of visible key -> version, as the iterator shows it
    std::vector<std::pair<std::string, Ver>> dump(DB* h, const char* where);

    void applyWrite(const std::string& k, const Ver& v);
    void put(int64_t k, int64_t vs, int64_t vl, int64_t api, int64_t ml);
    void del(int64_t k, int64_t api, int64_t ml);
    void batch(const Op& op);
    void sync(bool fsync);
    void flush(int64_t beyond, int64_t pct, int64_t nfiles);
    void maint(const Op& op);
    void checkGet(DB* h, const State& s, const std::string& k, const char* where, int how = 3);
    void checkScan(DB* h, const State& s, const char* where, bool fwd);
    void checkNearest(DB* h, const State& s, const std::string& k, int opt, const char* where);
    void checkPrefix(DB* h, const State& s, const std::string& p, int64_t stopAfter, const char* where);
    void refreshFlushed();
    DB* view(int64_t v, const State*& s, uint64_t* seq = nullptr);
    void itOpen(const Op& op);
    void itOpenSeq(const Op& op);
    std::vector<std::pair<std::string, Ver>> seqDump(DB* h, const char* where);
    void itStep(const Op& op);
    void chkSnap(const Op& op);
    void sample(const Op& op);
    void itCheck(ItH& h, const char* what);
    void closeIts();
    void closeSnaps();
    void note(const std::string& k) {
        if (uniset.insert(k).second) universe.push_back(k);
    }
};

struct GenOpt {
    int nkeys = 40;
    int minOps = 20, maxOps = 150;
    bool tables = true;          // maintenance operations
    bool reopen = true;
    bool snaps = false;
    bool iters = false;
    bool seqs = false;
    bool nearest = false, prefix = false;
    bool batches = true;
    bool bigValues = false;
    int readPct = 10;
    bool customCmp = true;
    bool compression = true;
    bool dio = true;
    bool sample = false;         // key sampling
    bool unique = false;         // every key written at most once
};
void genConfig(Rng& r, Case& c, const GenOpt& o, int tier);
void genOps(Rng& r, Case& c, const GenOpt& o, int n);
Op genWrite(Rng& r, int nkeys, bool big, int hot);

} // namespace vh
