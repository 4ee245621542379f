#include "vh.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <sstream>

extern "C" __sighandler_t __real_signal(int, __sighandler_t);
namespace vh {

std::string hex(const std::string& s, size_t max) {
    static const char* d = "0123456789abcdef";
    std::string r;
    bool printable = true;
    for (unsigned char c : s) if (c < 32 || c > 126) printable = false;
    if (printable && s.size() <= max) return "\"" + s + "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        r += d[(unsigned char)s[i] >> 4];
        r += d[(unsigned char)s[i] & 15];
    }
    if (s.size() > max) r += "..(" + std::to_string(s.size()) + ")";
    return r.empty() ? "<empty>" : r;
}

std::string strf(const char* fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

static std::string g_root;  // scratch root of this process tree

static void rm_rf_in(const std::string& p) {
    struct stat st;
    if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        if (DIR* d = opendir(p.c_str())) {
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") rm_rf_in(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else {
        unlink(p.c_str());
    }
}
void rm_rf(const std::string& p) {
    if (g_root.size() < 5 || p.compare(0, g_root.size(), g_root) != 0) return;
    rm_rf_in(p);
}

bool Case::parse(const std::string& t, Case& out) {
    std::istringstream is(t);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        Op o;
        if (!(ls >> o.name)) continue;
        int64_t v;
        while (ls >> v) o.a.push_back(v);
        out.ops.push_back(o);
    }
    return true;
}

// ---------------------------------------------------------------- shared area
enum Verdict : int { V_NONE = 0, V_PASS = 1, V_FAIL = 2, V_SKIP = 3 };
struct Shared {
    volatile int cur;              // index in batch being executed
    volatile int verdict;          // verdict of current / failing case
    char kind[64];
    char msg[4096];
    uint64_t done;
    uint64_t skipped;
    uint64_t nontriv;
    uint64_t next_hash;            // number of entries in hashes[]
    struct { char name[40]; uint64_t n; } ctr[128];
    // worker -> parent
    volatile uint64_t fail_idx;
    volatile int fail_set;
    volatile int stop;
    volatile int nt_flag;
    uint64_t unreproduced;
    uint64_t nt_first[4];
    uint64_t hashes[];
};
static Shared* g_sh = nullptr;
static size_t g_hash_cap = 0;
static bool g_scan_mode = false;   // counters are recorded

static Shared* newShared(size_t hash_cap) {
    size_t n = sizeof(Shared) + hash_cap * 8;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}

void Ctx::count(const char* name, uint64_t n) {
    if (!g_sh || !g_scan_mode) return;
    for (auto& c : g_sh->ctr) {
        if (!c.name[0]) { strncpy(c.name, name, sizeof(c.name) - 1); c.n = n; return; }
        if (!strncmp(c.name, name, sizeof(c.name) - 1)) { __sync_fetch_and_add(&c.n, n); return; }
    }
}
void Ctx::fail(const char* kind, const char* fmt, ...) {
    static volatile int once = 0;
    if (__sync_fetch_and_add(&once, 1) != 0) for (;;) pause();
    va_list ap;
    va_start(ap, fmt);
    if (g_sh) {
        strncpy(g_sh->kind, kind, sizeof(g_sh->kind) - 1);
        vsnprintf(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
        g_sh->verdict = V_FAIL;
    }
    va_end(ap);
    if (verbose) fprintf(stderr, "FAIL[%s] %s\n", kind, g_sh ? g_sh->msg : "");
    _exit(1);
}
void Ctx::skip(const char* why) {
    count((std::string("skip:") + why).c_str());
    if (g_sh) g_sh->verdict = V_SKIP;
    _exit(0);
}
void Ctx::trace(const char* fmt, ...) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}

struct Result {
    int verdict = V_NONE;
    std::string kind, msg;
};

static double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static bool g_keep_output = false;

static void child_setup(int hang_s, const std::string& errfile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    if (!g_keep_output) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        int ef = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(ef >= 0 ? ef : fd, 2);
    }
    __real_signal(SIGPIPE, SIG_IGN);
    (void)hang_s;
}

// Wait for a child; kill it when no case finishes for hang_s seconds.
static int wait_child(pid_t pid, int hang_s, bool& hung) {
    hung = false;
    int st = 0;
    double t0 = now_s();
    uint64_t last = g_sh->done;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) break;
        usleep(nap);
        if (nap < 5000) nap = nap * 3 / 2;
        if (g_sh->done != last) { last = g_sh->done; t0 = now_s(); }
        if (now_s() - t0 > hang_s) {
            hung = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
    }
    kill(-pid, SIGKILL);   // stray grandchildren
    return st;
}

static std::string first_lines(const std::string& file, size_t max) {
    std::ifstream f(file);
    std::string all, l;
    std::vector<std::string> interesting;
    while (std::getline(f, l)) {
        if (all.size() < max) all += l + " | ";
        if (l.find("ERROR: ") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos ||
            l.find("runtime error") != std::string::npos || l.find("SUMMARY:") != std::string::npos ||
            l.find("ssertion") != std::string::npos)
            interesting.push_back(l);
    }
    std::string r;
    for (auto& i : interesting) if (r.size() < max) r += i + " | ";
    return r.empty() ? all : r;
}

static Result exec_one(const Check& ck, const Case& c, const std::string& dir, int tier, uint64_t salt) {
    Result r;
    rm_rf(dir);
    if (ck.needs_dir) mkdir(dir.c_str(), 0755);
    g_sh->verdict = V_NONE;
    g_sh->kind[0] = g_sh->msg[0] = 0;
    std::string err = dir + ".err";
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(ck.hang_s, err);
        Ctx ctx;
        ctx.dir = dir;
        ctx.tier = tier;
        ctx.salt = salt;
        ctx.verbose = g_keep_output;
        ck.run(c, ctx);
        g_sh->nt_flag = ctx.nontriv;
        g_sh->verdict = V_PASS;
        _exit(0);
    }
    bool hung;
    int st = wait_child(pid, ck.hang_s, hung);
    if (g_sh->verdict == V_FAIL) {
        r.verdict = V_FAIL;
        r.kind = g_sh->kind;
        r.msg = g_sh->msg;
    } else if (hung) {
        r.verdict = V_FAIL;
        r.kind = "hang";
        r.msg = strf("no progress for %d seconds", ck.hang_s);
    } else if (WIFSIGNALED(st)) {
        r.verdict = V_FAIL;
        r.kind = "crash";
        r.msg = strf("killed by signal %d: ", WTERMSIG(st)) + first_lines(err, 600);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->verdict != V_NONE) {
        r.verdict = g_sh->verdict;
    } else {
        r.verdict = V_FAIL;
        r.kind = "crash";
        r.msg = strf("unexpected exit status %d: ", WEXITSTATUS(st)) + first_lines(err, 600);
    }
    unlink(err.c_str());
    rm_rf(dir);
    return r;
}

static uint64_t case_seed(uint64_t seed, const std::string& id, uint64_t idx) {
    return mix64(mix64(seed * 0x9E3779B97F4A7C15ULL + fnv(id)) + idx * 0xD1B54A32D192ED03ULL);
}
static Case gen_case(const Check& ck, uint64_t seed, int tier, uint64_t idx) {
    Rng r(case_seed(seed, ck.id, idx));
    return ck.gen(r, tier, idx);
}

// One worker process: runs its share of the case indices.
static void worker(const Check& ck, uint64_t seed, int tier, uint64_t ncases, int w, int W,
                   Shared* ctl, const std::string& root) {
    g_scan_mode = true;
    std::string dir = root + "/w" + std::to_string(w);
    uint64_t idx = w;
    while (idx < ncases && !ctl->stop) {
        // one forked child for `batch` cases
        std::vector<uint64_t> ids;
        for (int b = 0; b < ck.batch && idx < ncases; ++b, idx += W) ids.push_back(idx);
        g_sh->cur = -1;
        g_sh->verdict = V_NONE;
        g_sh->kind[0] = g_sh->msg[0] = 0;
        std::string err = dir + ".err";
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(ck.hang_s, err);
            for (size_t b = 0; b < ids.size(); ++b) {
                g_sh->cur = b;
                Case c = gen_case(ck, seed, tier, ids[b]);
                std::string d = dir + "_" + std::to_string(b);
                if (ck.needs_dir) { rm_rf(d); mkdir(d.c_str(), 0755); }
                Ctx ctx;
                ctx.dir = d;
                ctx.tier = tier;
                ck.run(c, ctx);
                g_sh->done++;
                if (ctx.nontriv) {
                    if (g_sh->nontriv < 4) g_sh->nt_first[g_sh->nontriv] = ids[b];
                    g_sh->nontriv++;
                    if (g_sh->next_hash < g_hash_cap) g_sh->hashes[g_sh->next_hash++] = fnv(c.text());
                }
                if (ck.needs_dir) rm_rf(d);
            }
            g_sh->cur = ids.size();
            g_sh->verdict = V_PASS;
            _exit(0);
        }
        bool hung;
        int st = wait_child(pid, ck.hang_s, hung);
        int cur = g_sh->cur;
        if (g_sh->verdict == V_SKIP) {
            g_sh->done++;
            g_sh->skipped++;
            if (cur >= 0 && (size_t)cur + 1 < ids.size()) idx = ids[cur + 1];
        } else if (g_sh->verdict != V_PASS || hung || !WIFEXITED(st) || WEXITSTATUS(st)) {
            if (cur < 0) cur = 0;
            if ((size_t)cur >= ids.size()) cur = ids.size() - 1;
            if (!ctl->stop) {
                g_sh->fail_idx = ids[cur];
                g_sh->fail_set = 1;
                ctl->stop = 1;
                break;
            }
        }
        for (size_t b = 0; b < ids.size(); ++b) rm_rf(dir + "_" + std::to_string(b));
        unlink(err.c_str());
    }
    _exit(0);
}

static bool same_failure(const Result& a, const Result& b) { return b.verdict == V_FAIL && a.kind == b.kind; }

// ddmin over the operations, then per-argument simplification.
static Case shrink(const Check& ck, Case c, const Result& base, const std::string& dir, int tier, double budget_s,
                   uint64_t& tried) {
    double end = now_s() + budget_s;
    int reps = ck.schedule ? 6 : 1;
    auto fails = [&](const Case& x) {
        for (int i = 0; i < reps; ++i) {
            if (now_s() > end) return false;
            tried++;
            if (same_failure(base, exec_one(ck, x, dir, tier, i))) return true;
        }
        return false;
    };
    if (base.kind == "hang") return c;
    size_t chunk = c.ops.size() / 2;
    if (!chunk) chunk = 1;
    while (now_s() < end) {
        bool removed = false;
        for (size_t i = 0; i < c.ops.size() && now_s() < end;) {
            Case x;
            size_t n = std::min(chunk, c.ops.size() - i);
            for (size_t j = 0; j < c.ops.size(); ++j) if (j < i || j >= i + n) x.ops.push_back(c.ops[j]);
            if (!x.ops.empty() && fails(x)) { c = x; removed = true; }
            else i += n;
        }
        if (!removed) {
            if (chunk == 1) break;
            chunk = (chunk + 1) / 2;
        }
    }
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t i = 0; i < c.ops.size() && now_s() < end; ++i) {
            for (size_t k = 0; k < c.ops[i].a.size() && now_s() < end; ++k) {
                int64_t v = c.ops[i].a[k];
                std::vector<int64_t> cand;
                if (v != 0) { cand.push_back(0); if (v / 2 != 0) cand.push_back(v / 2); cand.push_back(v > 0 ? v - 1 : v + 1); }
                for (int64_t nv : cand) {
                    if (nv == v) continue;
                    Case x = c;
                    x.ops[i].a[k] = nv;
                    if (fails(x)) { c = x; progress = true; break; }
                }
            }
        }
    }
    return c;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}

static std::string slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

static void make_root() {
    std::string base = "/dev/shm";
    struct statvfs vs;
    if (const char* e = getenv("VH_SCRATCH")) base = e;
    else if (access("/dev/shm", W_OK) || statvfs("/dev/shm", &vs) || (uint64_t)vs.f_bavail * vs.f_frsize < (2ULL << 30))
        base = "/tmp";
    g_root = base + "/vh." + std::to_string(getpid());
    mkdir(g_root.c_str(), 0755);
}

struct Known { std::string prop, id, file, text; };

static std::vector<Known> load_known(const std::string& file, const std::string& prop) {
    // lines:  "finding: property=<id> case=<file under corpus> <what fails>"
    std::vector<Known> v;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 9, "finding: ")) continue;
        std::istringstream is(l.substr(9));
        Known k;
        std::string t;
        while (is >> t) {
            if (!t.compare(0, 9, "property=") && k.prop.empty()) k.prop = t.substr(9);
            else if (!t.compare(0, 5, "case=") && k.file.empty()) k.file = t.substr(5);
            else k.text += (k.text.empty() ? "" : " ") + t;
        }
        if (k.prop == prop) v.push_back(k);
    }
    return v;
}

int main_impl(int argc, char** argv, std::vector<Check> checks) {
    std::string prop, replay, dump, evid, replays = "replays", corpus, knownf, cfgtext;
    uint64_t seed = 1, ncases = 0;
    int tier = 0;
    if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
    if (const char* e = getenv("VERIF_TIER")) tier = std::string(e) == "thorough";
    int64_t gen_idx = -1;
    double t_start = now_s();
    if (const char* e = getenv("VH_T0")) { (void)e; }
    bool expect_kind = false;
    std::string want_kind;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--cases") ncases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") tier = nx() == "thorough";
        else if (a == "--evidence") evid = nx();
        else if (a == "--replays") replays = nx();
        else if (a == "--corpus") corpus = nx();
        else if (a == "--known") knownf = nx();
        else if (a == "--gen") gen_idx = strtoll(nx().c_str(), 0, 10);
        else if (a == "--kind") { expect_kind = true; want_kind = nx(); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    (void)expect_kind;
    Check* ckp = nullptr;
    for (auto& c : checks) if (c.id == prop || (prop.empty() && checks.size() == 1)) ckp = &c;
    if (!ckp) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 3; }
    Check& ck = *ckp;
    if (!ncases) ncases = tier ? ck.thorough_cases : ck.quick_cases;
    if (gen_idx >= 0) { fputs(gen_case(ck, seed, tier, gen_idx).text().c_str(), stdout); return 0; }

    make_root();
    struct Cleaner { pid_t p = getpid(); ~Cleaner() { if (getpid() == p) rm_rf(g_root); } } cleaner;
    g_sh = newShared(16);
    std::string dir = g_root + "/r";

    if (!replay.empty()) {
        Case c;
        Case::parse(slurp(replay), c);
        g_keep_output = getenv("VH_VERBOSE") != nullptr;
        int nrep = ck.schedule && !getenv("VH_ONCE") ? 50 : 1;
        Result r;
        for (int i = 0; i < nrep; ++i) {
            r = exec_one(ck, c, dir, tier, i);
            if (r.verdict == V_FAIL) break;
        }
        if (r.verdict == V_FAIL) { printf("FAIL kind=%s %s\n", r.kind.c_str(), r.msg.c_str()); return 1; }
        printf("%s\n", r.verdict == V_PASS ? "PASS" : "SKIP");
        return 0;
    }

    int violations = 0;
    std::string vio_line;
    uint64_t corpus_n = 0, unrepro = 0, shrink_execs = 0;
    std::vector<std::string> known_lines;
    // -- known findings: replay each, report, never alarm
    std::set<std::string> known_files;
    if (!knownf.empty()) {
        for (auto& k : load_known(knownf, ck.id)) {
            known_files.insert(k.file);
            Case c;
            Case::parse(slurp(corpus + "/" + k.file), c);
            Result r;
            for (int i = 0; i < (ck.schedule ? 40 : 1); ++i) {
                r = exec_one(ck, c, dir, tier, i);
                if (r.verdict == V_FAIL) break;
            }
            if (r.verdict == V_FAIL) known_lines.push_back("KNOWN-FINDING: property=" + ck.id + " " + k.text);
            else known_lines.push_back("note: known finding no longer reproduces: " + k.file);
        }
    }
    auto report = [&](const Case& c0, const Result& r0, double shrink_budget) -> bool {
        // shrink, save, replay three times
        Case c = shrink_budget > 0 ? shrink(ck, c0, r0, dir, tier, shrink_budget, shrink_execs) : c0;
        int need = 3, tries = ck.schedule ? 60 : 3, got = 0;
        Result last = r0;
        for (int i = 0; i < tries && got < need; ++i) {
            Result r = exec_one(ck, c, dir, tier, i);
            if (r.verdict == V_FAIL) { got++; last = r; }
            else if (!ck.schedule) break;
        }
        bool ok = ck.schedule ? got >= 1 : got >= 3;
        if (!ok) { unrepro++; return false; }
        mkdir(replays.c_str(), 0755);
        std::string f = replays + "/" + ck.id + "-" + strf("%016lx", (unsigned long)fnv(c.text())) + ".case";
        std::ofstream o(f);
        o << "# property " << ck.id << " kind=" << last.kind << "\n# " << last.msg.substr(0, 500) << "\n" << c.text();
        o.close();
        printf("violation kind=%s: %s\n", last.kind.c_str(), last.msg.c_str());
        printf("minimal case (%zu ops, from %zu):\n%s", c.ops.size(), c0.ops.size(), c.text().substr(0, 3000).c_str());
        vio_line = "VIOLATION property=" + ck.id + " replay=" + f;
        violations++;
        return true;
    };
    // -- saved regression inputs
    if (!corpus.empty()) {
        std::vector<std::string> files;
        if (DIR* d = opendir((corpus + "/" + ck.id).c_str())) {
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n.size() > 5 && n.substr(n.size() - 5) == ".case") files.push_back(n);
            }
            closedir(d);
        }
        std::sort(files.begin(), files.end());
        for (auto& n : files) {
            if (known_files.count(ck.id + "/" + n)) continue;
            Case c;
            Case::parse(slurp(corpus + "/" + ck.id + "/" + n), c);
            corpus_n++;
            Result r;
            for (int i = 0; i < (ck.schedule ? 40 : 1); ++i) {
                r = exec_one(ck, c, dir, tier, i);
                if (r.verdict == V_FAIL) break;
            }
            if (r.verdict == V_FAIL && !violations) report(c, r, 0);
        }
    }
    // -- generated search
    uint64_t evals = corpus_n, skipped = 0, nontriv = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> ctr;
    std::vector<uint64_t> sample_idx;
    if (!violations) {
        int W = ck.workers;
        if ((uint64_t)W > ncases) W = ncases ? ncases : 1;
        uint64_t budget_fail = 8;  // non-reproducing failures tolerated before giving up the search
        std::set<uint64_t> excluded;
        uint64_t from = 0;
        Shared* ctl = newShared(1);
        g_hash_cap = ncases / W + ck.batch + 16;
        std::vector<Shared*> sh;
        for (int w = 0; w < W; ++w) sh.push_back(newShared(g_hash_cap));
        (void)from;
        std::vector<pid_t> pids;
        Shared* keep = g_sh;
        fflush(stdout);
        for (int w = 0; w < W; ++w) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                g_sh = sh[w];
                worker(ck, seed, tier, ncases, w, W, ctl, g_root);
            }
            pids.push_back(p);
        }
        std::vector<bool> alive(W, true);
        int left = W;
        while (left) {
            int st;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            int w = -1;
            for (int i = 0; i < W; ++i) if (pids[i] == p) w = i;
            if (w < 0) continue;
            left--;
            if (sh[w]->fail_set && budget_fail) {
                // let the others drain, then confirm this one alone
            }
        }
        g_sh = keep;
        std::vector<uint64_t> fails;
        for (int w = 0; w < W; ++w) {
            evals += sh[w]->done;
            skipped += sh[w]->skipped;
            nontriv += sh[w]->nontriv;
            for (uint64_t i = 0; i < sh[w]->next_hash; ++i) distinct.insert(sh[w]->hashes[i]);
            for (auto& c : sh[w]->ctr) if (c.name[0]) ctr[c.name] += c.n;
            for (uint64_t i = 0; i < std::min<uint64_t>(sh[w]->nontriv, 2); ++i) sample_idx.push_back(sh[w]->nt_first[i]);
            if (sh[w]->fail_set) fails.push_back((uint64_t)sh[w]->fail_idx);
        }
        std::sort(fails.begin(), fails.end());
        bool resume = false;
        if (getenv("VH_FAST") && !fails.empty()) {      // (for trying out many mutants) no shrinking, no replay
            for (int w = 0; w < W; ++w) if (sh[w]->fail_set) { printf("FAST-FAIL case %lu %s: %.200s\n", (unsigned long)sh[w]->fail_idx, sh[w]->kind, sh[w]->msg); break; }
            return 1;
        }
        for (uint64_t fi : fails) {
            Case c = gen_case(ck, seed, tier, fi);
            Result r;
            int tries = ck.schedule ? 40 : 2;
            for (int i = 0; i < tries; ++i) {
                r = exec_one(ck, c, dir, tier, i);
                if (r.verdict == V_FAIL) break;
            }
            printf("case %lu of seed %lu failed in the search (worker says: %s)%s\n", (unsigned long)fi, (unsigned long)seed,
                   r.verdict == V_FAIL ? r.kind.c_str() : "-", r.verdict == V_FAIL ? "" : ", but not when replayed alone");
            if (r.verdict != V_FAIL) {
                for (int w = 0; w < W; ++w)
                    if (sh[w]->fail_set && sh[w]->fail_idx == fi) printf("  kind=%s msg=%s\n", sh[w]->kind, sh[w]->msg);
                unrepro++;
                resume = true;
                continue;
            }
            double budget = r.kind == "hang" ? 0.0001 : 75.0;
            if (report(c, r, budget) || report(c, r, 0)) break;
            resume = true;
        }
        if (resume && !violations) {
            // A failure that does not reproduce is not reported; the rest of the
            // range is still searched, sequentially excluding nothing.
            ctl->stop = 0;
            printf("resuming the search after an unreproduced failure\n");
            fflush(stdout);
            for (int round = 0; round < 3 && !violations; ++round) {
                ctl->stop = 0;
                std::vector<Shared*> sh2;
                pids.clear();
                for (int w = 0; w < W; ++w) {
                    sh2.push_back(newShared(g_hash_cap));
                    pid_t p = fork();
                    if (p == 0) {
                        prctl(PR_SET_PDEATHSIG, SIGKILL);
                        g_sh = sh2[w];
                        worker(ck, mix64(seed + 77 + round), tier, ncases, w, W, ctl, g_root);
                    }
                    pids.push_back(p);
                }
                for (auto p : pids) { int st; waitpid(p, &st, 0); }
                bool any = false;
                for (int w = 0; w < W; ++w) {
                    evals += sh2[w]->done;
                    if (sh2[w]->fail_set) {
                        any = true;
                        Case c = gen_case(ck, mix64(seed + 77 + round), tier, sh2[w]->fail_idx);
                        Result r;
                        for (int i = 0; i < (ck.schedule ? 40 : 2); ++i) {
                            r = exec_one(ck, c, dir, tier, i);
                            if (r.verdict == V_FAIL) break;
                        }
                        if (r.verdict == V_FAIL && (report(c, r, 60) || report(c, r, 0))) break;
                        unrepro++;
                    }
                }
                if (!any) break;
            }
        }
    }
    // -- evidence
    double wall = now_s() - t_start;
    if (!evid.empty()) {
        std::ofstream o(evid);
        o << "{\n \"property\": " << jstr(ck.id) << ",\n \"tier\": " << (tier ? "\"thorough\"" : "\"quick\"")
          << ",\n \"seed\": " << seed << ",\n \"level\": \"" << (getenv("VH_LEVEL") ? getenv("VH_LEVEL") : "exploration") << "\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(ck.rule)
          << ",\n  \"nontrivial\": " << nontriv << ",\n  \"skipped\": " << skipped << ",\n  \"saved_inputs_replayed\": " << corpus_n
          << ",\n  \"failures_not_reproduced\": " << unrepro << ",\n  \"shrink_executions\": " << shrink_execs << ",\n  \"classes\": {";
        bool first = true;
        for (auto& k : ctr) { o << (first ? "" : ", ") << jstr(k.first) << ": " << k.second; first = false; }
        o << "},\n  \"samples\": [";
        std::sort(sample_idx.begin(), sample_idx.end());
        if (sample_idx.empty()) sample_idx.push_back(0);
        first = true;
        size_t ns = 0;
        for (auto i : sample_idx) {
            if (ns++ >= 3) break;
            std::string t = gen_case(ck, seed, tier, i).text();
            for (auto& ch : t) if (ch == '\n') ch = ';';
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            o << (first ? "" : ", ") << "\n   " << jstr("case " + std::to_string(i) + ": " + t);
            first = false;
        }
        o << "\n  ]\n },\n \"assumptions\": [";
        first = true;
        for (auto& a : ck.assumptions) { o << (first ? "" : ", ") << jstr(a); first = false; }
        o << "],\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << violations << "\n}\n";
    }
    for (auto& k : known_lines) printf("%s\n", k.c_str());
    printf("property %s: %lu cases, %zu distinct non-trivial, %lu skipped, %.1f s\n", ck.id.c_str(), (unsigned long)evals, distinct.size(),
           (unsigned long)skipped, wall);
    if (getenv("VH_CLASSES")) for (auto& k : ctr) printf("  %-40s %lu\n", k.first.c_str(), (unsigned long)k.second);
    if (violations) {
        printf("%s\n", vio_line.c_str());
        return 1;
    }
    return 0;
}

} // namespace vh

// Jungle's logger installs crash handlers that print stack traces (and may
// hang inside malloc); a crash has to end the process at once here.
struct sigaction;
extern "C" int __wrap_sigaction(int, const struct sigaction*, struct sigaction*) { return 0; }
extern "C" __sighandler_t __wrap_signal(int, __sighandler_t) { return SIG_DFL; }
