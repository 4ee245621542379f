// Generated-input harness: seeded generation, forked execution, shrinking,
// replay files and evidence.  Every random choice is a function of
// (VERIF_SEED, property id, case index).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t fnv(const void* d, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* p = (const unsigned char*)d;
    for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below(hi - lo + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    // Index drawn with the given integer weights.
    size_t weighted(const std::vector<int>& w) {
        uint64_t t = 0;
        for (int x : w) t += x;
        uint64_t r = below(t);
        for (size_t i = 0; i < w.size(); ++i) {
            if (r < (uint64_t)w[i]) return i;
            r -= w[i];
        }
        return 0;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    int64_t oneOf(std::initializer_list<int64_t> l) { return *(l.begin() + below(l.size())); }
};

// ---------------------------------------------------------------- programs
struct Op {
    std::string name;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Case {
    std::vector<Op> ops;
    void add(const std::string& n, std::vector<int64_t> a = {}) { ops.push_back({n, std::move(a)}); }
    // "cfg" lines: name is "cfg.<x>"
    int64_t cfg(const std::string& n, int64_t d = 0) const {
        for (auto& o : ops) if (o.name == "cfg." + n) return o.arg(0, d);
        return d;
    }
    std::string text() const {
        std::string s;
        for (auto& o : ops) {
            s += o.name;
            for (auto v : o.a) { s += ' '; s += std::to_string(v); }
            s += '\n';
        }
        return s;
    }
    static bool parse(const std::string& t, Case& out);
};

// ---------------------------------------------------------------- execution
struct Ctx {
    std::string dir;          // scratch directory of this case (created, empty)
    int tier = 0;             // 0 quick, 1 thorough
    uint64_t salt = 0;        // repetition number (schedules only)
    bool verbose = false;
    void count(const char* name, uint64_t n = 1);
    void nontrivial() { nontriv = true; }
    // Report a violation: never returns.
    [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // Leave the case without a verdict (counted): never returns.
    [[noreturn]] void skip(const char* why);
    void trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool nontriv = false;
};

struct Check {
    std::string id;
    std::string rule;                       // evidence rule text
    uint64_t quick_cases = 1000;
    uint64_t thorough_cases = 20000;
    int batch = 1;                          // cases run per forked child
    int hang_s = 60;                        // watchdog of one case
    int workers = 8;
    bool schedule = false;                  // outcome depends on thread timing
    bool needs_dir = true;
    std::vector<std::string> assumptions;
    std::function<Case(Rng&, int tier, uint64_t idx)> gen;
    std::function<void(const Case&, Ctx&)> run;
};

int main_impl(int argc, char** argv, std::vector<Check> checks);

std::string hex(const std::string& s, size_t max = 24);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void rm_rf(const std::string& path);       // only below the scratch root

} // namespace vh
