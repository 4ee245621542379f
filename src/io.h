// Interposition on the file-system calls of the program under test (linked
// with -Wl,--wrap): an ordered journal for crash images, and injected faults.
#pragma once
#include "vh.h"
#include <atomic>
#include <mutex>

namespace vh {

enum IoKind { IO_CREATE, IO_WRITE, IO_TRUNC, IO_FSYNC, IO_RENAME, IO_UNLINK, IO_MKDIR, IO_RMDIR, IO_READ, IO_OPEN, IO_MARK, IO_SEEK, IO_NKIND };

struct IoEv {
    IoKind kind;
    uint64_t ino = 0;
    uint64_t off = 0;          // offset / length / mark value
    std::string data;          // written bytes, or path
    std::string to;            // rename target
};

struct Io {
    std::mutex m;
    std::atomic<bool> noSleep{false};   // sleeps (retry back-off) return at once
    std::atomic<uint64_t> slept{0};
    std::string root;              // only paths below it are considered
    bool journal = false;
    std::vector<IoEv> ev;
    // Fault plan: calls of the kinds in `mask` are numbered from 1; those with
    // a number in [from, from+len) fail.  mode 0: error `err`; 1: short
    // transfer (half, at least one byte less); 2: EINTR-like failure
    uint32_t mask = 0;
    uint64_t counter = 0, from = 0, len = 0;
    int mode = 0, err = 5;
    std::string only;              // restrict to paths containing this
    uint64_t injected = 0;
    uint64_t count[IO_NKIND] = {0};
    // file contents known to be on stable storage (by inode) are derived from
    // the journal by image()
    size_t mark(uint64_t v);
    size_t events() { std::lock_guard<std::mutex> l(m); return ev.size(); }
    void start(const std::string& r) { root = r; journal = true; }
    void faults(uint32_t mask_, uint64_t from_, uint64_t len_, int mode_, int err_, const std::string& only_ = "");
    void reset();
    void noFaults() { std::lock_guard<std::mutex> l(m); mask = 0; }
    // Rebuild below `dst` what storage may hold after a crash just before
    // event n.  how: 0 process kill (everything issued is kept); 1 every
    // unsynced byte lost; 2 random subset of unsynced 512-byte sectors;
    // 3 random prefix of each file's unsynced writes, in issue order
    void image(const std::string& dst, size_t n, int how, uint64_t seed);
    // true when every byte written to the file so far was fsync-ed afterwards
    void assumeSynced(const std::string& path);
    bool isSynced(const std::string& path);
};
extern Io g_io;

} // namespace vh
