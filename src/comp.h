// Shared helpers of the component checks.
#pragma once
#include "io.h"
#include "vh.h"
#include <libjungle/jungle.h>

namespace vh {
std::string bytes(int64_t seed, int64_t len);
// Byte-addressed sparse file model.
struct Sparse {
    uint64_t size = 0;
    std::map<uint64_t, std::string> pg;
    void write(uint64_t off, const std::string& d);
    std::string read(uint64_t off, uint64_t len) const;
    void trunc(uint64_t n);
    void load(const std::string& path);
};
// Compares the file on disk with the model (only allocated or written parts).
bool sameFile(const std::string& path, const Sparse& m, std::string* why);
void regFile(std::vector<Check>& v);
void regHash(std::vector<Check>& v);
void regBuf(std::vector<Check>& v);
void regSkip(std::vector<Check>& v);
void regAvl(std::vector<Check>& v);
void regBloom(std::vector<Check>& v);
void regUtil(std::vector<Check>& v);
void regPool(std::vector<Check>& v);
void regLog(std::vector<Check>& v);
} // namespace vh
