#include "comp.h"
using namespace vh;
int main(int argc, char** argv) {
    std::vector<Check> v;
    regFile(v); regHash(v); regSkip(v); regAvl(v); regBloom(v); regUtil(v); regPool(v);
    return main_impl(argc, argv, v);
}
