// Schedule perturbation.  Selected sources of the code under test are compiled
// with the instrumentation of ThreadSanitizer, but linked with the functions
// below instead of its runtime: every atomic or plain memory access of that
// code becomes a point where the running thread may be delayed at random.
// Plain accesses are also checked against AddressSanitizer's shadow memory.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
volatile int vh_perturb = 0;          // 0: off; N: one access in N is delayed
volatile uint64_t vh_perturb_seed = 0;
volatile int64_t vh_perturb_budget = 0; // delays left: bounds the time of a case
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
void __asan_report_load_n(void*, size_t) __attribute__((weak));
void __asan_report_store_n(void*, size_t) __attribute__((weak));
}
static volatile uint64_t g_tid = 0;
static void __attribute__((noinline)) slow() {
    static thread_local uint64_t s = 0, mine = 0, ep = 0;
    if (!s || ep != vh_perturb_seed) {
        if (!mine) mine = __sync_add_and_fetch(&g_tid, 1);
        ep = vh_perturb_seed;
        s = (mine * 0x9E3779B97F4A7C15ull) ^ (ep * 0xD6E8FEB86659FD93ull) ^ 0x1234567;
        if (!s) s = 1;
    }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    int n = vh_perturb;
    if (n <= 0 || (s >> 20) % n) return;
    if (vh_perturb_budget <= 0) { vh_perturb = 0; return; }
    vh_perturb_budget = vh_perturb_budget - 1;
    switch ((s >> 50) & 7) {
    case 0: { timespec t{0, (long)((s >> 30) & (((s >> 45) & 31) == 0 ? 0xfffff : 0x7fff))}; syscall(SYS_nanosleep, &t, nullptr); break; }
    case 1: case 2: case 3: { for (volatile int i = (s >> 30) & 0x3ff; i > 0; --i) {} break; }
    default: sched_yield();
    }
}
#define PT() do { if (__builtin_expect(vh_perturb != 0, 0)) slow(); } while (0)
#define CK(p, n, w) do { if (__asan_region_is_poisoned && __asan_region_is_poisoned((void*)(p), n)) { if (w) __asan_report_store_n((void*)(p), n); else __asan_report_load_n((void*)(p), n); } } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n) \
    void __tsan_read##n(void* p) { PT(); CK(p, n, 0); } \
    void __tsan_write##n(void* p) { PT(); CK(p, n, 1); } \
    void __tsan_unaligned_read##n(void* p) { PT(); CK(p, n, 0); } \
    void __tsan_unaligned_write##n(void* p) { PT(); CK(p, n, 1); } \
    void __tsan_volatile_read##n(void* p) { PT(); CK(p, n, 0); } \
    void __tsan_volatile_write##n(void* p) { PT(); CK(p, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { PT(); if (n) CK(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { PT(); if (n) CK(p, n, 1); }
#define ATM(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { PT(); CK(a, sizeof(T), 0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); PT(); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { PT(); CK(a, sizeof(T), 1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { PT(); CK(a, sizeof(T), 1); int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); PT(); return r; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { PT(); CK(a, sizeof(T), 1); int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); PT(); return r; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { PT(); CK(a, sizeof(T), 1); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATM(8, uint8_t) ATM(16, uint16_t) ATM(32, uint32_t) ATM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
