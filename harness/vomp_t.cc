// HARNESS_O2 VARIANT_AWARE
// Variant t: real libgomp threads.  The volatile/atomic hooks inject delays; everything else of the
// controlled runtime is a stub.
#include "vomp.h"
#ifdef VARIANT_T
#include <omp.h>
#include <sched.h>
#include <atomic>
static std::atomic<uint64_t> hooks{0};
static VompConfig C = {4, 1, 2, 0};
static thread_local uint64_t rng = 0;
static inline uint64_t rnd() { if (!rng) rng = (uint64_t)(uintptr_t)&rng * 0x9E3779B97F4A7C15ull ^ C.seed | 1; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 11; }
static inline void delay() {
    hooks.fetch_add(1, std::memory_order_relaxed);
    uint64_t r = rnd();
    if ((r & 63) == 0) sched_yield();
    else if ((r & 63) == 1) for (volatile int i = 0; i < (int)(r >> 8 & 1023); i++) {}
}
extern "C" {
void vomp_configure(const VompConfig *c) { C = *c; omp_set_dynamic(0); omp_set_num_threads(c->nthreads); }
void vomp_stats(VompStats *s) { *s = VompStats(); s->yields = hooks; }
void vomp_reset_stats(void) { hooks = 0; }
const char *vomp_deadlock(void) { return ""; }
int race_active(void) { return 0; }
void race_enable(int) {}
int race_reports(RaceReport *, int) { return 0; }
void race_stats(uint64_t *a, uint64_t *b, uint64_t *c) { *a = *b = *c = 0; }
void race_range(const void *, size_t, int, uintptr_t) {}
void race_fresh(const void *, size_t) {}
void late_watch(const volatile int *, const void *const *, const size_t *, int) {}
int late_reports(RaceReport *, int) { return 0; }
void late_stats(uint64_t *a, uint64_t *b) { *a = *b = 0; }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(N) \
void __tsan_read##N(void *) {} void __tsan_write##N(void *) {} void __tsan_unaligned_read##N(void *) {} void __tsan_unaligned_write##N(void *) {} \
void __tsan_volatile_read##N(void *) { delay(); } void __tsan_volatile_write##N(void *) { delay(); } \
void __tsan_unaligned_volatile_read##N(void *) { delay(); } void __tsan_unaligned_volatile_write##N(void *) { delay(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, size_t) {}
void __tsan_write_range(void *, size_t) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { delay(); return __atomic_load_n(p, 5); } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { delay(); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { delay(); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { delay(); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { delay(); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { delay(); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { delay(); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { delay(); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { delay(); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { delay(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { delay(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { delay(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
#endif
