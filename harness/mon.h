// Monitor services shared by the harness: violation records, allocation monitor, kernel-argument
// monitor.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
// ---- allocation monitor (mem.cc): covers malloc/calloc/realloc/free/posix_memalign/aligned_alloc
// calls made by PLASMA's own objects while armed
void mem_arm(int on);
void mem_fill(int pattern);        // byte used to fill fresh memory, -1 = leave alone
void mem_fail_at(long k);          // the k-th armed allocation from now fails (1-based), 0 = none
long mem_allocs(void);             // armed allocations since the last mem_reset
long mem_failed(void);
void mem_reset(void);              // forget live table and counters
long mem_live(void);               // live armed allocations
size_t mem_live_bytes(void);
long mem_bad_free(void);           // frees of pointers freed before
uintptr_t mem_live_site(int i);    // return address of the i-th live allocation's malloc call
uintptr_t mem_fail_site(void);
long mem_overruns(uintptr_t *site); // blocks with bytes written behind their end, since the last call
size_t mem_peak(void);
void mem_forget(void *p);
int mem_lookup(const void *p, const void **base, size_t *sz);
// ---- kernel argument monitor (wraps.cc)
struct KArg { const char *what; uintptr_t pc; uint64_t count; char detail[96]; };
int  karg_reports(struct KArg *out, int max);   // and clears
uint64_t kernel_calls(void);
uint64_t kernel_bytes(void);
}
