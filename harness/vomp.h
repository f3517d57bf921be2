// Controlled OpenMP task runtime (libgomp ABI) used in place of libgomp.
#pragma once
#include <stdint.h>
#include <stddef.h>
struct VompStats {
    uint64_t regions, tasks, deps, edges, yields, steals, barriers, taskwaits, max_live;
    uint64_t order_hash;   // hash of the executed task order of the last region
};
struct VompConfig {
    int nthreads;          // team size
    uint64_t seed;
    int strategy;          // 0 fifo 1 lifo 2 random 3 pct-priority 4 eager-random 5 eager-lifo
    int preempt;           // 1/preempt chance of a yield at an instrumented access (0 = never)
};
extern "C" {
void vomp_configure(const VompConfig *c);
void vomp_stats(VompStats *s);       // cumulative
void vomp_reset_stats(void);
const char *vomp_deadlock(void);
}
// race monitor (variant r only; stubs elsewhere)
struct RaceReport { uintptr_t pc1, pc2, addr; int w1, w2; uint64_t count; };
extern "C" {
int  race_active(void);
void race_enable(int on);
int  race_reports(RaceReport *out, int max);   // and clears
void race_stats(uint64_t *accesses, uint64_t *checked_pairs, uint64_t *max_tasks);
void race_range(const void *p, size_t n, int write, uintptr_t pc);
void race_fresh(const void *p, size_t n);      // memory (re)allocated or freed
// writes to the given ranges by tasks that start when *status is set (r != nullptr: starts watching; nullptr: stops); variant r only
void late_watch(const volatile int *status, const void *const *p, const size_t *n, int k);
int  late_reports(RaceReport *out, int max);   // pc1: the access, addr, count; and clears
void late_stats(uint64_t *tasks, uint64_t *writes);   // tasks that started late; writes of others to the watched ranges
}
