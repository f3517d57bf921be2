// HARNESS_O2 VARIANT_AWARE
#include "mon.h"
#include "vomp.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <vector>
#include <unordered_map>
#include <mutex>
extern "C" {
void *__real_malloc(size_t) __asm__("malloc"); void *__real_calloc(size_t, size_t) __asm__("calloc"); void *__real_realloc(void *, size_t) __asm__("realloc");
void __real_free(void *) __asm__("free"); int __real_posix_memalign(void **, size_t, size_t) __asm__("posix_memalign"); void *__real_aligned_alloc(size_t, size_t) __asm__("aligned_alloc");
void *__real_memcpy(void *, const void *, size_t) __asm__("memcpy"); void *__real_memset(void *, int, size_t) __asm__("memset"); void *__real_memmove(void *, const void *, size_t) __asm__("memmove");
}
struct Rec { size_t n; uintptr_t pc; long serial; };
static std::unordered_map<void *, Rec> live;
static std::recursive_mutex mu;
static bool armed = false; static int fill = -1;
static long failat = 0, nalloc = 0, nfailed = 0, badfree = 0; static size_t bytes = 0, peak = 0;
static uintptr_t failsite = 0;
static std::unordered_map<void *, long> freed;
// bytes behind every block PLASMA allocates, which nobody may write
#ifdef VARIANT_A
enum { TAIL = 0 };
#else
enum { TAIL = 64 };
#endif
static long noverrun = 0; static uintptr_t oversite = 0;
static void checktail(void *p, const Rec &r) { for (int i = 0; i < TAIL; i++) if (((unsigned char*)p)[r.n + i] != 0xC7) { if (getenv("VDEBUG")) { fprintf(stderr, "overrun %p n %zu pc %lx:", p, r.n, r.pc); for (int q = 0; q < TAIL; q++) fprintf(stderr, " %02x", ((unsigned char*)p)[r.n + q]); fprintf(stderr, "\n"); } noverrun++; oversite = r.pc; return; } }
#define PC ((uintptr_t)__builtin_return_address(0))
static bool fails(uintptr_t pc) {
    if (!armed) return false;
    nalloc++;
    if (failat > 0 && --failat == 0) { nfailed++; failsite = pc; errno = ENOMEM; return true; }
    return false;
}
static void *note(void *p, size_t n, uintptr_t pc, bool zero) {
    if (!p) return p;
    race_fresh(p, n);
    if (armed) {
        live[p] = {n, pc, nalloc}; if (TAIL) __real_memset((char*)p + n, 0xC7, TAIL); freed.erase(p); bytes += n; if (bytes > peak) peak = bytes;
        if (fill >= 0 && !zero) __real_memset(p, fill, n);
    }
    return p;
}
#define LOCK std::lock_guard<std::recursive_mutex> g(mu)
extern "C" {
void *__wrap_malloc(size_t n) { LOCK; uintptr_t pc = PC; if (fails(pc)) return 0; return note(__real_malloc(n + TAIL), n, pc, false); }
void *__wrap_calloc(size_t a, size_t b) { LOCK; uintptr_t pc = PC; if (fails(pc)) return 0; return note(__real_calloc(1, a * b + TAIL), a * b, pc, true); }
void *__wrap_aligned_alloc(size_t a, size_t n) { LOCK; uintptr_t pc = PC; if (fails(pc)) return 0; return note(__real_aligned_alloc(a, TAIL ? (n + TAIL + a - 1) / a * a : n), n, pc, false); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { LOCK; uintptr_t pc = PC; if (fails(pc)) return ENOMEM; int r = __real_posix_memalign(p, a, n + TAIL); if (!r) note(*p, n, pc, false); return r; }
static void drop(void *p) {
    auto it = live.find(p);
    if (it != live.end()) {
        race_fresh(p, it->second.n); checktail(p, it->second);
        bytes -= it->second.n;
#ifndef VARIANT_A
        if (armed) __real_memset(p, 0xDD, it->second.n);
#endif
        live.erase(it);
        if (armed) freed[p] = 1;
    } else if (armed && p && freed.count(p)) badfree++;
}
void __wrap_free(void *p) { LOCK;
#ifndef VARIANT_A
    if (armed && p && !live.count(p) && freed.count(p)) { badfree++; return; }   // do not crash on a double free
#endif
    drop(p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { LOCK; uintptr_t pc = PC;
    if (fails(pc)) return 0;
    auto it = live.find(p);
    size_t old = it != live.end() ? it->second.n : 0;
    if (it != live.end()) { checktail(p, it->second); bytes -= old; live.erase(it); }
    void *q = __real_realloc(p, n + TAIL);
    if (armed && q) { live[q] = {n, pc, nalloc}; if (TAIL) __real_memset((char*)q + n, 0xC7, TAIL); bytes += n; race_fresh(q, n); if (fill >= 0 && n > old && old) __real_memset((char*)q + old, fill, n - old); }
    return q; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { race_range(s, n, 0, PC); race_range(d, n, 1, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { race_range(s, n, 0, PC); race_range(d, n, 1, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { race_range(d, n, 1, PC); return __real_memset(d, c, n); }
void mem_arm(int on) { armed = on; }
void mem_fill(int p) { fill = p; }
void mem_fail_at(long k) { failat = k; }
long mem_allocs(void) { return nalloc; }
long mem_failed(void) { return nfailed; }
void mem_reset(void) { LOCK; live.clear(); freed.clear(); nalloc = nfailed = badfree = noverrun = 0; failat = 0; bytes = peak = 0; failsite = 0; }
long mem_live(void) { return live.size(); }
long mem_overruns(uintptr_t *site) { LOCK; for (auto &x : live) checktail(x.first, x.second); *site = oversite; long k = noverrun; noverrun = 0; return k; }
size_t mem_live_bytes(void) { return bytes; }
size_t mem_peak(void) { return peak; }
long mem_bad_free(void) { return badfree; }
uintptr_t mem_live_site(int i) { uintptr_t best = 0; std::vector<std::pair<long,uintptr_t>> v; for (auto &x : live) v.push_back({x.second.serial, x.second.pc}); 
    for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) if (v[b] < v[a]) std::swap(v[a], v[b]);
    return i < (int)v.size() ? v[i].second : 0; }
uintptr_t mem_fail_site(void) { return failsite; }
void mem_forget(void *p) { LOCK; auto it = live.find(p); if (it != live.end()) { bytes -= it->second.n; live.erase(it); } }
int mem_lookup(const void *p, const void **base, size_t *sz) { LOCK; for (auto &x : live) if ((char*)p >= (char*)x.first && (char*)p < (char*)x.first + x.second.n) { *base = x.first; *sz = x.second.n; return 1; } return 0; }
}
