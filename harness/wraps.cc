// HARNESS_O2 VARIANT_AWARE
// Wrappers around every BLAS/LAPACK kernel PLASMA calls.  They check the arguments, check (under
// AddressSanitizer) that the ranges the kernel will touch are addressable, and tell the race monitor
// what is read and written.
#include "mon.h"
#include "vomp.h"
#include <complex>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
typedef std::complex<float> fc; typedef std::complex<double> dc;
#define PC ((uintptr_t)__builtin_return_address(0))
#ifdef VARIANT_A
extern "C" void *__asan_region_is_poisoned(void *, size_t);
#endif
static KArg K_[32]; static int nK; static uint64_t calls, bytes;
template<class T> static inline bool nz(const void *a) { return *(const T*)a != T(0); }
static void rec(const char *w, uintptr_t pc, const char *d) {
    for (int i = 0; i < nK; i++) if (K_[i].pc == pc && !strcmp(K_[i].what, w)) { K_[i].count++; return; }
    if (nK < 32) { K_[nK].what = w; K_[nK].pc = pc; K_[nK].count = 1; snprintf(K_[nK].detail, 96, "%s", d); nK++; }
}
struct K {
    const char *nm; uintptr_t pc;
    K(const char *n, uintptr_t p) : nm(n), pc(p) { calls++; }
    void dims(int a, int b, int c) { if (a < 0 || b < 0 || c < 0) { char d[96]; snprintf(d, 96, "negative dimension %d %d %d", a, b, c); rec(nm, pc, d); } }
    void ld(int l, int m) { if (l < (m > 1 ? m : 1)) { char d[96]; snprintf(d, 96, "leading dimension %d < %d", l, m); rec(nm, pc, d); } }
    void ret(int r) { if (r < 0) { char d[96]; snprintf(d, 96, "kernel returned %d", r); rec(nm, pc, d); } }
    void span(const void *p, size_t n, int w) {
        bytes += n;
#ifdef VARIANT_A
        void *b = __asan_region_is_poisoned((void*)p, n);
        if (b) { char d[96]; snprintf(d, 96, "out-of-bounds %s of %zu bytes, bad at +%ld", w ? "write" : "read", n, (long)((char*)b - (char*)p)); rec(nm, pc, d); }
#endif
        race_range(p, n, w, pc);
    }
    void ge(const void *a, size_t es, int m, int n, int ld, int w) {
        if (m <= 0 || n <= 0) return;
        for (int j = 0; j < n; j++) span((const char*)a + (size_t)j * ld * es, (size_t)m * es, w);
    }
    // upper/lower trapezoid of an m-by-n matrix; strict: without the diagonal
    void tz(const void *a, size_t es, int m, int n, int ld, char u, int strict, int w) {
        u |= 32;
        if (u != 'u' && u != 'l') { ge(a, es, m, n, ld, w); return; }
        for (int j = 0; j < n; j++) {
            int lo = u == 'u' ? 0 : j + strict, hi = u == 'u' ? (j + 1 - strict < m ? j + 1 - strict : m) : m;
            if (lo < hi) span((const char*)a + ((size_t)j * ld + lo) * es, (size_t)(hi - lo) * es, w);
        }
    }
    void trc(const void *a, size_t es, int n, int ld, char u, int strict, int w) { tz(a, es, n, n, ld, u, strict, w); }
    void tr(const void *a, size_t es, int n, int ld, int u, int strict, int w) { tz(a, es, n, n, ld, u == 121 ? 'U' : 'L', strict, w); }
    void ve(const void *x, size_t es, int n, int inc, int w) {
        if (n <= 0) return;
        if (inc == 1) { span(x, (size_t)n * es, w); return; }
        const char *p = (const char*)x; long st = inc; if (inc < 0) { p += (size_t)(n - 1) * -inc * es; }
        for (int i = 0; i < n; i++) span(p + (long)i * st * (long)es, es, w);
    }
};
#include "wraps.inc"
extern "C" {
int karg_reports(KArg *o, int max) { int n = nK < max ? nK : max; memcpy(o, K_, n * sizeof(KArg)); nK = 0; return n; }
uint64_t kernel_calls(void) { return calls; }
uint64_t kernel_bytes(void) { return bytes; }
// OpenBLAS / LAPACK / LAPACKE error handlers: a kernel was handed an illegal argument
void xerbla_(const char *s, const int *info, size_t len) { char d[96]; snprintf(d, 96, "xerbla %.*s argument %d", (int)(len < 16 ? len : 16), s, *info); rec("xerbla", PC, d); }
void cblas_xerbla(int p, const char *rout, const char *form, ...) { char d[96]; snprintf(d, 96, "cblas_xerbla %s argument %d", rout, p); rec("xerbla", PC, d); }
void LAPACKE_xerbla(const char *name, int info) { char d[96]; snprintf(d, 96, "LAPACKE_xerbla %s %d", name, info); rec("xerbla", PC, d); }
}
