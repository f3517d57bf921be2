// Common part of the harness: random source, guarded buffers, case context, op registry.
#pragma once
#include <plasma.h>
#include "vomp.h"
#include "mon.h"
#undef I
#undef complex
#include <complex>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <cmath>
#include <cfloat>
#include <climits>
#include <limits>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/mman.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) { s = x; }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int range(int a, int b) { return b <= a ? a : a + (int)(next() % (uint64_t)(b - a + 1)); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double sym() { return 2 * uni() - 1; }
    bool p(double q) { return uni() < q; }
    template<class V> V pick(std::initializer_list<V> l) { auto it = l.begin(); std::advance(it, next() % l.size()); return *it; }
};

static inline uint64_t mix64(uint64_t a, uint64_t b, uint64_t c) { Rng r(a * 1000003 + b); r.s ^= c * 7919; return r.next(); }

struct Cfg {
    int nb = 8, ib = 4, mtpf = 1, tree = 0, tuning = 0;      // part of the problem
    int threads = 4, strat = 2, preempt = 0; uint64_t sseed = 1; // schedule
};

struct Buf {
    std::string name; char *raw = nullptr, *p = nullptr; size_t bytes = 0, es = 1;
    std::vector<uint8_t> role;   // per element: 0 keep, 1 output, 2 may be written
    std::vector<char> before;
    size_t guard = 0;
    int rows = 0, ld = 0;
    size_t wld = 0, map = 0;     // rows of the columns which exist; bytes mapped (wide matrices)
    char *at(size_t k) const { return map ? p + ((k / wld) * (size_t)ld + k % wld) * es : p + k * es; }
    ~Buf() { if (map) munmap(raw, map); else free(raw); }
};

struct Viol { std::string kind, msg; };

struct Ctx {
    Rng pr, junk; Cfg cfg; int junkmode = 1; bool zerodims = false; int big = 0, huge = 0;
    int want = 0;                   // case class asked for by the mode (0 = ordinary)
    std::vector<std::unique_ptr<Buf>> bufs;
    std::string desc; std::vector<Viol> viols; int info = 0; bool called = false;
    uint64_t evals = 0; std::set<std::string> tags;
    std::vector<long double> outs;  // scalar results
    std::vector<std::function<void()>> cleanup;
    Ctx(uint64_t seed) : pr(seed), junk(seed ^ 0x5555) {}
    ~Ctx() { for (auto &f : cleanup) f(); }
    void D(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); desc += b; }
    void fail(const char *kind, const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (viols.size() < 8) viols.push_back({kind, b}); }
    void tag(const std::string &t) { tags.insert(t); }
    Buf *alloc(const char *name, size_t n, size_t es) {
        auto b = std::make_unique<Buf>();
        b->name = name; b->es = es; b->bytes = n * es;
#ifdef __SANITIZE_ADDRESS__
        b->guard = 0;
#else
        b->guard = exact_alloc() ? 0 : 256;
#endif
        b->raw = (char*)malloc(b->bytes + 2 * b->guard + (b->bytes == 0));
        memset(b->raw, 0xA5, b->bytes + 2 * b->guard);
        b->p = b->raw + b->guard;
        b->role.assign(n, 0);
        bufs.push_back(std::move(b));
        return bufs.back().get();
    }
    static bool &exact_alloc() { static bool x = false; return x; }
    // leading dimensions so large that element offsets exceed 32 bits: only the pages of the columns themselves are accessible
    static bool &wide() { static bool x = false; return x; }
    Buf *allocwide(const char *name, int rows, size_t n, int ld, size_t es) {
        auto b = std::make_unique<Buf>();
        const size_t pg = 4096; b->name = name; b->es = es; b->wld = rows; b->ld = ld;
        size_t span = (n - 1) * (size_t)ld * es + rows * es; b->map = (span + 3 * pg) / pg * pg;
        b->raw = (char*)mmap(nullptr, b->map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b->raw == MAP_FAILED) { fprintf(stderr, "cannot reserve address space\n"); exit(5); }
        b->p = b->raw + pg; b->bytes = rows * n * es;
        for (size_t j = 0; j < n; j++) { size_t o = (b->p - b->raw) + j * (size_t)ld * es, e = o + rows * es; o = o / pg * pg; if (mprotect(b->raw + o, (e + pg - 1) / pg * pg - o, PROT_READ | PROT_WRITE)) { fprintf(stderr, "cannot map\n"); exit(5); } }
        b->role.assign(rows * n, 0); bufs.push_back(std::move(b)); return bufs.back().get();
    }
    static double &hugep() { static double x = 0; return x; }      // share of cases with tiles and dimensions of ordinary use
    static bool &bare() { static bool x = false; return x; }      // no reference computations inside call()
    static bool &primary() { static bool x = false; return x; }   // the run is about this operation's own property
    void snapshot() { for (auto &b : bufs) if (!b->map) b->before.assign(b->p, b->p + b->bytes); else { b->before.resize(b->bytes); for (size_t k = 0; k < b->role.size(); k++) memcpy(&b->before[k * b->es], b->at(k), b->es); } }
    // bits of everything that is not an output must be unchanged
    void frame() {
        for (auto &b : bufs) {
            for (size_t i = 0; i < b->guard; i++)
                if ((unsigned char)b->raw[i] != 0xA5 || (unsigned char)b->p[b->bytes + i] != 0xA5) { fail("frame-guard", "memory outside %s written (guard byte %zu)", b->name.c_str(), i); break; }
            for (size_t i = 0; i < b->role.size(); i++) if (!b->role[i]) {
                evals++;
                if (memcmp(b->at(i), b->before.data() + i * b->es, b->es)) {
                    int ld = b->map ? (int)b->wld : b->ld ? b->ld : 1;
                    fail("frame", "%s(%zu,%zu) [ld %d, rows %d] is not an output but was changed", b->name.c_str(), i % ld, i / ld, b->ld, b->rows); break;
                }
            }
        }
    }
    uint64_t hash_out(bool all = false) {
        uint64_t h = 1469598103934665603ull;
        for (auto &b : bufs) for (size_t i = 0; i < b->role.size(); i++) if (all || b->role[i] == 1)
            for (size_t k = 0; k < b->es; k++) h = (h ^ (unsigned char)b->at(i)[k]) * 1099511628211ull;
        for (long double x : outs) { double d = x; unsigned char *q = (unsigned char*)&d; for (int k = 0; k < 8; k++) h = (h ^ q[k]) * 1099511628211ull; }
        h = (h ^ (unsigned)info) * 1099511628211ull;
        return h;
    }
};

struct OpBase {
    virtual ~OpBase() {}
    virtual void setup(Ctx &c) = 0;   // depends on c.pr (problem) and c.junk (unreferenced content) only
    virtual void call(Ctx &c) = 0;    // the calls under test, and release of what they hand out
    virtual void check(Ctx &c) = 0;   // oracle
};
enum { F_BLAS3 = 1, F_ELEM = 2, F_NORM = 4, F_LU = 8, F_GB = 16, F_PO = 32, F_PB = 64, F_QR = 128, F_LS = 256,
       F_INV = 512, F_HE = 1024, F_SVD = 2048, F_EV = 4096, F_MIX = 8192,
       F_FAIL = 1 << 14,      // can be asked for a numerical breakdown (c.want == 1)
       F_THREADDEP = 1 << 15, // task decomposition depends on the number of threads
       F_PANEL = 1 << 16,     // has cooperating panel threads
       F_LAYOUT = 1 << 17, F_SEQ = 1 << 18, F_CORE = 1 << 19, F_ARGS = 1 << 20,
};
extern "C" { void GOMP_parallel(void (*)(void *), void *, unsigned, unsigned); int omp_get_thread_num(void); int omp_get_num_threads(void); }
// #pragma omp parallel / master
static inline void par(std::function<void()> f) { GOMP_parallel([](void *p) { if (omp_get_thread_num() == 0) (*(std::function<void()>*)p)(); }, &f, 0, 0); }
struct OpDef { std::string name; char prec; int flags; std::function<OpBase*()> make; };
inline std::vector<OpDef> &registry() { static std::vector<OpDef> r; return r; }
struct Reg { Reg(const char *n, char p, int f, std::function<OpBase*()> m) { registry().push_back({n, p, f, m}); } };

static inline void gencfg(Ctx &c) {
    Rng &r = c.pr;
    double u = r.uni();
    if (u < 0.08) c.cfg.nb = r.pick({1, 2});
    else if (u < 0.75) c.cfg.nb = r.range(3, 9);
    else if (u < 0.93) c.cfg.nb = r.range(10, 20);
    else { c.cfg.nb = r.range(21, 64); }
    if (Ctx::hugep() > 0 && r.p(Ctx::hugep())) { c.huge = 1; c.cfg.nb = r.p(0.7) ? r.pick({64, 80, 96, 100, 128, 160, 192, 256}) : r.range(33, 256); }
    c.big = r.p(0.08);
    c.cfg.ib = r.p(0.2) ? c.cfg.nb : r.range(1, c.cfg.nb);
    if (c.huge) c.cfg.ib = r.pick({16, 20, 32, 48, 64, c.cfg.nb});
    c.cfg.mtpf = r.p(0.5) ? 1 : r.range(2, 4);
    c.cfg.tree = r.p(0.5);
}
static inline const char *cE(int e) {
    switch (e) { case PlasmaNoTrans: return "N"; case PlasmaTrans: return "T"; case PlasmaConjTrans: return "C"; case PlasmaUpper: return "U"; case PlasmaLower: return "L";
    case PlasmaGeneral: return "G"; case PlasmaUnit: return "1"; case PlasmaNonUnit: return "0"; case PlasmaLeft: return "left"; case PlasmaRight: return "right";
    case PlasmaOneNorm: return "one"; case PlasmaInfNorm: return "inf"; case PlasmaFrobeniusNorm: return "fro"; case PlasmaMaxNorm: return "max";
    case PlasmaColumnwise: return "col"; case PlasmaRowwise: return "row"; } return "?";
}
// ------------------------------------------------------------------ precision
#if defined(PREC_Z) || defined(PREC_C)
#define CPLX 1
#else
#define CPLX 0
#endif
#if defined(PREC_Z)
typedef std::complex<double> T; typedef double R; typedef plasma_complex64_t PT;
#define PCH 'z'
#define PL(x) plasma_z##x
#define PO(x) plasma_omp_z##x
#define PUN(x) plasma_zun##x
#define POUN(x) plasma_omp_zun##x
#define PHE(x) plasma_zhe##x
#define POHE(x) plasma_omp_zhe##x
#define PAMAX plasma_dzamax
#define PTYPE PlasmaComplexDouble
#elif defined(PREC_C)
typedef std::complex<float> T; typedef float R; typedef plasma_complex32_t PT;
#define PCH 'c'
#define PL(x) plasma_c##x
#define PO(x) plasma_omp_c##x
#define PUN(x) plasma_cun##x
#define POUN(x) plasma_omp_cun##x
#define PHE(x) plasma_che##x
#define POHE(x) plasma_omp_che##x
#define PAMAX plasma_scamax
#define PTYPE PlasmaComplexFloat
#elif defined(PREC_D)
typedef double T; typedef double R; typedef double PT;
#define PCH 'd'
#define PL(x) plasma_d##x
#define PO(x) plasma_omp_d##x
#define PUN(x) plasma_dor##x
#define POUN(x) plasma_omp_dor##x
#define PHE(x) plasma_dsy##x
#define POHE(x) plasma_omp_dsy##x
#define PAMAX plasma_damax
#define PTYPE PlasmaRealDouble
#elif defined(PREC_S)
typedef float T; typedef float R; typedef float PT;
#define PCH 's'
#define PL(x) plasma_s##x
#define PO(x) plasma_omp_s##x
#define PUN(x) plasma_sor##x
#define POUN(x) plasma_omp_sor##x
#define PHE(x) plasma_ssy##x
#define POHE(x) plasma_omp_ssy##x
#define PAMAX plasma_samax
#define PTYPE PlasmaRealFloat
#endif

#ifdef PCH
namespace { // everything below differs between precisions
typedef long double LR;
#if CPLX
typedef std::complex<long double> L;
static inline L up(T x) { return L(x.real(), x.imag()); }
static inline L cj(L x) { return std::conj(x); }
static inline LR re(L x) { return x.real(); }
static inline T cjT(T x) { return std::conj(x); }
static inline LR ab(L x) { return hypotl(x.real(), x.imag()); }
static inline LR ab1(L x) { return fabsl(x.real()) + fabsl(x.imag()); }
static inline T mkT(double a, double b) { return T((R)a, (R)b); }
static inline T down(L x) { return T((R)x.real(), (R)x.imag()); }
static inline bool isn(T x) { return std::isnan(x.real()) || std::isnan(x.imag()); }
#else
typedef long double L;
static inline L up(T x) { return x; }
static inline L cj(L x) { return x; }
static inline LR re(L x) { return x; }
static inline T cjT(T x) { return x; }
static inline LR ab(L x) { return fabsl(x); }
static inline LR ab1(L x) { return fabsl(x); }
static inline T mkT(double a, double) { return (T)a; }
static inline T down(L x) { return (T)x; }
static inline bool isn(T x) { return std::isnan(x); }
#endif
static const LR EPS = std::numeric_limits<R>::epsilon() / 2;
static inline PT *X(T *p) { return (PT*)p; }
static inline PT S(T x) { PT r; memcpy(&r, &x, sizeof r); return r; }

struct Mat {
    int m = 0, n = 0, ld = 1; T *p = nullptr; Buf *b = nullptr;
    T &operator()(int i, int j) const { return p[(size_t)i + (size_t)j * ld]; }
    size_t ri(int i, int j) const { return (size_t)i + (size_t)j * (b->map ? b->wld : (size_t)ld); }
    int rows() const { return b->map ? (int)b->wld : ld; }
    void out(int i, int j) const { b->role[ri(i, j)] = 1; }
    void outAll() const { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) out(i, j); }
    void outIf(std::function<bool(int,int)> f) const { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (f(i, j)) out(i, j); }
    // content before the call
    T was(int i, int j) const { T x; memcpy(&x, b->before.data() + ri(i, j) * sizeof(T), sizeof x); return x; }
};

static inline T junkval(Ctx &c) {
    switch (c.junkmode) {
    case 0: return mkT(c.junk.sym(), c.junk.sym());
    case 1: { R q = std::numeric_limits<R>::quiet_NaN(); return mkT(q, q); }
    case 2: return mkT(c.junk.sym() * 1e30, c.junk.sym() * 1e30);
    default: { R q = std::numeric_limits<R>::infinity(); return mkT(c.junk.p(0.5) ? q : -q, 0); }
    }
}
// every entry (padding included) starts as junk
static inline Mat newmat(Ctx &c, const char *name, int m, int n, int ldx = -1) {
    Mat A; A.m = m; A.n = n;
    int pad = ldx >= 0 ? ldx : (c.pr.p(0.5) ? 0 : c.pr.range(1, 5));
    A.ld = std::max(1, m + pad);
    if (Ctx::wide() && n > 0 && ldx < 0) {
        double f = std::ldexp(1.0, 31) / std::max(1, n - 1) * (1 + 3 * Rng(mix64(A.ld, n, c.bufs.size())).uni());
        int rows = A.ld; A.ld = (int)std::min(std::max(f + 64, (double)A.ld), (double)INT_MAX);
        A.b = c.allocwide(name, rows, n, A.ld, sizeof(T));
    } else { A.b = c.alloc(name, (size_t)A.ld * n, sizeof(T)); A.b->ld = A.ld; }
    A.b->rows = m;
    A.p = (T*)A.b->p;
    for (size_t i = 0; i < A.b->role.size(); i++) *(T*)A.b->at(i) = junkval(c);
    return A;
}
template<class E> struct Vec { int n; E *p; Buf *b; E &operator[](int i) const { return p[i]; } void outAll() const { std::fill(b->role.begin(), b->role.end(), 1); } };
template<class E> static inline Vec<E> newvec(Ctx &c, const char *name, int n, E init) {
    Vec<E> v; v.n = n; v.b = c.alloc(name, n, sizeof(E)); v.p = (E*)v.b->p; v.b->rows = n; v.b->ld = n;
    for (int i = 0; i < n; i++) v.p[i] = init;
    return v;
}

// ------------------------------------------------------------------ random values
enum { V_UNI, V_INT, V_WIDE, V_SPARSE };
static inline int vmode(Ctx &c) { double u = c.pr.uni(); return u < 0.45 ? V_UNI : u < 0.75 ? V_INT : u < 0.87 ? V_WIDE : V_SPARSE; }
static inline double rv(Ctx &c, int mode) {
    switch (mode) {
    case V_INT: return c.pr.range(-3, 3);
    case V_WIDE: return c.pr.sym() * std::ldexp(1.0, c.pr.range(-8, 8));
    case V_SPARSE: return c.pr.p(0.5) ? 0 : c.pr.sym();
    default: return c.pr.sym();
    }
}
static inline T rT(Ctx &c, int mode) { double a = rv(c, mode), b = CPLX ? rv(c, mode) : 0; return mkT(a, b); }
static inline T scalar(Ctx &c, int mode) {
    double u = c.pr.uni();
    if (u < 0.15) return mkT(0, 0);
    if (u < 0.40) return mkT(1, 0);
    if (u < 0.50) return mkT(-1, 0);
    if (mode == V_INT) return mkT(c.pr.range(-2, 2), CPLX ? c.pr.range(-2, 2) : 0);
    return mkT(c.pr.sym() * 2, c.pr.sym() * 2);
}
static inline R rscalar(Ctx &c, int mode) {
    double u = c.pr.uni();
    if (u < 0.15) return 0; if (u < 0.40) return 1; if (u < 0.50) return -1;
    if (mode == V_INT) return c.pr.range(-2, 2);
    return c.pr.sym() * 2;
}
static inline int dim(Ctx &c, int cap = 0, bool allowzero = true) {
    int nb = c.cfg.nb;
    if (c.zerodims && allowzero && c.pr.p(0.4)) return 0;
    int mx = std::min(nb * 7, cap ? cap : 56);
    if (c.big && !cap) mx = std::min(nb * 12, 110);
    if (c.huge) mx = std::min(nb * 3 + 7, cap ? 3 * cap : 400);
    if (mx < 1) mx = 1;
    double u = c.pr.uni();
    int d;
    if (u < 0.06) d = 1;
    else if (u < 0.12) d = c.pr.range(1, nb);
    else if (u < 0.45) d = nb * c.pr.range(1, std::max(1, mx / nb)) + c.pr.range(-1, 1);
    else d = c.pr.range(1, mx);
    if (d < 1) d = 1; if (d > mx) d = mx;
    return d;
}
static inline int rtrans(Ctx &c) { return c.pr.pick({(int)PlasmaNoTrans, (int)PlasmaTrans, (int)PlasmaConjTrans}); }
static inline int ruplo(Ctx &c) { return c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower}); }

// ------------------------------------------------------------------ extended-precision reference
struct LM {
    int m, n; std::vector<L> v;
    LM(int m_ = 0, int n_ = 0) : m(m_), n(n_), v((size_t)m_ * n_, L(0)) {}
    L &operator()(int i, int j) { return v[(size_t)i + (size_t)j * m]; }
    const L &operator()(int i, int j) const { return v[(size_t)i + (size_t)j * m]; }
};
struct AM { // real matrix of absolute values
    int m, n; std::vector<LR> v;
    AM(int m_ = 0, int n_ = 0) : m(m_), n(n_), v((size_t)m_ * n_, 0) {}
    LR &operator()(int i, int j) { return v[(size_t)i + (size_t)j * m]; }
    const LR &operator()(int i, int j) const { return v[(size_t)i + (size_t)j * m]; }
};
static inline LM get(const Mat &A, int m = -1, int n = -1) { LM r(m < 0 ? A.m : m, n < 0 ? A.n : n); for (int j = 0; j < r.n; j++) for (int i = 0; i < r.m; i++) r(i, j) = up(A(i, j)); return r; }
static inline LM getwas(const Mat &A) { LM r(A.m, A.n); for (int j = 0; j < r.n; j++) for (int i = 0; i < r.m; i++) r(i, j) = up(A.was(i, j)); return r; }
static inline LM op(const LM &A, int t) {
    if (t == PlasmaNoTrans) return A;
    LM r(A.n, A.m);
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) r(j, i) = t == PlasmaConjTrans ? cj(A(i, j)) : A(i, j);
    return r;
}
static inline LM mm(const LM &A, const LM &B) {
    LM r(A.m, B.n);
    for (int j = 0; j < B.n; j++) for (int k = 0; k < A.n; k++) { L b = B(k, j); if (b == L(0)) continue; for (int i = 0; i < A.m; i++) r(i, j) += A(i, k) * b; }
    return r;
}
static inline AM absm(const LM &A) { AM r(A.m, A.n); for (size_t i = 0; i < A.v.size(); i++) r.v[i] = ab(A.v[i]); return r; }
static inline AM amm(const AM &A, const AM &B) {
    AM r(A.m, B.n);
    for (int j = 0; j < B.n; j++) for (int k = 0; k < A.n; k++) { LR b = B(k, j); if (b == 0) continue; for (int i = 0; i < A.m; i++) r(i, j) += A(i, k) * b; }
    return r;
}
static inline LR fro(const LM &A) { LR s = 0; for (auto &x : A.v) { LR a = ab(x); s += a * a; } return sqrtl(s); }
static inline LR nrm1(const LM &A) { LR b = 0; for (int j = 0; j < A.n; j++) { LR s = 0; for (int i = 0; i < A.m; i++) s += ab(A(i, j)); b = std::max(b, s); } return b; }
static inline LM sub(const LM &A, const LM &B) { LM r = A; for (size_t i = 0; i < r.v.size(); i++) r.v[i] -= B.v[i]; return r; }
static inline LM eye(int m, int n) { LM r(m, n); for (int i = 0; i < std::min(m, n); i++) r(i, i) = L(1); return r; }
// Solves A X = B by LU with partial pivoting in extended precision; false if singular.
static inline bool lsolve(LM A, LM B, LM &Xo) {
    int n = A.n;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (ab(A(i, k)) > ab(A(p, k))) p = i;
        if (ab(A(p, k)) == 0) return false;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(k, j)); for (int j = 0; j < B.n; j++) std::swap(B(p, j), B(k, j)); }
        for (int i = k + 1; i < n; i++) { L f = A(i, k) / A(k, k); if (f == L(0)) continue; for (int j = k + 1; j < n; j++) A(i, j) -= f * A(k, j); for (int j = 0; j < B.n; j++) B(i, j) -= f * B(k, j); }
    }
    for (int j = 0; j < B.n; j++) for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < n; k++) B(i, j) -= A(i, k) * B(k, j); B(i, j) /= A(i, i); }
    Xo = B; return true;
}
static inline bool same(T a, T b) { return !memcmp(&a, &b, sizeof a) || a == b; }
// |C - ref| <= tol*bound + tiny, entry by entry, over a region
static inline void cmp(Ctx &c, const char *kind, const Mat &C, const LM &ref, const AM &bound, LR tol, std::function<bool(int,int)> reg = nullptr) {
    for (int j = 0; j < C.n; j++) for (int i = 0; i < C.m; i++) {
        if (reg && !reg(i, j)) continue;
        c.evals++;
        L x = up(C(i, j)); LR d = ab(x - ref(i, j));
        LR lim = tol * bound(i, j) + 64 * (LR)std::numeric_limits<R>::min();
        if (!(d <= lim)) { c.fail(kind, "%s(%d,%d): |%Lg - ref %Lg| err %Lg > %Lg", C.b->name.c_str(), i, j, ab(x), ab(ref(i, j)), d, lim); return; }
    }
}
static inline void small(Ctx &c, const char *kind, const LM &E, const AM &bound, LR tol) {
    for (int j = 0; j < E.n; j++) for (int i = 0; i < E.m; i++) {
        c.evals++;
        LR d = ab(E(i, j)), lim = tol * bound(i, j) + 64 * (LR)std::numeric_limits<R>::min();
        if (!(d <= lim)) { c.fail(kind, "residual(%d,%d) = %Lg > %Lg", i, j, d, lim); return; }
    }
}
static inline void smallnorm(Ctx &c, const char *kind, LR e, LR lim) { c.evals++; if (!(e <= lim + 64 * (LR)std::numeric_limits<R>::min())) c.fail(kind, "norm %Lg > %Lg", e, lim); }
static inline void exact(Ctx &c, const char *kind, const Mat &C, const LM &ref, std::function<bool(int,int)> reg = nullptr) {
    for (int j = 0; j < C.n; j++) for (int i = 0; i < C.m; i++) {
        if (reg && !reg(i, j)) continue;
        c.evals++;
        L x = up(C(i, j));
        if (!(x == ref(i, j))) { c.fail(kind, "%s(%d,%d) is (%Lg,%Lg), exactly (%Lg,%Lg) expected", C.b->name.c_str(), i, j, re(x), (LR)(CPLX ? std::imag(std::complex<LR>(x)) : 0), re(ref(i, j)), (LR)(CPLX ? std::imag(std::complex<LR>(ref(i, j))) : 0)); return; }
    }
}
static inline void expect0(Ctx &c) { if (c.info != 0) c.fail("info", "returned %d, 0 expected", c.info); }
static inline void shape(Ctx &c, const char *p, int m, int n) {
    int nb = c.cfg.nb; char b[64];
    snprintf(b, 64, "%s%dx%d%s%s", p, std::min(5, (m + nb - 1) / nb), std::min(5, (n + nb - 1) / nb), m % nb ? "r" : "", n % nb ? "c" : ""); c.tag(b);
}
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REGOP(CLS, NAME, FLAGS) static Reg CAT(reg_, CLS)(NAME, PCH, FLAGS, [] { return (OpBase*)new CLS; });
#endif
