#include "core.h"
#include "band.h"
#if defined(PREC_Z) || defined(PREC_D)
#if defined(PREC_Z)
#define PM(x) plasma_zc##x
#else
#define PM(x) plasma_ds##x
#endif
namespace {
// zcgesv, zcposv, zcgbsv (dsgesv, ...): iterative refinement of a single precision solution, or the fallback
static const int ITMAX = 30;
enum { K_RAND, K_DOM, K_ILL, K_OVER, K_TINY, K_DENORM, K_FSING, K_BOVER, NK };
static const char *KN[] = {"random", "dominant", "ill-conditioned", "overflow", "tiny", "denormal", "float-singular", "rhs-overflow"};
static LR f32(LR x) { return (LR)(float)(double)x; }
// values with |i-j| inside the band (kl below, ku above); hermitian: lower triangle decides
static LM values(Ctx &c, int n, int kl, int ku, bool herm, int kind, int want, int &sing) {
    LM a(n, n); sing = 0; if (!n) return a;
    auto in = [&](int i, int j) { return i - j <= kl && j - i <= ku; };
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j) && (!herm || i >= j)) a(i, j) = up(rT(c, V_UNI));
    if (herm) for (int j = 0; j < n; j++) { a(j, j) = L(re(a(j, j))); for (int i = j + 1; i < n; i++) a(j, i) = cj(a(i, j)); }
    bool dom = herm || kind != K_RAND;
    if (dom) for (int i = 0; i < n; i++) { LR s = 1; for (int j = 0; j < n; j++) if (j != i) s += std::max(ab(a(i, j)), ab(a(j, i))); a(i, i) = L((herm || c.pr.p(0.5)) ? s : -s); }
    if (want) {
        int p = c.pr.p(0.25) ? n - 1 : c.pr.range(0, n - 1); sing = p + 1;
        if (herm) a(p, p) = c.pr.p(0.5) ? L(-1) : L(0); else for (int i = 0; i < n; i++) a(i, p) = L(0);
        if (herm && re(a(p, p)) == 0) for (int i = 0; i < n; i++) a(i, p) = a(p, i) = L(0);
        return a;
    }
    if ((kind == K_FSING || kind == K_ILL) && n > 1 && kl > 0 && ku > 0) {
        int p = c.pr.range(0, n - 2);
        for (int i = 0; i < n; i++) { a(i, p) = a(p, i) = a(i, p + 1) = a(p + 1, i) = L(0); }
        a(p, p) = a(p + 1, p) = a(p, p + 1) = L(1); a(p + 1, p + 1) = L(1 + std::ldexp(1.0, kind == K_FSING ? -40 : -c.pr.range(12, 22)));
    }
    LR f = kind == K_OVER && c.pr.p(0.5) ? 1e60L : kind == K_TINY ? 1e-200L : kind == K_DENORM ? 1e-41L : 1;
    if (f != 1) for (auto &x : a.v) x *= f; else if (kind == K_OVER) { int p = c.pr.range(0, n - 1); a(p, p) *= 1e45L; }
    for (auto &x : a.v) x = up(down(x));
    return a;
}
static void rhs(Ctx &c, Mat B, int kind) {
    for (int j = 0; j < B.n; j++) {
        double f = c.pr.p(0.1) ? 1e20 : c.pr.p(0.1) ? 1e-20 : c.pr.p(0.05) ? 0 : 1;
        for (int i = 0; i < B.m; i++) B(i, j) = rT(c, V_UNI) * (R)f;
    }
    if (kind == K_BOVER) B(c.pr.range(0, B.m - 1), c.pr.range(0, B.n - 1)) = mkT(c.pr.p(0.5) ? 1e50 : -1e50, 0);
}
static void judge(Ctx &c, int n, const LM &a, const Mat &X, const Mat &B, int iter, int kind, bool fsing) {
    c.evals++;
    char t[48]; snprintf(t, 48, "%s %s", KN[kind], iter < 0 ? "fallback" : iter == 0 ? "iter0" : iter == 1 ? "iter1" : iter < 4 ? "iter2-3" : "iter4+"); c.tag(t);
    if (!((iter >= 0 && iter <= ITMAX) || iter == -(ITMAX + 1))) { c.fail("iter", "iter = %d, not within 0..%d and not %d", iter, ITMAX, -(ITMAX + 1)); return; }
    bool must = kind == K_OVER || kind == K_TINY || kind == K_BOVER || (kind == K_FSING && fsing);
    if (must && iter >= 0) { c.fail("iter-fallback", "iter = %d for a system single precision cannot represent (%s)", iter, KN[kind]); return; }
    if (kind == K_DOM && n >= 8 && iter < 0) { c.fail("iter-refinement", "refinement was given up (iter = %d) for a diagonally dominant matrix", iter); return; }
    LM x = get(X), r = sub(mm(a, x), get(B)); LR an = 0;
    for (int i = 0; i < n; i++) { LR s = 0; for (int j = 0; j < n; j++) s += ab(a(i, j)); an = std::max(an, s); }
    LR tol = iter >= 0 ? (CPLX ? 1.45L : 1.02L) * sqrtl(n) + (CPLX ? 4 : 2) * (n + 4) : (CPLX ? 16 : 8) * 50.0L * (n + 8);
    for (int j = 0; j < X.n; j++) {
        LR xn = 0, rn = 0; bool bad = false, allf = true;
        for (int i = 0; i < n; i++) { c.evals++; LR v = ab(x(i, j)), w = ab(r(i, j)); if (!std::isfinite(v)) bad = true; xn = std::max(xn, v); rn = std::max(rn, w);
            if (f32(re(x(i, j))) != re(x(i, j)) || f32(ab(x(i, j) - L(re(x(i, j))))) != ab(x(i, j) - L(re(x(i, j))))) allf = false; }
        if (bad) { c.fail("residual", "column %d of X is not finite (iter %d)", j, iter); return; }
        if (!(rn <= tol * EPS * an * xn + 64 * (LR)std::numeric_limits<R>::min())) { c.fail(iter >= 0 ? "residual" : "residual-fallback", "column %d: residual %Lg > %Lg * eps * |A| * |X| = %Lg (iter %d)", j, rn, tol, tol * EPS * an * xn, iter); return; }
        if (iter == 0 && !allf) { c.fail("iter-zero", "iter = 0, but column %d of X is not a single precision vector", j); return; }
    }
}
static int rk(Ctx &c) { return c.pr.p(0.25) ? (int)K_DOM : c.pr.range(0, NK - 1); }
struct MixBase : OpBase {
    int n, nr, kind, sing = 0, iter = -77; Mat A, B, Xm; LM a; Vec<int> it;
    void common(Ctx &c) {
        B = newmat(c, "B", n, nr); Xm = newmat(c, "X", n, nr); Xm.outAll(); if (n && nr) rhs(c, B, kind); else for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = T(1);
        it = newvec<int>(c, "iter", 1, -77); it.outAll();
    }
    void finish(Ctx &c, bool fs) {
        if (sing) { c.evals++; if (c.info != sing) c.fail("info-breakdown", "returned %d, the first failing position is %d", c.info, sing); if (it[0] != -(ITMAX + 1)) c.fail("iter", "iter = %d with a matrix that cannot be factored", it[0]); return; }
        expect0(c); if (c.info) return;
        if (!n || !nr) { if (it[0] != 0) c.fail("iter", "iter = %d for an empty problem", it[0]); return; }
        judge(c, n, a, Xm, B, it[0], kind, fs);
    }
    void blank(Ctx &c, Vec<int> *ip) { if (c.info > 0) { if (ip) for (int i = 0; i < n; i++) (*ip)[i] = 0; for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) Xm(i, j) = T(0); } }
};
struct Mgesv : MixBase {
    Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 12); kind = rk(c); A = newmat(c, "A", n, n); A.outAll(); a = values(c, n, n, n, false, kind, c.want && n && nr, sing);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A(i, j) = down(a(i, j));
        ip = newvec<int>(c, "ipiv", n, -7); ip.outAll(); common(c);
        c.D("n=%d nrhs=%d kind=%s zero pivot=%d", n, nr, KN[kind], sing); shape(c, "A", n, nr); if (sing) c.tag("singular");
    }
    void call(Ctx &c) override { c.info = PM(gesv)(n, nr, X(A.p), A.ld, ip.p, X(B.p), B.ld, X(Xm.p), Xm.ld, it.p); blank(c, &ip); }
    void check(Ctx &c) override { finish(c, n > 1); }
};
REGOP(Mgesv, "gesv-mixed", F_MIX | F_PANEL | F_FAIL)
struct Mposv : MixBase {
    int uplo;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 12); uplo = ruplo(c); kind = rk(c); A = newmat(c, "A", n, n); a = values(c, n, n, n, true, kind, c.want && n && nr, sing);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (uplo == PlasmaUpper ? i <= j : i >= j) { A(i, j) = down(a(i, j)); A.out(i, j); }
        common(c);
        c.D("uplo=%s n=%d nrhs=%d kind=%s failing minor=%d", cE(uplo), n, nr, KN[kind], sing); shape(c, cE(uplo), n, nr); if (sing) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PM(posv)(uplo, n, nr, X(A.p), A.ld, X(B.p), B.ld, X(Xm.p), Xm.ld, it.p); blank(c, nullptr); }
    void check(Ctx &c) override { finish(c, n > 1); }
};
REGOP(Mposv, "posv-mixed", F_MIX | F_FAIL)
struct Mgbsv : MixBase {
    int kl, ku; Band b; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 12); int nb = c.cfg.nb; kind = rk(c);
        kl = c.pr.p(0.1) ? 0 : c.pr.range(0, std::max(0, std::min(n - 1, 2 * nb))); ku = c.pr.p(0.1) ? 0 : c.pr.range(0, std::max(0, std::min(n - 1, 2 * nb)));
        if (kind == K_RAND && ku == 0) kind = K_DOM;
        b = newband(c, n, n, kl, ku); a = values(c, n, kl, ku, false, kind, c.want && n && nr, sing);
        for (int j = 0; j < n; j++) for (int i = std::max(0, j - ku); i <= std::min(n - 1, j + kl); i++) b.at(i, j) = down(a(i, j));
        ip = newvec<int>(c, "ipiv", n, -7); ip.outAll(); common(c);
        c.D("n=%d kl=%d ku=%d nrhs=%d kind=%s zero pivot=%d", n, kl, ku, nr, KN[kind], sing); shape(c, "A", n, nr); if (sing) c.tag("singular");
    }
    void call(Ctx &c) override { c.info = PM(gbsv)(n, kl, ku, nr, X(b.A.p), b.A.ld, ip.p, X(B.p), B.ld, X(Xm.p), Xm.ld, it.p); blank(c, &ip); }
    void check(Ctx &c) override { finish(c, n > 1 && kl > 0 && ku > 0); }
};
REGOP(Mgbsv, "gbsv-mixed", F_MIX | F_PANEL | F_FAIL)
}
#endif
