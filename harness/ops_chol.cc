#include "core.h"
namespace {
// potrf, potrs, posv, pbtrf, pbtrs, pbsv
static const LR CF = CPLX ? 16 : 8;
// Hermitian positive definite (bandwidth kd) values; fail > 0: the leading minor of that order is the first that is not positive
struct Spd { LM a; int fail = 0; };
static Spd spd(Ctx &c, int n, int kd, int kind, bool want) {
    Spd s; s.a = LM(n, n); LM &a = s.a;
    if (kind <= 3) {   // unit lower L, D positive
        LM l(n, n); std::vector<double> d(n);
        for (int j = 0; j < n; j++) {
            l(j, j) = L(1); d[j] = 1 + c.pr.uni();
            for (int i = j + 1; i < n && i <= j + kd; i++) if (kind != 3 || c.pr.p(0.3)) l(i, j) = up(rT(c, V_UNI)) * (LR)(kind == 1 ? 1.2 / std::sqrt(2.0 + std::min(kd, n)) : 2.0 / (2 + std::min(kd, n)));
        }
        if (want) { int p = c.pr.p(0.25) ? n - 1 : c.pr.range(0, n - 1); d[p] = -1 - c.pr.uni(); if (c.pr.p(0.5)) for (int q = p + 1; q < n; q++) if (c.pr.p(0.2)) d[q] = -2; s.fail = p + 1; if (kind == 1) kind = 0; }
        for (int j = 0; j < n; j++) for (int i = j; i < n && i <= j + kd; i++) { L x = 0; for (int k = std::max(0, i - kd); k <= j; k++) x += l(i, k) * cj(l(j, k)) * (LR)d[k]; a(i, j) = x; }
    } else {           // diagonally dominant
        for (int j = 0; j < n; j++) for (int i = j; i < n && i <= j + kd; i++) a(i, j) = up(rT(c, kind == 4 ? V_INT : V_UNI));
        for (int j = 0; j < n; j++) { LR t = 1; for (int i = 0; i < n; i++) if (i != j && abs(i - j) <= kd) t += ab(i > j ? a(i, j) : a(j, i)); a(j, j) = L(t); }
        if (want) { int p = c.pr.range(0, n - 1); if (c.pr.p(0.5)) { for (int i = 0; i < n; i++) { if (i > p) a(i, p) = L(0); else a(p, i) = L(0); } a(p, p) = L(0); } else { a(p, p) = L(-1); } s.fail = p + 1; if (c.pr.p(0.5)) { int q = c.pr.range(p, n - 1); a(q, q) = L(-3); } }
    }
    if (kind == 5) { std::vector<double> g(n); for (auto &x : g) x = std::ldexp(1.0, c.pr.range(-12, 12)); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) a(i, j) *= (LR)(g[i] * g[j]); }
    for (int j = 0; j < n; j++) { a(j, j) = L(re(a(j, j))); for (int i = j; i < n; i++) { a(i, j) = up(down(a(i, j))); a(j, i) = cj(a(i, j)); } }
    return s;
}
static void put(Mat A, const LM &a, int uplo) { for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) if (uplo == PlasmaUpper ? i <= j : i >= j) A(i, j) = down(a(i, j)); }
static void outTri(Mat A, int uplo) { A.outIf([=](int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; }); }
// lower factor as L from either triangle
static LM factor(const Mat &A, int uplo) { int n = A.n; LM l(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) l(i, j) = uplo == PlasmaUpper ? cj(up(A(j, i))) : up(A(i, j)); return l; }
static bool checkChol(Ctx &c, const LM &l, const LM &a, int kd, AM &bd) {
    int n = l.n;
    for (int i = 0; i < n; i++) { c.evals++; LR d = re(l(i, i)); if (!(d > 0) || ab(l(i, i) - L(d)) != 0) { c.fail("diagonal", "diagonal %d of the factor is not a positive real number (%Lg)", i, d); return false; } }
    LM p = mm(l, op(l, PlasmaConjTrans)); AM b = absm(l), bt(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) bt(i, j) = b(j, i); bd = amm(b, bt);
    small(c, "factor", sub(p, a), bd, CF * (std::min(n, kd + 1) + 8) * EPS);
    return c.viols.empty();
}
static void checkSolve(Ctx &c, const LM &a, const AM &bd, const Mat &X) {
    LM x = get(X), b = getwas(X), r = sub(mm(a, x), b); AM e = amm(bd, absm(x)); for (size_t i = 0; i < e.v.size(); i++) e.v[i] += ab(b.v[i]);
    small(c, "residual", r, e, CF * 2 * (a.n + 8) * EPS);
}
static int kindp(Ctx &c) { return c.pr.range(0, 5); }
static bool info_sing(Ctx &c, int want) { if (!want) return false; c.evals++; if (c.info != want) c.fail("info-breakdown", "returned %d, the first failing position is %d", c.info, want); return true; }

struct Potrf : OpBase {
    int n, uplo, kind; Mat A; Spd s;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); kind = kindp(c); A = newmat(c, "A", n, n); outTri(A, uplo); s = spd(c, n, n, kind, c.want && n); put(A, s.a, uplo);
        c.D("uplo=%s n=%d kind=%d failing minor=%d", cE(uplo), n, kind, s.fail); shape(c, cE(uplo), n, n); if (s.fail) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PL(potrf)(uplo, n, X(A.p), A.ld); }
    void check(Ctx &c) override { if (info_sing(c, s.fail)) return; expect0(c); if (c.info) return; AM b; checkChol(c, factor(A, uplo), s.a, n, b); }
};
REGOP(Potrf, "potrf", F_PO | F_FAIL)
struct Posv : OpBase {
    int n, nr, uplo, kind; Mat A, B; Spd s;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); uplo = ruplo(c); kind = kindp(c); A = newmat(c, "A", n, n); outTri(A, uplo); s = spd(c, n, n, kind, c.want && n && nr); put(A, s.a, uplo);
        B = newmat(c, "B", n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("uplo=%s n=%d nrhs=%d kind=%d failing minor=%d", cE(uplo), n, nr, kind, s.fail); shape(c, cE(uplo), n, nr); if (s.fail) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PL(posv)(uplo, n, nr, X(A.p), A.ld, X(B.p), B.ld); }
    void check(Ctx &c) override { if (info_sing(c, s.fail)) return; expect0(c); if (c.info || !n || !nr) return; AM b; if (checkChol(c, factor(A, uplo), s.a, n, b)) checkSolve(c, s.a, b, B); }
};
REGOP(Posv, "posv", F_PO | F_FAIL)
struct Potrs : OpBase {
    int n, nr, uplo; Mat A, B; LM l;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); uplo = ruplo(c); A = newmat(c, "A", n, n); l = LM(n, n);
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) l(i, j) = up(i == j ? mkT(1 + c.pr.uni(), 0) : rT(c, V_UNI) * (R)(2.0 / (n + 2)));
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { if (uplo == PlasmaUpper) A(j, i) = down(cj(l(i, j))); else A(i, j) = down(l(i, j)); }
        B = newmat(c, "B", n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("uplo=%s n=%d nrhs=%d", cE(uplo), n, nr); shape(c, cE(uplo), n, nr);
    }
    void call(Ctx &c) override { c.info = PL(potrs)(uplo, n, nr, X(A.p), A.ld, X(B.p), B.ld); }
    void check(Ctx &c) override { expect0(c); if (!n || !nr) return; LM lh = op(l, PlasmaConjTrans); checkSolve(c, mm(l, lh), amm(absm(l), absm(lh)), B); }
};
REGOP(Potrs, "potrs", F_PO)

// ---------------------------------------------------------------- band
struct PB { Mat A; int n, kd, uplo; T &at(int i, int j) { return uplo == PlasmaUpper ? A(kd + j - i, i) : A(i - j, j); } };   // at(i,j), i >= j: entry (i,j), or (j,i) of the upper triangle
static T &pbat(PB &b, int i, int j) { return b.uplo == PlasmaUpper ? b.A(b.kd + j - i, i) : b.A(i - j, j); }
static PB newpb(Ctx &c, int n, int kd, int uplo, const LM &a, bool out) {
    PB b; b.n = n; b.kd = kd; b.uplo = uplo; b.A = newmat(c, "AB", kd + 1, n);
    for (int j = 0; j < n; j++) for (int i = j; i < n && i <= j + kd; i++) {
        pbat(b, i, j) = uplo == PlasmaUpper ? down(cj(a(i, j))) : down(a(i, j));
        if (out) { if (uplo == PlasmaUpper) b.A.out(kd + j - i, i); else b.A.out(i - j, j); }
    }
    return b;
}
static LM pbfactor(PB &b) { LM l(b.n, b.n); for (int j = 0; j < b.n; j++) for (int i = j; i < b.n && i <= j + b.kd; i++) { L x = up(pbat(b, i, j)); l(i, j) = b.uplo == PlasmaUpper ? cj(x) : x; } return l; }
static int rkd(Ctx &c, int n) { int nb = c.cfg.nb, mx = std::max(0, n - 1); double u = c.pr.uni(); if (u < 0.12) return 0; if (u < 0.25) return mx; if (u < 0.6) return std::min(mx, std::max(0, nb * c.pr.range(1, 3) + c.pr.range(-1, 1))); return c.pr.range(0, std::min(mx, 4 * nb)); }
static void pbtag(Ctx &c, int uplo, int n, int kd) { int nb = c.cfg.nb; char t[40]; snprintf(t, 40, "%s n%d kd%d%s", cE(uplo), std::min(6, (n + nb - 1) / nb), std::min(6, (kd + nb - 1) / nb), kd % nb ? "r" : ""); c.tag(t); }
struct Pbtrf : OpBase {
    int n, uplo, kd, kind; PB b; Spd s;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); kind = kindp(c); kd = rkd(c, n); s = spd(c, n, kd, kind, c.want && n); b = newpb(c, n, kd, uplo, s.a, true);
        c.D("uplo=%s n=%d kd=%d kind=%d failing minor=%d", cE(uplo), n, kd, kind, s.fail); pbtag(c, uplo, n, kd); if (s.fail) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PL(pbtrf)(uplo, n, kd, X(b.A.p), b.A.ld); }
    void check(Ctx &c) override { if (info_sing(c, s.fail)) return; expect0(c); if (c.info) return; AM bd; checkChol(c, pbfactor(b), s.a, kd, bd); }
};
REGOP(Pbtrf, "pbtrf", F_PB | F_FAIL)
struct Pbsv : OpBase {
    int n, nr, uplo, kd, kind; PB b; Mat B; Spd s;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); uplo = ruplo(c); kind = kindp(c); kd = rkd(c, n); s = spd(c, n, kd, kind, c.want && n && nr); b = newpb(c, n, kd, uplo, s.a, true);
        B = newmat(c, "B", n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("uplo=%s n=%d kd=%d nrhs=%d kind=%d failing minor=%d", cE(uplo), n, kd, nr, kind, s.fail); pbtag(c, uplo, n, kd); if (s.fail) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PL(pbsv)(uplo, n, kd, nr, X(b.A.p), b.A.ld, X(B.p), B.ld); }
    void check(Ctx &c) override { if (info_sing(c, s.fail)) return; expect0(c); if (c.info || !n || !nr) return; AM bd; if (checkChol(c, pbfactor(b), s.a, kd, bd)) checkSolve(c, s.a, bd, B); }
};
REGOP(Pbsv, "pbsv", F_PB | F_FAIL)
struct Pbtrs : OpBase {
    int n, nr, uplo, kd; PB b; Mat B; LM l;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); uplo = ruplo(c); kd = rkd(c, n); l = LM(n, n);
        for (int j = 0; j < n; j++) for (int i = j; i < n && i <= j + kd; i++) l(i, j) = up(i == j ? mkT(1 + c.pr.uni(), 0) : rT(c, V_UNI) * (R)(2.0 / (std::min(n, kd) + 2)));
        b = newpb(c, n, kd, uplo, l, false);
        B = newmat(c, "B", n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("uplo=%s n=%d kd=%d nrhs=%d", cE(uplo), n, kd, nr); pbtag(c, uplo, n, kd);
    }
    void call(Ctx &c) override { c.info = PL(pbtrs)(uplo, n, kd, nr, X(b.A.p), b.A.ld, X(B.p), B.ld); }
    void check(Ctx &c) override { expect0(c); if (!n || !nr) return; LM lh = op(l, PlasmaConjTrans); checkSolve(c, mm(l, lh), amm(absm(l), absm(lh)), B); }
};
REGOP(Pbtrs, "pbtrs", F_PB)

// ---------------------------------------------------------------- inverses
static AM atr(const AM &a) { AM r(a.n, a.m); for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) r(j, i) = a(i, j); return r; }
static void fwd(Ctx &c, const Mat &A, const LM &ref, const AM &bd, LR tol, std::function<bool(int,int)> reg) { cmp(c, "inverse", A, ref, bd, tol, reg); }
struct Tri { LM v; };
static LM rtri(Ctx &c, int n, int uplo, int kind) {   // well-conditioned triangular values
    LM l(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (uplo == PlasmaUpper ? i <= j : i >= j)
        l(i, j) = up(i == j ? mkT((c.pr.p(0.5) ? 1 : -1) * (1 + c.pr.uni()), c.pr.sym()) : kind == 1 ? rT(c, V_SPARSE) * (R)0.5 : rT(c, V_UNI) * (R)(3.0 / (n + 3)));
    return l;
}
struct Trtri : OpBase {
    int n, uplo, diag, kind, sing = 0; Mat A; LM l; std::vector<int> zeros;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); diag = c.pr.p(0.5) ? PlasmaUnit : PlasmaNonUnit; if (c.want && n) diag = PlasmaNonUnit; kind = c.pr.range(0, 1);
        A = newmat(c, "A", n, n); l = rtri(c, n, uplo, kind);
        if (c.want && n) { int k = c.pr.p(0.6) ? 1 : c.pr.range(1, 3); while (k--) { int p = c.pr.range(0, n - 1); l(p, p) = L(0); zeros.push_back(p + 1); } }
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (uplo == PlasmaUpper ? i <= j : i >= j) { if (i == j && diag == PlasmaUnit) { l(i, i) = L(1); continue; } A(i, j) = down(l(i, j)); A.out(i, j); }
        c.D("uplo=%s diag=%s n=%d kind=%d zeros=%zu", cE(uplo), cE(diag), n, kind, zeros.size()); shape(c, cE(uplo), n, n); if (!zeros.empty()) c.tag("failing"); c.tag(cE(diag));
    }
    void call(Ctx &c) override { c.info = PL(trtri)(uplo, diag, n, X(A.p), A.ld); }
    void check(Ctx &c) override {
        if (!zeros.empty()) { c.evals++; if (std::find(zeros.begin(), zeros.end(), c.info) == zeros.end()) c.fail("info-breakdown", "returned %d, the diagonal is zero at %d%s", c.info, zeros[0], zeros.size() > 1 ? " and other places" : ""); return; }
        expect0(c); if (c.info || !n) return; LM x; if (!lsolve(l, eye(n, n), x)) return; AM ax = absm(x);
        fwd(c, A, x, amm(amm(ax, absm(l)), ax), CF * (n + 8) * EPS, [&](int i, int j) { return uplo == PlasmaUpper ? (diag == PlasmaUnit ? i < j : i <= j) : (diag == PlasmaUnit ? i > j : i >= j); });
    }
};
REGOP(Trtri, "trtri", F_INV | F_FAIL)
struct Lauum : OpBase {
    int n, uplo; Mat A; LM l;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); int vm = vmode(c); A = newmat(c, "A", n, n); l = LM(n, n); outTri(A, uplo);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (uplo == PlasmaUpper ? i <= j : i >= j) { T x = rT(c, vm); if (i == j) x = mkT(std::real(std::complex<R>(x)), 0); A(i, j) = x; l(i, j) = up(x); }
        c.D("uplo=%s n=%d vm=%d", cE(uplo), n, vm); shape(c, cE(uplo), n, n);
    }
    void call(Ctx &c) override { c.info = PL(lauum)(uplo, n, X(A.p), A.ld); }
    void check(Ctx &c) override {
        expect0(c); LM lh = op(l, PlasmaConjTrans); bool u = uplo == PlasmaUpper; LM p = u ? mm(l, lh) : mm(lh, l); AM b = u ? amm(absm(l), absm(lh)) : amm(absm(lh), absm(l));
        cmp(c, "value", A, p, b, CF * (n + 8) * EPS, [&](int i, int j) { return u ? i <= j : i >= j; });
    }
};
REGOP(Lauum, "lauum", F_INV)
struct Potri : OpBase {
    int n, uplo, zero = 0; Mat A; LM l;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); A = newmat(c, "A", n, n); l = rtri(c, n, PlasmaLower, c.pr.range(0, 1)); for (int i = 0; i < n; i++) l(i, i) = up(mkT(1 + c.pr.uni(), 0)); outTri(A, uplo);
        if (c.want && n) { zero = c.pr.range(1, n); l(zero - 1, zero - 1) = L(0); }
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { if (uplo == PlasmaUpper) A(j, i) = down(cj(l(i, j))); else A(i, j) = down(l(i, j)); }
        c.D("uplo=%s n=%d zero=%d", cE(uplo), n, zero); shape(c, cE(uplo), n, n);
    }
    void call(Ctx &c) override { c.info = PL(potri)(uplo, n, X(A.p), A.ld); }
    void check(Ctx &c) override {
        if (info_sing(c, zero)) return; expect0(c); if (c.info || !n) return;
        LM x, lh = op(l, PlasmaConjTrans); if (!lsolve(l, eye(n, n), x)) return; LM inv = mm(op(x, PlasmaConjTrans), x); AM ax = absm(x), g = amm(amm(ax, absm(l)), ax), b = amm(atr(ax), g), b2 = amm(atr(g), ax); for (size_t i = 0; i < b.v.size(); i++) b.v[i] += b2.v[i];
        fwd(c, A, inv, b, CF * (n + 8) * EPS, [&](int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; });
    }
};
REGOP(Potri, "potri", F_INV | F_FAIL)
struct Poinv : OpBase {
    int n, uplo, kind; Mat A; Spd s;
    void setup(Ctx &c) override {
        n = dim(c); uplo = ruplo(c); kind = c.pr.pick({0, 2, 3, 4, 5}); A = newmat(c, "A", n, n); outTri(A, uplo); s = spd(c, n, n, kind, c.want && n); put(A, s.a, uplo);
        c.D("uplo=%s n=%d kind=%d failing minor=%d", cE(uplo), n, kind, s.fail); shape(c, cE(uplo), n, n); if (s.fail) c.tag("failing");
    }
    void call(Ctx &c) override { c.info = PL(poinv)(uplo, n, X(A.p), A.ld); }
    void check(Ctx &c) override {
        if (info_sing(c, s.fail)) return; expect0(c); if (c.info || !n) return; LM x; if (!lsolve(s.a, eye(n, n), x)) return;
        // bound of the method with the factor of the matrix
        LM l(n, n); for (int j = 0; j < n; j++) { LR d = re(s.a(j, j)); for (int k = 0; k < j; k++) d -= re(l(j, k) * cj(l(j, k))); d = sqrtl(d); l(j, j) = L(d); for (int i = j + 1; i < n; i++) { L t = s.a(i, j); for (int k = 0; k < j; k++) t -= l(i, k) * cj(l(j, k)); l(i, j) = t / d; } }
        LM y; if (!lsolve(l, eye(n, n), y)) return; AM ay = absm(y), al = absm(l), q = amm(atr(ay), ay), ll = amm(al, atr(al));   // |L^-H||L^-1|, |L||L^H|
        fwd(c, A, x, amm(amm(q, ll), q), CF * 2 * (n + 8) * EPS, [&](int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; });
    }
};
REGOP(Poinv, "poinv", F_INV | F_FAIL)
static void fillge(Ctx &c, Mat A, int kind) {
    int n = A.n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { A(i, j) = kind == 1 ? mkT(c.pr.range(-3, 3), c.pr.range(-3, 3)) : rT(c, V_UNI); if (kind == 2 && i == (j * 5 + 1) % n) A(i, j) += mkT(n, 0); if (kind <= 1 && i == n - 1 - j) A(i, j) += mkT(5 * n, 0); }
}
static void luref(Ctx &c, const Mat &A, AM &bd, LM &x, bool &ok) { // extended LU for |Ainv| and |L||U|
    int n = A.n; LM a = getwas(A); ok = lsolve(a, eye(n, n), x); LM f = a; std::vector<int> p(n);
    LM l = eye(n, n), u(n, n); for (int k = 0; k < n; k++) { int q = k; for (int i = k + 1; i < n; i++) if (ab1(f(i, k)) > ab1(f(q, k))) q = i; p[k] = q; for (int j = 0; j < n; j++) std::swap(f(k, j), f(q, j)); for (int i = k + 1; i < n; i++) { f(i, k) /= f(k, k); for (int j = k + 1; j < n; j++) f(i, j) -= f(i, k) * f(k, j); } }
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i > j) l(i, j) = f(i, j); else u(i, j) = f(i, j);
    LM ui, li; ok = ok && lsolve(u, eye(n, n), ui) && lsolve(l, eye(n, n), li);
    AM q = amm(absm(ui), absm(li)), m = amm(absm(l), absm(u));                        // columns in pivot order
    AM b = amm(amm(q, m), q); for (int k = n - 1; k >= 0; k--) if (p[k] != k) for (int i = 0; i < n; i++) std::swap(b(i, k), b(i, p[k]));
    bd = b;
}
struct Getri : OpBase {
    int n, kind, i1 = 0, zero = 0; Mat A; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); kind = c.pr.range(0, 2); A = newmat(c, "A", n, n); A.outAll(); ip = newvec<int>(c, "ipiv", n, -7); ip.outAll(); fillge(c, A, kind);
        if (c.want && n) { zero = c.pr.range(1, n); for (int j = 0; j < n; j++) { ip[j] = c.pr.range(j + 1, n); A(j, j) = j == zero - 1 ? T(0) : mkT(2, 0); } }
        c.D("n=%d kind=%d zero=%d", n, kind, zero); shape(c, "A", n, n);
    }
    void call(Ctx &c) override { if (!zero) i1 = PL(getrf)(n, n, X(A.p), A.ld, ip.p); c.info = i1 ? i1 : PL(getri)(n, X(A.p), A.ld, ip.p); }
    void check(Ctx &c) override { if (info_sing(c, zero)) return; expect0(c); if (c.info || !n) return; AM b; LM x; bool ok; luref(c, A, b, x, ok); if (ok) fwd(c, A, x, b, CF * 4 * (n + 8) * EPS, nullptr); }
};
REGOP(Getri, "getri", F_INV | F_FAIL | F_PANEL)
struct Geinv : OpBase {
    int n, kind, sing = 0; Mat A; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); kind = c.pr.range(0, 2); A = newmat(c, "A", n, n); A.outAll(); ip = newvec<int>(c, "ipiv", n, -7); ip.outAll(); fillge(c, A, kind);
        if (c.want && n) { sing = c.pr.range(1, n); for (int i = 0; i < n; i++) A(i, sing - 1) = T(0); }
        c.D("n=%d kind=%d zero column=%d", n, kind, sing); shape(c, "A", n, n);
    }
    void call(Ctx &c) override { c.info = PL(geinv)(n, n, X(A.p), A.ld, ip.p); }
    void check(Ctx &c) override { if (info_sing(c, sing)) return; expect0(c); if (c.info || !n) return; AM b; LM x; bool ok; luref(c, A, b, x, ok); if (ok) fwd(c, A, x, b, CF * 4 * (n + 8) * EPS, nullptr); }
};
REGOP(Geinv, "geinv", F_INV | F_FAIL | F_PANEL)
struct GetriAux : OpBase {
    int n; Mat A; LM u, l;
    void setup(Ctx &c) override {
        n = dim(c); A = newmat(c, "A", n, n); A.outAll(); u = rtri(c, n, PlasmaUpper, 0); l = rtri(c, n, PlasmaLower, c.pr.range(0, 1)); for (int i = 0; i < n; i++) l(i, i) = L(1);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A(i, j) = down(i > j ? l(i, j) : u(i, j));
        c.D("n=%d", n); shape(c, "A", n, n);
    }
    void call(Ctx &c) override { c.info = PL(getri_aux)(n, X(A.p), A.ld); }
    void check(Ctx &c) override { expect0(c); if (!n) return; LM li; lsolve(l, eye(n, n), li); LM x = mm(u, li); AM al = absm(li); fwd(c, A, x, amm(amm(amm(absm(u), al), absm(l)), al), CF * (n + 8) * EPS, nullptr); }
};
REGOP(GetriAux, "getri_aux", F_INV)
}
