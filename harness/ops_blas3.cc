#include "core.h"
namespace {
// gemm, symm, hemm, syrk, herk, syr2k, her2k, trmm, trsm, gbmm
static const LR CF = CPLX ? 16 : 8;
static LM scaled(L a, const LM &A) { LM r = A; for (auto &x : r.v) x *= a; return r; }
// C <- alpha*P + beta*C with |P| <= B; a zero coefficient means "not referenced"
struct Expr {
    Mat C; T alpha, beta; int vm;
    void verify(Ctx &c, const LM &P, const AM &PB, int k, std::function<bool(int,int)> reg = nullptr, L al = L(0), bool useal = false, L be = L(0)) {
        L a = useal ? al : up(alpha), b = useal ? be : up(beta);
        LM ref(C.m, C.n); AM bd(C.m, C.n);
        for (int j = 0; j < C.n; j++) for (int i = 0; i < C.m; i++) {
            if (reg && !reg(i, j)) continue;
            L x = 0; LR y = 0;
            if (a != L(0)) { x += a * P(i, j); y += ab(a) * PB(i, j); }
            if (b != L(0)) { L w = up(C.was(i, j)); x += b * w; y += ab(b) * ab(w); }
            ref(i, j) = x; bd(i, j) = y;
        }
        if (vm == V_INT) exact(c, "value-exact", C, ref, reg);
        else cmp(c, "value", C, ref, bd, CF * (k + 6) * EPS, reg);
    }
};
static void fillif(Ctx &c, Mat A, int vm, std::function<bool(int,int)> reg = nullptr) {
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) { T x = rT(c, vm); if (!reg || reg(i, j)) A(i, j) = x; }
}
static std::function<bool(int,int)> tri(int uplo) { return [uplo](int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; }; }

struct Gemm : OpBase {
    int ta, tb, m, n, k; Mat A, B; Expr e;
    void setup(Ctx &c) override {
        ta = rtrans(c); tb = rtrans(c); m = dim(c); n = dim(c); k = dim(c); e.vm = vmode(c);
        e.alpha = scalar(c, e.vm); e.beta = scalar(c, e.vm);
        A = ta == PlasmaNoTrans ? newmat(c, "A", m, k) : newmat(c, "A", k, m);
        B = tb == PlasmaNoTrans ? newmat(c, "B", k, n) : newmat(c, "B", n, k);
        e.C = newmat(c, "C", m, n);
        bool za = false, zb = e.beta == T(0) && c.pr.p(0.7);  // contents may be anything
        if (!za) { fillif(c, A, e.vm); fillif(c, B, e.vm); }
        if (!zb) fillif(c, e.C, e.vm);
        e.C.outAll();
        c.D("ta=%s tb=%s m=%d n=%d k=%d vm=%d alpha=%g beta=%g", cE(ta), cE(tb), m, n, k, e.vm, (double)std::real(e.alpha), (double)std::real(e.beta));
        shape(c, "C", m, n); c.tag(std::string("gemm") + cE(ta) + cE(tb)); shape(c, "k", k, 1);
    }
    void call(Ctx &c) override { c.info = PL(gemm)(ta, tb, m, n, k, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, S(e.beta), X(e.C.p), e.C.ld); }
    void check(Ctx &c) override { expect0(c); LM a = op(get(A), ta), b = op(get(B), tb); e.verify(c, mm(a, b), amm(absm(a), absm(b)), k); }
};
REGOP(Gemm, "gemm", F_BLAS3)

template<bool HE> struct Symm : OpBase {
    int side, uplo, m, n; Mat A, B; Expr e;
    void setup(Ctx &c) override {
        side = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); uplo = ruplo(c); m = dim(c); n = dim(c); e.vm = vmode(c);
        int na = side == PlasmaLeft ? m : n;
        e.alpha = scalar(c, e.vm); e.beta = scalar(c, e.vm);
        A = newmat(c, "A", na, na); B = newmat(c, "B", m, n); e.C = newmat(c, "C", m, n);
        bool za = false, zb = e.beta == T(0) && c.pr.p(0.7);
        if (!za) { fillif(c, A, e.vm, tri(uplo)); fillif(c, B, e.vm);
            if (HE) for (int i = 0; i < na; i++) A(i, i) = mkT(std::real(A(i, i)), c.junkmode == 1 ? 0.75 : 0.25); } // imaginary part of the diagonal is not referenced
        if (!zb) fillif(c, e.C, e.vm);
        e.C.outAll();
        c.D("side=%s uplo=%s m=%d n=%d vm=%d alpha=%g beta=%g", cE(side), cE(uplo), m, n, e.vm, (double)std::real(e.alpha), (double)std::real(e.beta));
        shape(c, "C", m, n); c.tag(std::string("symm") + cE(side) + cE(uplo));
    }
    void call(Ctx &c) override {
#if CPLX
        if (HE) c.info = PL(hemm)(side, uplo, m, n, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, S(e.beta), X(e.C.p), e.C.ld); else
#endif
        c.info = PL(symm)(side, uplo, m, n, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, S(e.beta), X(e.C.p), e.C.ld);
    }
    void check(Ctx &c) override {
        expect0(c); int na = A.n; LM a(na, na);
        auto in = tri(uplo);
        for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) {
            L x = in(i, j) ? up(A(i, j)) : (HE ? cj(up(A(j, i))) : up(A(j, i)));
            if (HE && i == j) x = L(re(x));
            a(i, j) = x;
        }
        LM b = get(B);
        if (side == PlasmaLeft) e.verify(c, mm(a, b), amm(absm(a), absm(b)), na); else e.verify(c, mm(b, a), amm(absm(b), absm(a)), na);
    }
};
typedef Symm<false> SymmS; REGOP(SymmS, "symm", F_BLAS3)
#if CPLX
typedef Symm<true> SymmH; REGOP(SymmH, "hemm", F_BLAS3)
#endif

// rank-k (K2=false) and rank-2k updates
template<bool HE, bool K2> struct Syrk : OpBase {
    int uplo, tr, n, k; Mat A, B; Expr e; R ra, rb;
    void setup(Ctx &c) override {
        uplo = ruplo(c); n = dim(c); k = dim(c); e.vm = vmode(c);
        tr = c.pr.p(0.5) ? PlasmaNoTrans : (HE ? PlasmaConjTrans : PlasmaTrans);
        e.alpha = scalar(c, e.vm); e.beta = scalar(c, e.vm); ra = rscalar(c, e.vm); rb = rscalar(c, e.vm);
        A = tr == PlasmaNoTrans ? newmat(c, "A", n, k) : newmat(c, "A", k, n);
        if (K2) B = tr == PlasmaNoTrans ? newmat(c, "B", n, k) : newmat(c, "B", k, n);
        e.C = newmat(c, "C", n, n);
        bool a0 = HE && !K2 ? ra == 0 : e.alpha == T(0), b0 = HE ? rb == 0 : e.beta == T(0);
        bool za = false, zb = b0 && c.pr.p(0.7);
        if (!za) { fillif(c, A, e.vm); if (K2) fillif(c, B, e.vm); }
        if (!zb) { fillif(c, e.C, e.vm, tri(uplo)); if (HE) for (int i = 0; i < n; i++) e.C(i, i) = mkT(std::real(e.C(i, i)), 0); }
        e.C.outIf(tri(uplo));
        c.D("uplo=%s trans=%s n=%d k=%d vm=%d alpha=%g beta=%g", cE(uplo), cE(tr), n, k, e.vm, HE && !K2 ? (double)ra : (double)std::real(e.alpha), HE ? (double)rb : (double)std::real(e.beta));
        shape(c, "C", n, n); shape(c, "k", k, 1); c.tag(std::string("rk") + cE(uplo) + cE(tr));
    }
    void call(Ctx &c) override {
#if CPLX
        if (HE && !K2) c.info = PL(herk)(uplo, tr, n, k, ra, X(A.p), A.ld, rb, X(e.C.p), e.C.ld);
        else if (HE && K2) c.info = PL(her2k)(uplo, tr, n, k, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, rb, X(e.C.p), e.C.ld);
        else
#endif
        if (!K2) c.info = PL(syrk)(uplo, tr, n, k, S(e.alpha), X(A.p), A.ld, S(e.beta), X(e.C.p), e.C.ld);
        else c.info = PL(syr2k)(uplo, tr, n, k, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, S(e.beta), X(e.C.p), e.C.ld);
    }
    void check(Ctx &c) override {
        expect0(c);
        int h = HE ? PlasmaConjTrans : PlasmaTrans;
        LM a = op(get(A), tr);  // n x k
        LM P; AM PB;
        if (!K2) { P = mm(a, op(a, h)); PB = amm(absm(a), absm(op(a, h))); e.verify(c, P, PB, k, tri(uplo), HE ? L(ra) : up(e.alpha), true, HE ? L(rb) : up(e.beta)); }
        else {
            LM b = op(get(B), tr);
            L al = up(e.alpha), al2 = HE ? cj(al) : al;
            LM p1 = scaled(al, mm(a, op(b, h))), p2 = scaled(al2, mm(b, op(a, h)));
            P = p1; for (size_t i = 0; i < P.v.size(); i++) P.v[i] += p2.v[i];
            AM q1 = amm(absm(a), absm(op(b, h))), q2 = amm(absm(b), absm(op(a, h)));
            PB = q1; for (size_t i = 0; i < PB.v.size(); i++) PB.v[i] = ab(al) * (PB.v[i] + q2.v[i]);
            e.verify(c, P, PB, 2 * k, tri(uplo), al == L(0) ? L(0) : L(1), true, HE ? L(rb) : up(e.beta));
        }
        if (HE) for (int i = 0; i < n; i++) { c.evals++; if (std::imag(std::complex<LR>(up(e.C(i, i)))) != 0) { c.fail("diag-imag", "C(%d,%d) is not real", i, i); break; } }
    }
};
typedef Syrk<false,false> SyrkS; REGOP(SyrkS, "syrk", F_BLAS3)
typedef Syrk<false,true> Syr2kS; REGOP(Syr2kS, "syr2k", F_BLAS3)
#if CPLX
typedef Syrk<true,false> HerkH; REGOP(HerkH, "herk", F_BLAS3)
typedef Syrk<true,true> Her2kH; REGOP(Her2kH, "her2k", F_BLAS3)
#endif

template<bool SOLVE> struct Trxm : OpBase {
    int side, uplo, tr, diag, m, n, vm; Mat A, B; T alpha; LM Xex;
    void setup(Ctx &c) override {
        side = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); uplo = ruplo(c); tr = rtrans(c); diag = c.pr.pick({(int)PlasmaUnit, (int)PlasmaNonUnit});
        m = dim(c); n = dim(c); vm = vmode(c); if (SOLVE && vm == V_WIDE) vm = V_UNI;
        alpha = scalar(c, vm);
        int na = side == PlasmaLeft ? m : n;
        A = newmat(c, "A", na, na); B = newmat(c, "B", m, n);
        B.outAll();
        bool za = false;
        auto in = tri(uplo);
        if (!za) {
            for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) {
                T x = rT(c, vm);
                if (SOLVE) { if (vm == V_INT) x = mkT(c.pr.p(0.6) ? 0 : c.pr.range(-1, 1), CPLX && c.pr.p(0.3) ? c.pr.range(-1, 1) : 0); else if (i != j) x *= (R)(2.0 / (na + 2)); }
                if (i == j) {
                    if (diag == PlasmaUnit) continue;
                    if (SOLVE) x = vm == V_INT ? mkT(c.pr.pick({1, -1, 2}), 0) : mkT((c.pr.p(0.5) ? 1 : -1) * (1 + c.pr.uni()), c.pr.sym());
                }
                if (in(i, j)) A(i, j) = x;
            }
            if (SOLVE && vm == V_INT) {
                // choose an integer solution; B = op(A) X / alpha stays exact for alpha in {1,-1,2,1/2}
                Xex = LM(m, n); for (auto &x : Xex.v) x = up(mkT(c.pr.range(-2, 2), CPLX ? c.pr.range(-2, 2) : 0));
                alpha = mkT(c.pr.pick({1.0, -1.0, 2.0, 0.5}), 0);
                LM a = op(full(), tr); LM b = side == PlasmaLeft ? mm(a, Xex) : mm(Xex, a);
                for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) B(i, j) = down(b(i, j) / up(alpha));
                LR big = 0; AM w = side == PlasmaLeft ? amm(absm(a), absm(Xex)) : amm(absm(Xex), absm(a)); for (LR x : w.v) big = std::max(big, x);
                if (big * 8 > 1.0L / EPS) { vm = V_UNI; }
            } else fillif(c, B, vm);
        } else { vm = V_UNI; }
        c.D("side=%s uplo=%s trans=%s diag=%s m=%d n=%d vm=%d alpha=%g", cE(side), cE(uplo), cE(tr), cE(diag), m, n, vm, (double)std::real(alpha));
        shape(c, "B", m, n); c.tag(std::string("tr") + cE(side) + cE(uplo) + cE(tr) + cE(diag));
    }
    LM full() { int na = A.n; LM a(na, na); auto in = tri(uplo); for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) if (in(i, j)) a(i, j) = i == j && diag == PlasmaUnit ? L(1) : up(A(i, j)); return a; }
    void call(Ctx &c) override {
        if (SOLVE) c.info = PL(trsm)(side, uplo, tr, diag, m, n, S(alpha), X(A.p), A.ld, X(B.p), B.ld);
        else c.info = PL(trmm)(side, uplo, tr, diag, m, n, S(alpha), X(A.p), A.ld, X(B.p), B.ld);
    }
    void check(Ctx &c) override {
        expect0(c);
        if (alpha == T(0)) { LM z(m, n); exact(c, "zero-alpha", B, z); return; }
        LM a = op(full(), tr);
        if (!SOLVE) {
            LM b = getwas(B), P = side == PlasmaLeft ? mm(a, b) : mm(b, a); AM PB = side == PlasmaLeft ? amm(absm(a), absm(b)) : amm(absm(b), absm(a));
            P = scaled(up(alpha), P); for (auto &x : PB.v) x *= ab(up(alpha));
            if (vm == V_INT) exact(c, "value-exact", B, P); else cmp(c, "value", B, P, PB, CF * (A.n + 6) * EPS);
        } else if (vm == V_INT && Xex.m == m && Xex.n == n && m * n > 0) exact(c, "value-exact", B, Xex);
        else {
            LM x = get(B), r = side == PlasmaLeft ? mm(a, x) : mm(x, a); AM bd = side == PlasmaLeft ? amm(absm(a), absm(x)) : amm(absm(x), absm(a));
            for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { L w = up(alpha) * up(B.was(i, j)); r(i, j) -= w; bd(i, j) += ab(w); }
            small(c, "residual", r, bd, CF * (A.n + 6) * EPS);
        }
    }
};
typedef Trxm<false> TrmmS; REGOP(TrmmS, "trmm", F_BLAS3)
typedef Trxm<true> TrsmS; REGOP(TrsmS, "trsm", F_BLAS3)

// general band times general: A is the full array, of which the band is referenced (see zgbmm)
struct Gbmm : OpBase {
    int ta, tb, m, n, k, kl, ku; Mat A, B; Expr e;
    void setup(Ctx &c) override {
        ta = rtrans(c); tb = rtrans(c); m = dim(c, 0, false); n = dim(c, 0, false); k = dim(c, 0, false); e.vm = vmode(c);
        int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m;
        kl = c.pr.range(0, std::min(am - 1, 12)); ku = c.pr.range(0, std::min(an - 1, 12));
        e.alpha = scalar(c, e.vm); e.beta = scalar(c, e.vm);
        A = newmat(c, "A", am, an);
        B = tb == PlasmaNoTrans ? newmat(c, "B", k, n) : newmat(c, "B", n, k);
        e.C = newmat(c, "C", m, n);
        fillif(c, A, e.vm); int kl_ = kl, ku_ = ku;
        for (int j = 0; j < an; j++) for (int i = 0; i < am; i++) if (i - j > kl_ || j - i > ku_) A(i, j) = T(0);
        fillif(c, B, e.vm); fillif(c, e.C, e.vm);
        e.C.outAll();
        c.D("ta=%s tb=%s m=%d n=%d k=%d kl=%d ku=%d vm=%d alpha=%g beta=%g", cE(ta), cE(tb), m, n, k, kl, ku, e.vm, (double)std::real(e.alpha), (double)std::real(e.beta));
        shape(c, "C", m, n);
    }
    void call(Ctx &c) override { c.info = PL(gbmm)(ta, tb, m, n, k, kl, ku, S(e.alpha), X(A.p), A.ld, X(B.p), B.ld, S(e.beta), X(e.C.p), e.C.ld); }
    void check(Ctx &c) override { expect0(c); LM a = op(get(A), ta), b = op(get(B), tb); e.verify(c, mm(a, b), amm(absm(a), absm(b)), k); }
};
REGOP(Gbmm, "gbmm", F_BLAS3)
}
