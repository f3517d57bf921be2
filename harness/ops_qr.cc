#include "core.h"
namespace {
// geqrf, gelqf, ungqr, unglq, unmqr, unmlq, gels, geqrs, gelqs
static const LR CF = CPLX ? 16 : 8;
static const int TRH = CPLX ? (int)PlasmaConjTrans : (int)PlasmaTrans;
static LM ct(const LM &A) { return op(A, PlasmaConjTrans); }
static LM lead(const LM &A, int m, int n) { LM r(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) r(i, j) = A(i, j); return r; }
static LR cn(const LM &A, int j) { LR s = 0; for (int i = 0; i < A.m; i++) { LR a = ab(A(i, j)); s += a * a; } return sqrtl(s); }
static void fillq(Ctx &c, const Mat &A, int kind) {
    double sc = kind == 5 ? std::ldexp(1.0, c.pr.range(-40, 40)) : 1;
    std::vector<double> g(std::max(1, A.n), 1), h(std::max(1, A.m), 1);
    if (kind == 3) for (auto &x : g) x = std::ldexp(1.0, c.pr.range(-10, 10));
    if (kind == 4) for (auto &x : h) x = std::ldexp(1.0, c.pr.range(-10, 10));
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A(i, j) = rT(c, kind == 1 ? V_INT : kind == 2 ? V_SPARSE : V_UNI) * (R)(sc * g[j] * h[i]);
    if (kind == 2) for (int j = 0; j < A.n; j++) if (c.pr.p(0.15)) for (int i = 0; i < A.m; i++) A(i, j) = (c.pr.p(0.5) && j) ? A(i, 0) : T(0);   // zero and dependent columns
}
static LM trap(const Mat &A, bool lq) {   // R (min(m,n) x n) or L (m x min(m,n))
    int k = std::min(A.m, A.n); LM r(lq ? A.m : k, lq ? k : A.n);
    for (int j = 0; j < r.n; j++) for (int i = 0; i < r.m; i++) if (lq ? i >= j : i <= j) r(i, j) = up(A(i, j));
    return r;
}
static void orth(Ctx &c, const LM &Q, bool rows, int dim) {   // orthonormal rows or columns
    LM g = rows ? mm(Q, ct(Q)) : mm(ct(Q), Q);
    LM e = sub(g, eye(g.m, g.n)); smallnorm(c, "orthogonal", fro(e), CF * (dim + 8) * std::sqrt((LR)g.n + 1) * EPS);
}
// A (was) = Q R column by column, or L Q row by row, over the first ncol columns (rows)
static void factorOK(Ctx &c, const LM &A, const LM &QR, bool lq) {
    LM a = lq ? ct(A) : A, p = lq ? ct(QR) : QR, e = sub(p, a);
    for (int j = 0; j < a.n; j++) { c.evals++; LR d = cn(e, j), lim = CF * (a.m + a.n + 8) * EPS * cn(a, j) + 64 * (a.m + 1) * (LR)std::numeric_limits<R>::min(); if (!(d <= lim)) { c.fail("factor", "%s %d of A - %s: %Lg > %Lg", lq ? "row" : "column", j, lq ? "L*Q" : "Q*R", d, lim); return; } }
}
static bool helper(Ctx &c, int info, const char *what) { if (info) { c.info = info; c.outs.push_back(-1); (void)what; return false; } return true; }
struct TD { plasma_desc_t t; TD() { memset(&t, 0, sizeof t); } void done() { plasma_desc_destroy(&t); } };

// factor an m x n matrix, then generate the first nq columns (rows) of Q
template<bool LQ> struct Factor : OpBase {
    int m, n, kind; Mat A, Q;
    void setup(Ctx &c) override {
        m = dim(c); n = dim(c); kind = c.pr.range(0, 5); if (m * n > 6000) n = std::max(1, 6000 / m);
        int k = std::min(m, n); A = newmat(c, "A", m, n); A.outAll(); fillq(c, A, kind); Q = newmat(c, "Q", LQ ? k : m, LQ ? n : k); Q.outAll();
        c.D("m=%d n=%d kind=%d", m, n, kind); shape(c, c.cfg.tree ? "tree" : "flat", m, n);
    }
    void call(Ctx &c) override {
        TD t; int k = std::min(m, n);
        c.info = LQ ? PL(gelqf)(m, n, X(A.p), A.ld, &t.t) : PL(geqrf)(m, n, X(A.p), A.ld, &t.t);
        if (c.info == 0 && k > 0) c.info = LQ ? PUN(glq)(k, n, k, X(A.p), A.ld, t.t, X(Q.p), Q.ld) : PUN(gqr)(m, k, k, X(A.p), A.ld, t.t, X(Q.p), Q.ld);
        t.done();
    }
    void check(Ctx &c) override {
        expect0(c); if (c.info || !m || !n) return;
        LM q = get(Q), r = trap(A, LQ); orth(c, q, LQ, std::max(m, n)); factorOK(c, getwas(A), LQ ? mm(r, q) : mm(q, r), LQ);
    }
};
typedef Factor<false> Geqrf; typedef Factor<true> Gelqf;
REGOP(Geqrf, "geqrf", F_QR | F_THREADDEP)
REGOP(Gelqf, "gelqf", F_QR | F_THREADDEP)

// k reflectors, nq >= k columns (rows) of Q of order len
template<bool LQ> struct Gen : OpBase {
    int len, nq, k, kind; Mat A, Q;
    void setup(Ctx &c) override {
        len = dim(c); nq = std::min(len, dim(c)); k = c.pr.p(0.3) ? nq : std::min(nq, dim(c)); if (len * nq > 6000) { nq = 6000 / len; k = std::min(k, nq); } kind = c.pr.range(0, 5);
        A = newmat(c, "A", LQ ? k : len, LQ ? len : k, LQ ? nq - k + c.pr.range(0, 3) : -1); A.outAll(); fillq(c, A, kind); Q = newmat(c, "Q", LQ ? nq : len, LQ ? len : nq); Q.outAll();
        c.D("order=%d vectors=%d k=%d kind=%d", len, nq, k, kind); shape(c, c.cfg.tree ? "tree" : "flat", len, nq); char b[40]; snprintf(b, 40, "k%d of %d", (k + c.cfg.nb - 1) / c.cfg.nb, (nq + c.cfg.nb - 1) / c.cfg.nb); c.tag(b);
    }
    void call(Ctx &c) override {
        TD t; int kk = k;
        // without reflectors any valid T will do
        Mat d; std::vector<T> one; if (!kk) { one.assign(len + 1, T(1)); c.info = LQ ? PL(gelqf)(1, std::max(1, len), X(one.data()), 1, &t.t) : PL(geqrf)(std::max(1, len), 1, X(one.data()), std::max(1, len), &t.t); }
        else c.info = LQ ? PL(gelqf)(k, len, X(A.p), A.ld, &t.t) : PL(geqrf)(len, k, X(A.p), A.ld, &t.t);
        if (c.info == 0) c.info = LQ ? PUN(glq)(nq, len, k, X(A.p), A.ld, t.t, X(Q.p), Q.ld) : PUN(gqr)(len, nq, k, X(A.p), A.ld, t.t, X(Q.p), Q.ld);
        t.done();
    }
    void check(Ctx &c) override {
        expect0(c); if (c.info || !nq) return;
        LM q = get(Q); orth(c, q, LQ, len);
        if (!k) { exact(c, "identity", Q, eye(Q.m, Q.n)); return; }
        LM r = trap(A, LQ), q1 = LQ ? lead(q, k, len) : lead(q, len, k); factorOK(c, getwas(A), LQ ? mm(r, q1) : mm(q1, r), LQ);
    }
};
typedef Gen<false> Ungqr; typedef Gen<true> Unglq;
REGOP(Ungqr, "ungqr", F_QR | F_THREADDEP)
REGOP(Unglq, "unglq", F_QR | F_THREADDEP)

template<bool LQ> struct Mul : OpBase {
    int side, tr, m, n, k, len, kind; Mat A, C, Q;
    void setup(Ctx &c) override {
        m = dim(c, 40); n = dim(c, 40); side = c.pr.p(0.5) ? PlasmaLeft : PlasmaRight; tr = c.pr.p(0.5) ? (int)PlasmaNoTrans : TRH; len = side == PlasmaLeft ? m : n; k = c.pr.p(0.3) ? len : std::min(len, dim(c)); kind = c.pr.range(0, 5);
        A = newmat(c, "A", LQ ? k : len, LQ ? len : k); A.outAll(); fillq(c, A, kind); C = newmat(c, "C", m, n); C.outAll(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) C(i, j) = rT(c, V_UNI);
        Q = newmat(c, "Q", len, len, LQ ? 0 : -1); if (m && n && k) Q.outAll();
        c.D("side=%s trans=%s m=%d n=%d k=%d kind=%d", cE(side), cE(tr), m, n, k, kind); shape(c, c.cfg.tree ? "tree" : "flat", len, k); c.tag(std::string(cE(side)) + cE(tr));
    }
    void call(Ctx &c) override {
        TD t;
        if (!m || !n || !k) { memset(&t.t, 0, sizeof t.t); c.info = LQ ? PUN(mlq)(side, tr, m, n, k, X(A.p), A.ld, t.t, X(C.p), C.ld) : PUN(mqr)(side, tr, m, n, k, X(A.p), A.ld, t.t, X(C.p), C.ld); return; }
        c.info = LQ ? PL(gelqf)(k, len, X(A.p), A.ld, &t.t) : PL(geqrf)(len, k, X(A.p), A.ld, &t.t);
        if (c.info == 0) c.info = LQ ? PUN(mlq)(side, tr, m, n, k, X(A.p), A.ld, t.t, X(C.p), C.ld) : PUN(mqr)(side, tr, m, n, k, X(A.p), A.ld, t.t, X(C.p), C.ld);
        if (c.info == 0) { // Q explicitly; rows of a wider array for LQ
            if (LQ) { std::vector<T> a((size_t)len * len); for (int j = 0; j < len; j++) for (int i = 0; i < k; i++) a[(size_t)i + (size_t)j * len] = A(i, j); c.info = PUN(glq)(len, len, k, X(a.data()), len, t.t, X(Q.p), Q.ld); }
            else c.info = PUN(gqr)(len, len, k, X(A.p), A.ld, t.t, X(Q.p), Q.ld);
        }
        t.done();
    }
    void check(Ctx &c) override {
        expect0(c); if (c.info || !m || !n) return;
        if (!k) { exact(c, "apply", C, getwas(C)); return; }
        LM q = get(Q), w = getwas(C); orth(c, q, LQ, len); LM o = tr == PlasmaNoTrans ? q : ct(q), ref = side == PlasmaLeft ? mm(o, w) : mm(w, o), x = get(C), e = sub(x, ref);
        if (side == PlasmaRight) { e = ct(e); w = ct(w); }
        for (int j = 0; j < e.n; j++) { c.evals++; LR d = cn(e, j), lim = 2 * CF * (len + k + 8) * EPS * cn(w, j); if (!(d <= lim)) { c.fail("apply", "%s %d differs from the product with Q by %Lg > %Lg", side == PlasmaLeft ? "column" : "row", j, d, lim); return; } }
    }
};
typedef Mul<false> Unmqr; typedef Mul<true> Unmlq;
REGOP(Unmqr, "unmqr", F_QR | F_THREADDEP)
REGOP(Unmlq, "unmlq", F_QR | F_THREADDEP)

// ---------------------------------------------------------------- least squares
// mode: 0 gels, 1 geqrf+geqrs, 2 gelqf+gelqs.  A has full rank with a moderate condition.
static void fillfull(Ctx &c, const Mat &A, int kind) {
    int m = A.m, n = A.n, k = std::min(m, n);
    double sc = kind == 3 ? std::ldexp(1.0, c.pr.range(-20, 20)) : 1;
    std::vector<double> g(std::max(1, std::max(m, n)), 1); if (kind == 2) for (auto &x : g) x = std::ldexp(1.0, c.pr.range(-3, 3));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { T v = rT(c, kind == 1 ? V_INT : V_UNI); if (i == j) v += mkT(kind == 1 ? k + 4 : (c.pr.p(0.5) ? 1 : -1) * (2 + std::sqrt((double)k)), 0); A(i, j) = v * (R)(sc * (m >= n ? g[j] : g[i])); }
}
static void checkLS(Ctx &c, const LM &A, const LM &B, const LM &Xs, const char *kd) {   // A: M x N effective operator
    int M = A.m, N = A.n; LR fa = fro(A), tol = CF * 2 * (M + N + 8) * EPS;
    LM r = sub(B, mm(A, Xs));
    if (M >= N) {
        LM g = mm(ct(A), r);
        for (int j = 0; j < Xs.n; j++) { c.evals++; LR d = cn(g, j), lim = tol * fa * (cn(B, j) + fa * cn(Xs, j)); if (!(d <= lim)) { c.fail(kd, "residual of column %d not orthogonal to the range: %Lg > %Lg", j, d, lim); return; } }
    } else {
        for (int j = 0; j < Xs.n; j++) { c.evals++; LR d = cn(r, j), lim = tol * (cn(B, j) + fa * cn(Xs, j)); if (!(d <= lim)) { c.fail(kd, "residual of column %d: %Lg > %Lg", j, d, lim); return; } }
        LM G = mm(A, ct(A)), gi; if (!lsolve(G, eye(M, M), gi)) return;
        LM ax = mm(A, Xs), p = mm(ct(A), mm(gi, ax)), e = sub(Xs, p); LR cond = fa * fro(mm(ct(A), gi));
        for (int j = 0; j < Xs.n; j++) { c.evals++; LR d = cn(e, j), lim = tol * (1 + cond) * cn(Xs, j); if (!(d <= lim)) { c.fail(kd, "solution column %d has a component of size %Lg > %Lg outside the row space: not of least norm", j, d, lim); return; } }
    }
}
template<int MODE> struct LS : OpBase {
    int tr, m, n, nr, kind; Mat A, B;
    void setup(Ctx &c) override {
        m = dim(c, 50); n = dim(c, 50); nr = dim(c, 30); if (MODE == 1 && m < n) std::swap(m, n); if (MODE == 2 && m > n) std::swap(m, n);
        tr = MODE == 0 && c.pr.p(0.5) ? TRH : (int)PlasmaNoTrans; kind = c.pr.range(0, 3);
        A = newmat(c, "A", m, n); A.outAll(); fillfull(c, A, kind); int M = tr == PlasmaNoTrans ? m : n; B = newmat(c, "B", std::max(m, n), nr); B.outAll();
        if (c.zerodims && !(m && n)) {} for (int j = 0; j < nr; j++) for (int i = 0; i < M; i++) B(i, j) = rT(c, c.pr.p(0.1) ? V_SPARSE : V_UNI);
        if (c.pr.p(0.1)) for (int j = 0; j < nr; j++) if (c.pr.p(0.5)) for (int i = 0; i < M; i++) B(i, j) = T(0);
        c.D("trans=%s m=%d n=%d nrhs=%d kind=%d", cE(tr), m, n, nr, kind); shape(c, c.cfg.tree ? "tree" : "flat", m, n); c.tag(cE(tr));
    }
    void call(Ctx &c) override {
        TD t;
        if (MODE == 0) c.info = PL(gels)(tr, m, n, nr, X(A.p), A.ld, &t.t, X(B.p), B.ld);
        else {
            c.info = MODE == 1 ? PL(geqrf)(m, n, X(A.p), A.ld, &t.t) : PL(gelqf)(m, n, X(A.p), A.ld, &t.t);
            if (c.info == 0) c.info = MODE == 1 ? PL(geqrs)(m, n, nr, X(A.p), A.ld, t.t, X(B.p), B.ld) : PL(gelqs)(m, n, nr, X(A.p), A.ld, t.t, X(B.p), B.ld);
        }
        t.done();
    }
    void check(Ctx &c) override {
        expect0(c); if (c.info || !nr) return;
        int M = tr == PlasmaNoTrans ? m : n, N = tr == PlasmaNoTrans ? n : m; if (!N) return;
        LM Xs = get(B, N, nr);
        if (!M) { exact(c, "least-norm", B, LM(B.m, nr), [=](int i, int) { return i < N; }); return; }
        LM a = getwas(A); if (tr != PlasmaNoTrans) a = ct(a);
        checkLS(c, a, lead(getwas(B), M, nr), Xs, M >= N ? "least-squares" : "least-norm");
    }
};
typedef LS<0> Gels; typedef LS<1> Geqrs; typedef LS<2> Gelqs;
REGOP(Gels, "gels", F_LS | F_THREADDEP)
REGOP(Geqrs, "geqrs", F_LS | F_THREADDEP)
REGOP(Gelqs, "gelqs", F_LS | F_THREADDEP)
}
