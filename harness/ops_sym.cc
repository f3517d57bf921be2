#include "core.h"
#include "band.h"
namespace {
// hetrf, hetrs, hesv (lower only)
static const LR CF = CPLX ? 48 : 24;
// Hermitian indefinite values; zrow > 0: that row and column are zero
static LM herm(Ctx &c, int n, int kind, int zrow) {
    LM a(n, n); std::vector<double> g(n, 1.0); int nb = c.cfg.nb;
    if (kind == 2) for (auto &x : g) x = std::ldexp(1.0, c.pr.range(-6, 6));
    for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
        double x = c.pr.sym(), y = c.pr.sym();
        if (kind == 1 && i == j) x = 0;                                          // no diagonal pivot at all
        if (kind == 3) { y = i == j ? y : 0; x = i == j ? (c.pr.p(0.5) ? 1 : -1) * (1 + c.pr.uni()) : 0; }
        if (kind == 4) { x = c.pr.p(0.5) ? 1 : -1; y = 0; x += c.pr.uni() * 0.3; }
        if (kind == 5 && i / nb == j / nb) x = y = 0;                            // zero diagonal blocks
        if (kind == 6 && i / nb != j / nb) x = y = 0;                            // block diagonal
        if (kind == 7 && i - j > 1) x = y = 0;                                   // tridiagonal
        if (i == j && kind != 1 && kind != 5 && n == 1) x += x < 0 ? -1 : 1;
        if (zrow && (i == zrow - 1 || j == zrow - 1)) x = y = 0;
        a(i, j) = up(mkT(x * g[i] * g[j], i == j ? 0 : y * g[i] * g[j])); a(j, i) = cj(a(i, j));
    }
    return a;
}
struct Sys {
    int n, kind, zrow = 0; Mat A; Band t; Vec<int> ip, ip2; LM a;
    void make(Ctx &c, bool want, bool factors) {
        n = dim(c);
        // many more tiles than threads, so that the reductions over the columns of a row take several rounds
        if (!c.huge && n && c.pr.p(0.25)) { c.cfg.nb = c.pr.range(1, 4); c.cfg.ib = std::min(c.cfg.ib, c.cfg.nb); n = c.cfg.nb * c.pr.range(13, 32) - c.pr.range(0, c.cfg.nb - 1); c.tag("many tiles"); }
        int nb = c.cfg.nb; kind = c.pr.range(0, 7); if (n < 2 * nb && kind == 5) kind = 0; if (n < 2 && kind == 1) kind = 0;
        if (want && n) { if (kind == 1 || kind == 5) kind = 0; zrow = c.pr.range(1, n); if (c.pr.p(0.5)) zrow = std::min(n, c.pr.range(1, nb)); }
        a = herm(c, n, kind, zrow);
        // a singular matrix of this kind (odd order, zero diagonal) has no inverse to check against
        if (kind == 1 && n == 1) kind = 0;
        A = newmat(c, "A", n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { A(i, j) = down(a(i, j)); if (factors) A.out(i, j); }
        t.m = t.n = n; t.nb = nb; t.kl = t.ku = std::max(0, std::min(nb, n - 1)); t.A = newmat(c, "T", 4 * nb, n);
        if (factors) t.A.outAll();
        ip = newvec<int>(c, "ipiv", n, -77); ip.outAll(); ip2 = newvec<int>(c, "ipiv2", n, -78); ip2.outAll();
        c.D("n=%d kind=%d zero row=%d", n, kind, zrow); shape(c, "L", n, n); if (zrow) c.tag("failing"); c.tag("kind" + std::to_string(kind));
    }
    // entries of the band array that stand for no entry of the matrix
    void blankT() { int nb = t.nb; for (int j = 0; j < n; j++) for (int r = 0; r < 4 * nb; r++) { int i = r + j - t.kl - t.ku; if (i < 0 || i >= n || i >= (j / nb + 2) * nb) t.A(r, j) = T(0); } }
    void blank() { for (int j = 0; j < n; j++) { ip[j] = ip2[j] = 0; for (int i = j; i < n; i++) if (A.b->role[A.ri(i, j)]) A(i, j) = T(0); for (int r = 0; r < 4 * t.nb; r++) if (t.A.b->role[t.A.ri(r, j)]) t.A(r, j) = T(0); } }
    bool bad(Ctx &c) {
        if (!zrow) return false;
        c.evals++; int nb = c.cfg.nb;
        if (zrow <= nb ? c.info != zrow : (c.info <= nb || c.info > n)) c.fail("info-breakdown", "returned %d for a matrix whose row %d is zero (nb %d)", c.info, zrow, nb);
        return true;
    }
    // factors: P A P' = L T L'
    bool checkF(Ctx &c, AM &bd) {
        int nb = c.cfg.nb;
        for (int i = 0; i < n; i++) { c.evals++; int lo = i < nb ? i : i, hi = i < nb ? i : n - 1; if (ip[i] - 1 < lo || ip[i] - 1 > hi) { c.fail("pivot-range", "ipiv[%d] = %d", i, ip[i]); return false; } }
        for (int i = 0; i < n; i++) { c.evals++; int hi = std::min(n, (i / nb + 2) * nb); if (ip2[i] < i + 1 || ip2[i] > hi) { c.fail("pivot-range", "ipiv2[%d] = %d", i, ip2[i]); return false; } }
        LM l(n, n); for (int j = 0; j < n; j++) { l(j, j) = L(1); if (j >= nb) for (int i = j + 1; i < n; i++) { l(i, j) = up(A(i, j - nb)); c.evals++; if (ab(l(i, j)) > (CPLX ? 1.4143L : 1) * (1 + 8 * EPS)) { c.fail("pivoting", "multiplier %Lg at (%d,%d)", ab1(l(i, j)), i, j); return false; } } }
        LM tt = product<LM>(t, ip2.p, [](T x) { return up(x); }, true); AM tb = product<AM>(t, ip2.p, [](T x) { return ab(up(x)); }, true);
        LM lh = op(l, PlasmaConjTrans); AM al = absm(l), alh = absm(lh);
        LM r = mm(mm(l, tt), lh); bd = amm(amm(al, tb), alh);
        for (int i = n - 1; i >= 0; i--) { int q = ip[i] - 1; if (q == i) continue; for (int j = 0; j < n; j++) { std::swap(r(i, j), r(q, j)); std::swap(bd(i, j), bd(q, j)); } for (int j = 0; j < n; j++) { std::swap(r(j, i), r(j, q)); std::swap(bd(j, i), bd(j, q)); } }
        // the factor products are formed block by block with a triangular inverse: a normwise statement
        LR nb2 = 0; for (auto x : bd.v) nb2 += x * x; nb2 = sqrtl(nb2);
        smallnorm(c, "factor", fro(sub(r, a)), CF * (n + 8) * EPS * nb2);
        for (auto &x : bd.v) x = std::max(x, nb2 / std::max(1, n));
        return c.viols.empty();
    }
    void checkX(Ctx &c, const LM &b, const Mat &B, LR nb2) {
        LM x = get(B), r = sub(mm(a, x), b); for (int j = 0; j < r.n; j++) { LR e = 0, xn = 0; for (int i = 0; i < n; i++) { e += ab(r(i, j)) * ab(r(i, j)); xn += ab(x(i, j)) * ab(x(i, j)); } smallnorm(c, "residual", sqrtl(e), CF * (n + 8) * EPS * nb2 * sqrtl(xn)); }
    }
};
static LR an(const AM &a) { LR s = 0; for (auto x : a.v) s += x * x; return sqrtl(s); }
struct Hetrf : OpBase {
    Sys s;
    void setup(Ctx &c) override { s.make(c, c.want, true); }
    void call(Ctx &c) override { c.info = PHE(trf)(PlasmaLower, s.n, X(s.A.p), s.A.ld, s.ip.p, X(s.t.A.p), s.t.A.ld, s.ip2.p); s.blankT(); if (c.info) s.blank(); }
    void check(Ctx &c) override { if (s.bad(c)) return; expect0(c); if (c.info || !s.n) return; AM b; s.checkF(c, b); }
};
REGOP(Hetrf, "hetrf", F_HE | F_FAIL | F_THREADDEP | F_PANEL)
struct Hetrs : OpBase {
    Sys s; Mat B; int nr, i1 = 0;
    void setup(Ctx &c) override {
        s.make(c, false, true); nr = dim(c, 40); B = newmat(c, "B", s.n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < s.n; i++) B(i, j) = rT(c, V_UNI);
        c.D(" nrhs=%d", nr);
    }
    void call(Ctx &c) override { i1 = PHE(trf)(PlasmaLower, s.n, X(s.A.p), s.A.ld, s.ip.p, X(s.t.A.p), s.t.A.ld, s.ip2.p); s.blankT(); if (i1) { s.blank(); c.info = i1; return; } c.info = PHE(trs)(PlasmaLower, s.n, nr, X(s.A.p), s.A.ld, s.ip.p, X(s.t.A.p), s.t.A.ld, s.ip2.p, X(B.p), B.ld); }
    void check(Ctx &c) override { expect0(c); if (c.info || !s.n || !nr) return; AM b; if (!s.checkF(c, b)) return; s.checkX(c, getwas(B), B, an(b)); }
};
REGOP(Hetrs, "hetrs", F_HE | F_THREADDEP | F_PANEL)
struct Hesv : OpBase {
    Sys s, f; Mat B; int nr;
    void setup(Ctx &c) override {
        s.make(c, c.want, false); nr = dim(c, 40); if (s.zrow && !nr) nr = 1; B = newmat(c, "B", s.n, nr); B.outAll(); for (int j = 0; j < nr; j++) for (int i = 0; i < s.n; i++) B(i, j) = rT(c, V_UNI);
        f = s; f.A = newmat(c, "A2", s.n, s.n); for (int j = 0; j < s.n; j++) for (int i = j; i < s.n; i++) { f.A(i, j) = s.A(i, j); f.A.out(i, j); }   // factored separately, for the growth of the factors
        f.t.A = newmat(c, "T2", 4 * c.cfg.nb, s.n); f.t.A.outAll(); f.ip = newvec<int>(c, "ipiv-2", s.n, -77); f.ip.outAll(); f.ip2 = newvec<int>(c, "ipiv2-2", s.n, -78); f.ip2.outAll();
        c.D(" nrhs=%d", nr);
    }
    void call(Ctx &c) override {
        c.info = PHE(sv)(PlasmaLower, s.n, nr, X(s.A.p), s.A.ld, s.ip.p, X(s.t.A.p), s.t.A.ld, s.ip2.p, X(B.p), B.ld);
        if (c.info == 0 && nr) c.info = PHE(trf)(PlasmaLower, s.n, X(f.A.p), f.A.ld, f.ip.p, X(f.t.A.p), f.t.A.ld, f.ip2.p);
        f.blankT(); if (c.info) { s.blank(); f.blank(); }
    }
    void check(Ctx &c) override { if (s.bad(c)) return; expect0(c); if (c.info || !s.n || !nr) return; AM b; if (!f.checkF(c, b)) return; s.checkX(c, getwas(B), B, an(b)); }
};
REGOP(Hesv, "hesv", F_HE | F_FAIL | F_THREADDEP | F_PANEL)
}
