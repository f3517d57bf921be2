#include "core.h"
#include "band.h"
namespace {
// getrf, getrs, gesv, gbtrf, gbtrs, gbsv
static const LR CF = CPLX ? 16 : 8;
static void filla(Ctx &c, Mat A, int kind) {
    int m = A.m, n = A.n; int mn = std::max(1, std::min(m, n)), nb = c.cfg.nb;
    std::vector<double> rs(m, 1), cs(n, 1);
    if (kind == 2) for (auto &x : rs) x = std::ldexp(1.0, c.pr.range(-12, 12));
    if (kind == 8) for (auto &x : cs) x = std::ldexp(1.0, c.pr.range(-12, 12));
    std::vector<int> perm(m); for (int i = 0; i < m; i++) perm[i] = i;
    for (int i = m - 1; i > 0; i--) std::swap(perm[i], perm[c.pr.range(0, i)]);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double a = c.pr.sym(), b = c.pr.sym();
        switch (kind) {
        case 1: a = c.pr.range(-3, 3); b = c.pr.range(-3, 3); break;
        case 3: if (i == j) { a *= 1e-6; b *= 1e-6; } break;
        case 4: { int r = perm[i]; if (r > j) { a *= 0.01; b = 0; } else if (r == j) { a = (a < 0 ? -1 : 1) * (1 + fabs(a)); b = 0; } break; } // permuted, pivots known
        case 5: a = c.pr.p(0.5) ? 1 : -1; b = 0; break;                                        // ties everywhere
        case 6: { double f = i / nb == (m - 1) / nb ? 1000 : 1; a *= f; b *= f; break; }        // pivots come from the last tile row
        case 7: if (c.pr.p(0.6) && i != (j * 7 + 3) % mn) a = b = 0; break;                     // sparse
        case 10: { double f = std::ldexp(1.0, std::is_same<R, double>::value ? -1028 : -132); a *= f; b *= f; break; }   // below the normal range
        case 9: if (i > j + 1 || c.pr.p(0.1)) a = b = 0; break;                                // Hessenberg
        }
        A(i, j) = mkT(a * rs[i] * cs[j], b * rs[i] * cs[j]);
    }
    // no exact zero pivots by accident: keep a clear diagonal in the structured kinds
    if (kind == 1 || kind == 5 || kind == 7 || kind == 9) for (int i = 0; i < std::min(m, n); i++) A(i, i) += mkT(c.pr.uni() * 0.5 + (kind == 7 || kind == 9 ? 2.0 : 0.01), 0);
}
static int akind(Ctx &c) { return c.pr.range(0, 9); }
struct LU { LM L, U; };
static LU split(const Mat &A) {
    int m = A.m, n = A.n, k = std::min(m, n); LU r; r.L = LM(m, k); r.U = LM(k, n);
    for (int j = 0; j < k; j++) { r.L(j, j) = L(1); for (int i = j + 1; i < m; i++) r.L(i, j) = up(A(i, j)); }
    for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j, k - 1); i++) r.U(i, j) = up(A(i, j));
    return r;
}
static bool pivok(Ctx &c, const int *ip, int k, int m) {
    for (int i = 0; i < k; i++) { c.evals++; if (ip[i] < i + 1 || ip[i] > m) { c.fail("pivot-range", "ipiv[%d] = %d, not within %d..%d", i, ip[i], i + 1, m); return false; } }
    return true;
}
template<class M> static void swaprows(M &A, const int *ip, int k, bool fwd) {
    for (int t = 0; t < k; t++) { int i = fwd ? t : k - 1 - t, p = ip[i] - 1; if (p != i) for (int j = 0; j < A.n; j++) std::swap(A(i, j), A(p, j)); }
}
static void checkLU(Ctx &c, const Mat &A, const int *ip) {
    int m = A.m, n = A.n, k = std::min(m, n);
    if (!pivok(c, ip, k, m)) return;
    LU f = split(A); LM PA = getwas(A); swaprows(PA, ip, k, true);
    for (int j = 0; j < k; j++) for (int i = j + 1; i < m; i++) { c.evals++; LR l = ab(f.L(i, j)); if (!(l <= (CPLX ? 1.4142136L : 1) * (1 + 200 * EPS * (1 + j)))) { c.fail("pivot-growth", "multiplier L(%d,%d) has magnitude %Lg", i, j, l); return; } }
    LM P = mm(f.L, f.U); AM B = amm(absm(f.L), absm(f.U));
    small(c, "factor", sub(P, PA), B, CF * (k + 8) * EPS);
}
static void checkSolve(Ctx &c, const char *kind, const LM &Aop, const AM &bound, const Mat &Xm) { // bound: componentwise majorant of op(A)
    LM x = get(Xm), b = getwas(Xm); LM r = sub(mm(Aop, x), b); AM ax = absm(x), bd = amm(bound, ax);
    for (size_t i = 0; i < bd.v.size(); i++) bd.v[i] += ab(b.v[i]);
    small(c, kind, r, bd, CF * 2 * (Aop.n + 8) * EPS);
}
// makes A exactly singular with the first zero pivot at the returned 1-based position
static int singular(Ctx &c, Mat A) {
    int m = A.m, n = A.n, k = std::min(m, n), how = c.pr.range(0, 2);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = mkT(c.pr.sym(), c.pr.sym());
    if (how == 1 && m <= n) { int r = c.pr.range(0, m - 1); for (int j = 0; j < n; j++) A(r, j) = T(0); return m; }   // a zero row ends up last
    int j0 = c.pr.p(0.3) ? k - 1 : c.pr.range(0, k - 1);
    if (how == 2) { for (int j = 0; j < n; j++) for (int i = j; i < m; i++) A(i, j) = i == j && j != j0 ? mkT(1 + c.pr.uni(), 0) : T(0); if (c.pr.p(0.5) && j0 + 2 < k) A(j0 + 2, j0 + 2) = T(0); return j0 + 1; }
    for (int i = 0; i < m; i++) A(i, j0) = T(0);
    if (c.pr.p(0.4)) { int j1 = c.pr.range(j0, n - 1); for (int i = 0; i < m; i++) A(i, j1) = T(0); }   // a second one later
    return j0 + 1;
}
struct Getrf : OpBase {
    int m, n, kind, sing = 0; Mat A; Vec<int> ip;
    void setup(Ctx &c) override {
        m = dim(c); n = dim(c); kind = c.pr.p(0.04) ? 10 : akind(c); A = newmat(c, "A", m, n); A.outAll();
        ip = newvec<int>(c, "ipiv", std::min(m, n), -7); ip.outAll();
        filla(c, A, kind); if (c.want && m * n) sing = singular(c, A);
        c.D("m=%d n=%d kind=%d zero pivot=%d", m, n, kind, sing); shape(c, "A", m, n); char b[32]; snprintf(b, 32, "kind%d", kind); c.tag(b); if (sing) c.tag("singular");
    }
    void call(Ctx &c) override { c.info = PL(getrf)(m, n, X(A.p), A.ld, ip.p); }
    void check(Ctx &c) override {
        if (sing) { c.evals++; if (c.info != sing) c.fail("info-singular", "returned %d for a zero pivot in column %d", c.info, sing); return; }
        expect0(c); if (c.info || !(m * n)) return; checkLU(c, A, ip.p);
    }
};
REGOP(Getrf, "getrf", F_LU | F_PANEL | F_FAIL)

struct Gesv : OpBase {
    int n, nr, kind, sing = 0; Mat A, B; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); kind = akind(c); A = newmat(c, "A", n, n); A.outAll(); B = newmat(c, "B", n, nr); B.outAll();
        ip = newvec<int>(c, "ipiv", n, -7); ip.outAll();
        filla(c, A, kind); if (c.want && n && nr) sing = singular(c, A);
        for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("n=%d nrhs=%d kind=%d zero pivot=%d", n, nr, kind, sing); shape(c, "A", n, nr); if (sing) c.tag("singular");
    }
    void call(Ctx &c) override { c.info = PL(gesv)(n, nr, X(A.p), A.ld, ip.p, X(B.p), B.ld); }
    void check(Ctx &c) override {
        if (sing) { c.evals++; if (c.info != sing) c.fail("info-singular", "returned %d for a zero pivot in column %d", c.info, sing); return; }
        expect0(c); if (c.info || !n || !nr) return; checkLU(c, A, ip.p); if (!c.viols.empty()) return;
        LU f = split(A); AM bd = amm(absm(f.L), absm(f.U)); swaprows(bd, ip.p, n, false);
        checkSolve(c, "residual", getwas(A), bd, B);
    }
};
REGOP(Gesv, "gesv", F_LU | F_PANEL | F_FAIL)

struct Getrs : OpBase {
    int n, nr, tr; Mat A, B; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); tr = rtrans(c); A = newmat(c, "LU", n, n); B = newmat(c, "B", n, nr); B.outAll(); ip = newvec<int>(c, "ipiv", n, 1);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A(i, j) = i == j ? mkT((c.pr.p(0.5) ? 1 : -1) * (1 + c.pr.uni()), c.pr.sym()) : rT(c, V_UNI) * (R)(2.0 / (n + 2));
        int k = c.pr.range(0, 2); for (int i = 0; i < n; i++) ip[i] = k == 0 ? i + 1 : k == 1 ? c.pr.range(i + 1, n) : (c.pr.p(0.2) ? n : i + 1);
        for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("trans=%s n=%d nrhs=%d", cE(tr), n, nr); shape(c, "A", n, nr); c.tag(std::string("getrs") + cE(tr));
    }
    void call(Ctx &c) override { c.info = PL(getrs)(tr, n, nr, X(A.p), A.ld, ip.p, X(B.p), B.ld); }
    void check(Ctx &c) override {
        expect0(c); if (!n || !nr) return; LU f = split(A); LM a = mm(f.L, f.U); AM b = amm(absm(f.L), absm(f.U)); swaprows(a, ip.p, n, false); swaprows(b, ip.p, n, false);
        AM bt(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) bt(i, j) = tr == PlasmaNoTrans ? b(i, j) : b(j, i);
        checkSolve(c, "residual", op(a, tr), bt, B);
    }
};
REGOP(Getrs, "getrs", F_LU)

// ---------------------------------------------------------------- band
static void fillband(Ctx &c, Band &b, int kind) {
    if (b.ku == 0) kind = 3;   // the last pivot is the determinant over the other pivots: keep it in range
    int k = std::min(b.m, b.n); if (kind == 4 && k > 12 * (b.kl + b.ku)) kind = 0;
    double dg = 2; if (b.kl == 0 && k > 24) { kind = 3; dg = 1 + b.ku; }   // solutions of random triangular systems overflow single precision
    for (int j = 0; j < b.n; j++) for (int i = std::max(0, j - b.ku); i <= std::min(b.m - 1, j + b.kl); i++) {
        double x = c.pr.sym(), y = c.pr.sym();
        if (kind == 1 && i == j && b.kl > 0 && b.ku > 0 && i % 3 == 1) { x *= 1e-5; y *= 1e-5; }
        if (kind == 2) { double f = std::ldexp(1.0, (i * 7) % 15 - 7); x *= f; y *= f; }
        if (kind == 3 && i == j) x += dg;
        if (kind == 4 && i == std::min(b.m - 1, j + b.kl)) x += x < 0 ? -30 : 30;   // the pivot is always the farthest row
        if (kind == 5) { x = c.pr.p(0.5) ? 1 : -1; y = 0; if (i == j) x += c.pr.uni() * 0.3; }
        b.at(i, j) = mkT(x, y);
    }
}
static LM bandwas(Band &b) { LM a(b.m, b.n); for (int j = 0; j < b.n; j++) for (int i = std::max(0, j - b.ku); i <= std::min(b.m - 1, j + b.kl); i++) a(i, j) = up(b.was(i, j)); return a; }
static bool checkBand(Ctx &c, Band &b, const int *ip, AM &bd) {
    int k = std::min(b.m, b.n);
    for (int i = 0; i < k; i++) { c.evals++; int hi = std::min(b.m, std::min(b.m, (i / b.nb + 1) * b.nb) + b.kl); if (ip[i] < i + 1 || ip[i] > std::min(b.m, hi)) { c.fail("pivot-range", "ipiv[%d] = %d", i, ip[i]); return false; } }
    LM P = product<LM>(b, ip, [](T x) { return up(x); }, true); bd = product<AM>(b, ip, [](T x) { return ab(up(x)); }, true);
    small(c, "factor", sub(P, bandwas(b)), bd, CF * (std::min(k, 2 * b.kl + b.ku + 1 + b.nb) + 8) * EPS);
    return c.viols.empty();
}
static void rband(Ctx &c, int m, int n, int &kl, int &ku) {
    int nb = c.cfg.nb, mx = c.pr.p(0.3) ? 3 * nb : 2 * nb;
    kl = c.pr.p(0.1) ? 0 : c.pr.range(0, std::max(0, std::min(m - 1, mx))); ku = c.pr.p(0.1) ? 0 : c.pr.range(0, std::max(0, std::min(n - 1, mx)));
    if (c.pr.p(0.25)) kl = std::min(std::max(0, m - 1), nb * c.pr.range(1, 2) + c.pr.range(-1, 1)); if (kl < 0) kl = 0;
}
static int bsing(Ctx &c, Band &b) {  // zero column: the pivot there is exactly zero
    int k = std::min(b.m, b.n), j0 = c.pr.p(0.3) ? k - 1 : c.pr.range(0, k - 1);
    for (int i = std::max(0, j0 - b.ku); i <= std::min(b.m - 1, j0 + b.kl); i++) b.at(i, j0) = T(0);
    return j0 + 1;
}
struct Gbtrf : OpBase {
    int m, n, kl, ku, kind, sing = 0; Band b; Vec<int> ip;
    void setup(Ctx &c) override {
        m = dim(c); n = c.pr.p(0.6) ? m : dim(c); rband(c, m, n, kl, ku); kind = c.pr.range(0, 5); b = newband(c, m, n, kl, ku); fillband(c, b, kind);
        ip = newvec<int>(c, "ipiv", std::min(m, n), -7); ip.outAll(); if (c.want && m * n) { fillband(c, b, 0); sing = bsing(c, b); }
        c.D("m=%d n=%d kl=%d ku=%d kind=%d zero pivot=%d", m, n, kl, ku, kind, sing); shape(c, "A", m, n); char t[32]; snprintf(t, 32, "kl%d ku%d kind%d", std::min(4, (kl + c.cfg.nb - 1) / c.cfg.nb), std::min(4, (ku + c.cfg.nb - 1) / c.cfg.nb), kind); c.tag(t);
    }
    void call(Ctx &c) override { c.info = PL(gbtrf)(m, n, kl, ku, X(b.A.p), b.A.ld, ip.p); }
    void check(Ctx &c) override {
        if (sing) { c.evals++; if (c.info != sing) c.fail("info-singular", "returned %d for a zero pivot in column %d", c.info, sing); return; }
        expect0(c); if (c.info || !(m * n)) return; AM bd; checkBand(c, b, ip.p, bd);
    }
};
REGOP(Gbtrf, "gbtrf", F_GB | F_PANEL | F_FAIL)

struct Gbsv : OpBase {
    int n, nr, kl, ku, kind, sing = 0; Band b; Mat B; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); rband(c, n, n, kl, ku); kind = c.pr.range(0, 5); b = newband(c, n, n, kl, ku); fillband(c, b, kind); B = newmat(c, "B", n, nr); B.outAll();
        ip = newvec<int>(c, "ipiv", n, -7); ip.outAll(); if (c.want && n && nr) { fillband(c, b, 0); sing = bsing(c, b); }
        for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("n=%d kl=%d ku=%d nrhs=%d kind=%d zero pivot=%d", n, kl, ku, nr, kind, sing); shape(c, "A", n, nr);
    }
    void call(Ctx &c) override { c.info = PL(gbsv)(n, kl, ku, nr, X(b.A.p), b.A.ld, ip.p, X(B.p), B.ld); }
    void check(Ctx &c) override {
        if (sing) { c.evals++; if (c.info != sing) c.fail("info-singular", "returned %d for a zero pivot in column %d", c.info, sing); return; }
        expect0(c); if (c.info || !n || !nr) return; AM bd; if (!checkBand(c, b, ip.p, bd)) return; checkSolve(c, "residual", bandwas(b), bd, B);
    }
};
REGOP(Gbsv, "gbsv", F_GB | F_PANEL | F_FAIL)

struct Gbtrs : OpBase {  // factors come from gbtrf
    int n, nr, kl, ku, tr, kind, i1 = 0; Band b; Mat B; Vec<int> ip;
    void setup(Ctx &c) override {
        n = dim(c); nr = dim(c, 40); rband(c, n, n, kl, ku); kind = c.pr.range(0, 5); tr = rtrans(c); b = newband(c, n, n, kl, ku); fillband(c, b, kind); B = newmat(c, "B", n, nr); B.outAll();
        ip = newvec<int>(c, "ipiv", n, -7); ip.outAll();
        for (int j = 0; j < nr; j++) for (int i = 0; i < n; i++) B(i, j) = rT(c, V_UNI);
        c.D("trans=%s n=%d kl=%d ku=%d nrhs=%d kind=%d", cE(tr), n, kl, ku, nr, kind); shape(c, "A", n, nr); c.tag(std::string("gbtrs") + cE(tr));
    }
    void call(Ctx &c) override { i1 = PL(gbtrf)(n, n, kl, ku, X(b.A.p), b.A.ld, ip.p); c.info = i1 ? i1 : PL(gbtrs)(tr, n, kl, ku, nr, X(b.A.p), b.A.ld, ip.p, X(B.p), B.ld); }
    void check(Ctx &c) override { expect0(c); if (c.info || !n || !nr) return; AM bd; if (!checkBand(c, b, ip.p, bd)) return; AM bt(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) bt(i, j) = tr == PlasmaNoTrans ? bd(i, j) : bd(j, i); checkSolve(c, "residual", op(bandwas(b), tr), bt, B); }
};
REGOP(Gbtrs, "gbtrs", F_GB | F_PANEL)
}
