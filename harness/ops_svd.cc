#include "core.h"
namespace {
// gesdd
static const LR CF = CPLX ? 16 : 8;
static LM ct(const LM &A) { return op(A, PlasmaConjTrans); }
// singular values by one-sided Jacobi in extended precision, descending
static std::vector<LR> svals(LM A) {
    if (A.m < A.n) A = ct(A);
    int m = A.m, n = A.n;
    for (int sweep = 0; sweep < 40; sweep++) {
        bool rot = false;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            LR a = 0, b = 0; L g = 0;
            for (int i = 0; i < m; i++) { LR x = ab(A(i, p)), y = ab(A(i, q)); a += x * x; b += y * y; g += cj(A(i, p)) * A(i, q); }
            LR ag = ab(g); if (ag == 0 || ag <= 1e-18L * sqrtl(a * b)) continue;
            rot = true;
            LR z = (b - a) / (2 * ag), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t; L ph = g / ag;
            for (int i = 0; i < m; i++) { L x = A(i, p), y = A(i, q) * cj(ph); A(i, p) = cs * x - sn * y; A(i, q) = sn * x + cs * y; }
        }
        if (!rot) break;
    }
    std::vector<LR> s(n); for (int j = 0; j < n; j++) { LR a = 0; for (int i = 0; i < m; i++) { LR x = ab(A(i, j)); a += x * x; } s[j] = sqrtl(a); }
    std::sort(s.rbegin(), s.rend()); return s;
}
struct Gesdd : OpBase {
    int m, n, job, kind; Mat A, U, V; Vec<R> S; std::vector<LR> ref;
    void setup(Ctx &c) override {
        job = c.pr.pick({(int)PlasmaNoVec, (int)PlasmaSomeVec, (int)PlasmaAllVec}); kind = c.pr.range(0, 6);
        m = dim(c, c.big ? 90 : 44); n = dim(c, c.big ? 90 : 44);
        if (c.huge && c.pr.p(0.15)) { if (job == PlasmaNoVec) job = PlasmaSomeVec; m = c.pr.range(203, 270); n = c.pr.range(203, 270); }   // more vectors than one thread takes at a time
        int k = std::min(m, n);
        A = newmat(c, "A", m, n); A.outAll();
        double sc = kind == 5 ? std::ldexp(1.0, c.pr.range(-20, 20)) : 1;
        std::vector<double> g(n + 1, 1); if (kind == 2) for (auto &x : g) x = std::ldexp(1.0, c.pr.range(-12, 6));
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = rT(c, kind == 1 ? V_INT : V_UNI) * (R)(sc * g[j]);
        if (kind == 3) for (int j = 1; j < n; j++) if (c.pr.p(0.5)) { int q = c.pr.range(0, j - 1); for (int i = 0; i < m; i++) A(i, j) = A(i, q); }   // rank deficient
        if (kind == 4) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = i == j ? mkT(c.pr.pick({0., 1., 1., 2.}), 0) : T(0);   // repeated values
        if (kind == 6) { bool z = c.pr.p(0.3); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = z ? T(0) : mkT(1, 0); }
        S = newvec<R>(c, "S", k, (R)-7); S.outAll();
        U = newmat(c, "U", job == PlasmaNoVec ? 0 : m, job == PlasmaAllVec ? m : job == PlasmaSomeVec ? k : 0); V = newmat(c, "VT", job == PlasmaAllVec ? n : job == PlasmaSomeVec ? k : 0, job == PlasmaNoVec ? 0 : n);
        if (k) { U.outAll(); V.outAll(); }
        c.D("job=%s m=%d n=%d kind=%d", job == PlasmaNoVec ? "none" : job == PlasmaSomeVec ? "some" : "all", m, n, kind); shape(c, job == PlasmaNoVec ? "none" : job == PlasmaSomeVec ? "some" : "all", m, n);
        char b[40]; snprintf(b, 40, "nb%d kind%d", c.cfg.nb > 8 ? 9 : c.cfg.nb, kind); c.tag(b);
    }
    void call(Ctx &c) override { plasma_desc_t t; memset(&t, 0, sizeof t); c.info = PL(gesdd)(job, job, m, n, X(A.p), A.ld, &t, S.p, X(U.p), U.ld, X(V.p), V.ld); plasma_desc_destroy(&t); }
    void check(Ctx &c) override {
        expect0(c); int k = std::min(m, n); if (c.info || !k) return;
        LM a = getwas(A); LR fa = fro(a), tol = CF * (m + n + 8) * EPS;
        for (int i = 0; i < k; i++) { c.evals++; if (!(S[i] >= 0) || (i && !(S[i] <= S[i - 1]))) { c.fail("order", "singular value %d is %Lg after %Lg", i, (LR)S[i], i ? (LR)S[i - 1] : (LR)0); return; } }
        if (job != PlasmaNoVec) {
            LM u = get(U), v = get(V), uk(m, k), vk(k, n);
            smallnorm(c, "left-vectors", fro(sub(mm(ct(u), u), eye(u.n, u.n))), tol * std::sqrt((LR)u.n + 1)); smallnorm(c, "right-vectors", fro(sub(mm(v, ct(v)), eye(v.m, v.m))), tol * std::sqrt((LR)v.m + 1));
            for (int j = 0; j < k; j++) { for (int i = 0; i < m; i++) uk(i, j) = u(i, j) * (LR)S[j]; for (int i = 0; i < n; i++) vk(j, i) = v(j, i); }
            smallnorm(c, "decomposition", fro(sub(mm(uk, vk), a)), tol * fa);
        }
        if (job == PlasmaNoVec || c.pr.p(c.huge ? 0 : 0.1)) { std::vector<LR> s = svals(a); for (int i = 0; i < k; i++) { c.evals++; LR d = fabsl(s[i] - (LR)S[i]); if (!(d <= tol * fa)) { c.fail("values", "singular value %d is %Lg, %Lg expected", i, (LR)S[i], s[i]); return; } } }
    }
};
REGOP(Gesdd, "gesdd", F_SVD | F_THREADDEP)
}
