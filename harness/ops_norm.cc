#include "core.h"
namespace {
// lange, lansy, lanhe, lantr, langb, amax
enum { N_GE, N_SY, N_HE, N_TR, N_GB };
static int rnorm(Ctx &c) { return c.pr.pick({(int)PlasmaMaxNorm, (int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaFrobeniusNorm}); }
// entry generators: uniform, one dominating entry, row or column, extreme scale
struct Gen {
    int kind, si, sj; double sc;
    Gen(Ctx &c, int m, int n) {
        kind = c.pr.range(0, 8); si = m ? c.pr.range(0, m - 1) : 0; sj = n ? c.pr.range(0, n - 1) : 0; sc = 1;
        int e = (int)(std::numeric_limits<R>::max_exponent * 0.6);
        if (kind == 4) sc = std::ldexp(1.0, e);
        if (kind == 5 || kind == 7 || kind == 8) sc = std::ldexp(1.0, -e);
    }
    T operator()(Ctx &c, int i, int j) {
        double f = sc;
        if (kind == 1 && i == si && j == sj) f = 40;
        if (kind == 2 && i == si) f = 40;
        if (kind == 3 && j == sj) f = 40;
        if (kind == 6) f = (i == si && j == sj) ? 1 : 0;
        if (kind == 7 && !(c.pr.next() % 40 == 0)) f = 0;
        if (kind == 8 && i != j) f = 0;
        double a = c.pr.sym(), b = c.pr.sym();
        return mkT(a * f, b * f);
    }
};
template<int KIND> struct Norm : OpBase {
    int nt, uplo, diag, m, n, kl = 0, ku = 0; Mat A; R val = 0; int ldab = 0, rows = 0; Buf *ab_ = nullptr;
    bool sel(int i, int j) {
        switch (KIND) {
        case N_GE: return true;
        case N_GB: return i - j <= kl && j - i <= ku;
        case N_TR: return (uplo == PlasmaUpper ? i <= j : i >= j) && !(diag == PlasmaUnit && i == j);
        default: return uplo == PlasmaUpper ? i <= j : i >= j;
        }
    }
    void setup(Ctx &c) override {
        nt = rnorm(c); uplo = ruplo(c); diag = c.pr.pick({(int)PlasmaUnit, (int)PlasmaNonUnit}); m = dim(c); n = (KIND == N_SY || KIND == N_HE) ? m : dim(c);
        Gen g(c, m, n);
        if (KIND == N_GB) {
            kl = c.pr.range(0, std::max(0, std::min(m - 1, 14))); ku = c.pr.range(0, std::max(0, std::min(n - 1, 14)));
            int nb = c.cfg.nb; rows = ((ku + kl + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb;
            A = newmat(c, "AB", rows, n);
            for (int j = 0; j < n; j++) for (int r = 0; r < std::min(rows, 2 * kl + ku + nb); r++) { int i = j + r - kl - ku; if (i >= 0 && i < m) A(r, j) = T(0); }   // room for fill
            for (int j = 0; j < n; j++) for (int i = std::max(0, j - ku); i <= std::min(m - 1, j + kl); i++) A(kl + ku + i - j, j) = g(c, i, j);
        } else {
            A = newmat(c, "A", m, n);
            for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { T x = g(c, i, j); if (sel(i, j)) A(i, j) = x; }
            if (KIND == N_HE) for (int i = 0; i < n; i++) A(i, i) = mkT(std::real(A(i, i)), c.junkmode == 1 ? 0.5 : 0);
        }
        c.D("norm=%s uplo=%s diag=%s m=%d n=%d kl=%d ku=%d gen=%d", cE(nt), cE(uplo), cE(diag), m, n, kl, ku, g.kind);
        shape(c, "A", m, n); char b[40]; snprintf(b, 40, "norm%d%s%s%s gen%d", KIND, cE(nt), KIND == N_GE || KIND == N_GB ? "" : cE(uplo), KIND == N_TR ? cE(diag) : "", g.kind); c.tag(b);
    }
    void call(Ctx &c) override {
        switch (KIND) {
        case N_GE: val = PL(lange)(nt, m, n, X(A.p), A.ld); break;
        case N_SY: val = PL(lansy)(nt, uplo, n, X(A.p), A.ld); break;
#if CPLX
        case N_HE: val = PL(lanhe)(nt, uplo, n, X(A.p), A.ld); break;
#endif
        case N_TR: val = PL(lantr)(nt, uplo, diag, m, n, X(A.p), A.ld); break;
        case N_GB: val = PL(langb)(nt, m, n, kl, ku, X(A.p), A.ld); break;
        }
        c.outs.push_back(val);
    }
    void check(Ctx &c) override {
        AM a(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            LR v = 0;
            if (KIND == N_GB) v = sel(i, j) ? ab(up(A(kl + ku + i - j, j))) : 0;
            else if (KIND == N_SY || KIND == N_HE) { v = sel(i, j) ? ab(up(A(i, j))) : ab(up(A(j, i))); if (KIND == N_HE && i == j) v = fabsl(re(up(A(i, i)))); }
            else if (KIND == N_TR && diag == PlasmaUnit && i == j) v = 1;
            else v = sel(i, j) ? ab(up(A(i, j))) : 0;
            a(i, j) = v;
        }
        LR ref = 0, tol = 0;
        switch (nt) {
        case PlasmaMaxNorm: for (LR x : a.v) ref = std::max(ref, x); tol = 6; break;
        case PlasmaOneNorm: for (int j = 0; j < n; j++) { LR s = 0; for (int i = 0; i < m; i++) s += a(i, j); ref = std::max(ref, s); } tol = m + n + 10; break;
        case PlasmaInfNorm: for (int i = 0; i < m; i++) { LR s = 0; for (int j = 0; j < n; j++) s += a(i, j); ref = std::max(ref, s); } tol = m + n + 10; break;
        default: { LR mx = 0; for (LR x : a.v) mx = std::max(mx, x); if (mx > 0) { LR s = 0; for (LR x : a.v) s += (x / mx) * (x / mx); ref = mx * sqrtl(s); } tol = 4 * (m + n + 20); }
        }
        c.evals++;
        if (m * n == 0) { if (val != 0) c.fail("norm-empty", "norm of an empty matrix is %g", (double)val); return; }
        if (!(fabsl((LR)val - ref) <= tol * EPS * ref)) c.fail("norm-value", "%Lg, expected %Lg", (LR)val, ref);
    }
};
typedef Norm<N_GE> NormGE; REGOP(NormGE, "lange", F_NORM)
typedef Norm<N_SY> NormSY; REGOP(NormSY, "lansy", F_NORM)
#if CPLX
typedef Norm<N_HE> NormHE; REGOP(NormHE, "lanhe", F_NORM)
#endif
typedef Norm<N_TR> NormTR; REGOP(NormTR, "lantr", F_NORM)
typedef Norm<N_GB> NormGB; REGOP(NormGB, "langb", F_NORM)

struct Amax : OpBase {
    int cr, m, n; Mat A; Vec<R> v;
    void setup(Ctx &c) override {
        cr = c.pr.pick({(int)PlasmaRowwise, (int)PlasmaColumnwise}); m = dim(c); n = dim(c);
        A = newmat(c, "A", m, n); Gen g(c, m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = g(c, i, j);
        int k = cr == PlasmaRowwise ? m : n; v = newvec<R>(c, "values", k, (R)-1); if (m * n) v.outAll();
        c.D("%s m=%d n=%d gen=%d", cE(cr), m, n, g.kind); shape(c, "A", m, n); c.tag(std::string("amax") + cE(cr));
    }
    void call(Ctx &c) override { c.info = PAMAX(cr, m, n, X(A.p), A.ld, v.p); }
    void check(Ctx &c) override {
        expect0(c); if (m * n == 0) return;
        for (int k = 0; k < v.n; k++) {
            LR mx = 0; int o = cr == PlasmaRowwise ? n : m;
            for (int l = 0; l < o; l++) mx = std::max(mx, ab1(up(cr == PlasmaRowwise ? A(k, l) : A(l, k))));
            c.evals++;
            if (!(fabsl(v[k] - mx) <= 2 * EPS * mx)) { c.fail("amax-value", "%s %d: %Lg, expected %Lg", cE(cr), k, (LR)v[k], mx); return; }
        }
    }
};
REGOP(Amax, "amax", F_NORM)
}
