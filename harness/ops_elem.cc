#include "core.h"
namespace {
// geadd, tradd, lacpy, laset, lascl, geswp, lag2c, clag2z: the defining entries
static const LR CF = CPLX ? 8 : 4;
static std::function<bool(int,int)> region(int uplo) {
    return [uplo](int i, int j) { return uplo == PlasmaGeneral ? true : uplo == PlasmaUpper ? i <= j : i >= j; };
}
static int ruplo3(Ctx &c) { return c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower, (int)PlasmaGeneral}); }

template<bool TR> struct Add : OpBase {
    int uplo, tr, m, n, vm; Mat A, B; T alpha, beta;
    void setup(Ctx &c) override {
        uplo = TR ? ruplo(c) : PlasmaGeneral; tr = rtrans(c); m = dim(c); n = dim(c); vm = vmode(c);
        alpha = scalar(c, vm); beta = scalar(c, vm);
        A = tr == PlasmaNoTrans ? newmat(c, "A", m, n) : newmat(c, "A", n, m); B = newmat(c, "B", m, n);
        auto in = region(uplo);
        bool skip = alpha == T(0) && beta == T(1);     // documented quick return: nothing is referenced
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) {
            T x = rT(c, vm); if (!skip) (tr == PlasmaNoTrans ? A(i, j) : A(j, i)) = x;
            B(i, j) = rT(c, vm);
        }
        B.outIf(in);
        c.D("uplo=%s trans=%s m=%d n=%d vm=%d alpha=%g beta=%g", cE(uplo), cE(tr), m, n, vm, (double)std::real(alpha), (double)std::real(beta));
        shape(c, "B", m, n); c.tag(std::string(TR ? "tradd" : "geadd") + cE(uplo) + cE(tr));
    }
    void call(Ctx &c) override {
        c.info = TR ? PL(tradd)(uplo, tr, m, n, S(alpha), X(A.p), A.ld, S(beta), X(B.p), B.ld)
                    : PL(geadd)(tr, m, n, S(alpha), X(A.p), A.ld, S(beta), X(B.p), B.ld);
    }
    void check(Ctx &c) override {
        expect0(c);
        auto in = region(uplo);
        LM ref(m, n); AM bd(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) {
            L a = tr == PlasmaNoTrans ? up(A(i, j)) : tr == PlasmaTrans ? up(A(j, i)) : cj(up(A(j, i))), b = up(B.was(i, j));
            if (alpha == T(0) && beta == T(1)) { if (!same(B(i, j), B.was(i, j)) && !(isn(B(i, j)) && isn(B.was(i, j)))) { c.fail("value-exact", "quick return changed B(%d,%d)", i, j); return; } c.evals++; continue; }
            ref(i, j) = up(alpha) * a + up(beta) * b; bd(i, j) = ab(up(alpha)) * ab(a) + ab(up(beta)) * ab(b);
        }
        if (alpha == T(0) && beta == T(1)) return;
        if (vm == V_INT) exact(c, "value-exact", B, ref, in); else cmp(c, "value", B, ref, bd, CF * 4 * EPS, in);
    }
};
typedef Add<false> AddG; REGOP(AddG, "geadd", F_ELEM)
typedef Add<true> AddT; REGOP(AddT, "tradd", F_ELEM)

struct Lacpy : OpBase {
    int uplo, tr, m, n; Mat A, B;
    bool sel(int i, int j) { return region(uplo)(i, j); }
    void setup(Ctx &c) override {
        uplo = ruplo3(c); tr = c.pr.p(0.4) ? PlasmaNoTrans : rtrans(c); m = dim(c); n = tr == PlasmaNoTrans ? dim(c) : m;
        A = newmat(c, "A", m, n); B = newmat(c, "B", m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j)) {
            A(i, j) = rT(c, V_WIDE);
            if (tr == PlasmaNoTrans) B.out(i, j); else B.out(j, i);
        }
        c.D("uplo=%s trans=%s m=%d n=%d", cE(uplo), cE(tr), m, n);
        shape(c, "A", m, n); c.tag(std::string("lacpy") + cE(uplo) + cE(tr));
    }
    void call(Ctx &c) override { c.info = PL(lacpy)(uplo, tr, m, n, X(A.p), A.ld, X(B.p), B.ld); }
    void check(Ctx &c) override {
        expect0(c);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (sel(i, j)) {
            T want = tr == PlasmaConjTrans ? cjT(A(i, j)) : A(i, j), got = tr == PlasmaNoTrans ? B(i, j) : B(j, i);
            c.evals++;
            if (!same(want, got)) { c.fail("value-exact", "copy of A(%d,%d) is wrong", i, j); return; }
        }
    }
};
REGOP(Lacpy, "lacpy", F_ELEM)

struct Laset : OpBase {
    int uplo, m, n; Mat A; T al, be;
    void setup(Ctx &c) override {
        uplo = ruplo3(c); m = dim(c); n = dim(c); al = scalar(c, V_UNI); be = scalar(c, V_UNI);
        A = newmat(c, "A", m, n); A.outIf(region(uplo));
        c.D("uplo=%s m=%d n=%d alpha=%g beta=%g", cE(uplo), m, n, (double)std::real(al), (double)std::real(be));
        shape(c, "A", m, n); c.tag(std::string("laset") + cE(uplo));
    }
    void call(Ctx &c) override { c.info = PL(laset)(uplo, m, n, S(al), S(be), X(A.p), A.ld); }
    void check(Ctx &c) override {
        expect0(c); auto in = region(uplo);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { c.evals++; if (!(A(i, j) == (i == j ? be : al))) { c.fail("value-exact", "A(%d,%d) was not set", i, j); return; } }
    }
};
REGOP(Laset, "laset", F_ELEM)

struct Lascl : OpBase {
    int uplo, m, n, ex; Mat A; R cf, ct;
    void setup(Ctx &c) override {
        uplo = ruplo3(c); m = dim(c); n = dim(c);
        A = newmat(c, "A", m, n); A.outIf(region(uplo));
        int emax = std::numeric_limits<R>::max_exponent - 6;
        // cto/cfrom may overflow or underflow, the product with A must not: entries and the result are kept
        // well inside the range, the factors are not
        int ea, er;
        switch (c.pr.range(0, 3)) {
        case 0: ea = 0; er = c.pr.range(-3, 3); break;
        case 1: ea = c.pr.range(-emax + 40, emax - 40); er = c.pr.range(-emax + 40, emax - 40); break;
        case 2: ea = -emax + 40; er = emax - 40; break;
        default: ea = emax - 40; er = -emax + 40; break;
        }
        int d = er - ea;                 // exponent of cto/cfrom
        int e1 = d / 2, e2 = d - e1;
        int lim = emax - 4;
        int sh = c.pr.range(-3, 3);
        e2 = std::max(-lim, std::min(lim, e2 + sh)); e1 = std::max(-lim, std::min(lim, e1 - sh));
        ct = (R)std::ldexp(1 + c.pr.uni(), e2) * (c.pr.p(0.3) ? -1 : 1); cf = (R)std::ldexp(1 + c.pr.uni(), -e1) * (c.pr.p(0.3) ? -1 : 1);
        if (c.pr.p(0.08)) ct = 0; if (c.pr.p(0.08)) ct = cf;
        auto in = region(uplo);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) A(i, j) = mkT(std::ldexp(c.pr.sym(), ea), std::ldexp(c.pr.sym(), ea));
        ex = ea;
        c.D("uplo=%s m=%d n=%d cfrom=%g cto=%g |A|~2^%d", cE(uplo), m, n, (double)cf, (double)ct, ea);
        shape(c, "A", m, n); c.tag(std::string("lascl") + cE(uplo)); if (std::abs(d) > emax) c.tag("lascl-extreme-ratio");
    }
    void call(Ctx &c) override { c.info = PL(lascl)(uplo, cf, ct, m, n, X(A.p), A.ld); }
    void check(Ctx &c) override {
        expect0(c); auto in = region(uplo); LM ref(m, n); AM bd(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { ref(i, j) = up(A.was(i, j)) * (LR)ct / (LR)cf; bd(i, j) = ab(ref(i, j)); }
        cmp(c, "value", A, ref, bd, 12 * EPS, in);
    }
};
REGOP(Lascl, "lascl", F_ELEM)

// entries outside a band become zero
struct Gbset : OpBase {
    int m, n, kl, ku; Mat A;
    void setup(Ctx &c) override {
        m = dim(c); n = dim(c); kl = c.pr.p(0.2) ? std::max(0, m - 1) : c.pr.range(0, std::max(0, m - 1)); ku = c.pr.p(0.2) ? std::max(0, n - 1) : c.pr.range(0, std::max(0, n - 1));
        if (c.pr.p(0.5)) kl = std::min(kl, c.pr.range(0, 5)), ku = std::min(ku, c.pr.range(0, 5));
        A = newmat(c, "A", m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j > kl || j - i > ku) A.out(i, j); else A(i, j) = rT(c, V_WIDE);
        c.D("m=%d n=%d kl=%d ku=%d", m, n, kl, ku); shape(c, "A", m, n);
    }
    void call(Ctx &c) override { PL(gbset)(m, n, kl, ku, X(A.p), A.ld); c.info = 0; }
    void check(Ctx &c) override { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j > kl || j - i > ku) { c.evals++; if (!(A(i, j) == T(0))) { c.fail("value-exact", "A(%d,%d) outside the band is not zero", i, j); return; } } }
};
REGOP(Gbset, "gbset", F_ELEM)

struct Geswp : OpBase {
    int cr, m, n, inc; Mat A; Vec<int> ip;
    void setup(Ctx &c) override {
        cr = c.pr.pick({(int)PlasmaRowwise, (int)PlasmaColumnwise}); m = dim(c); n = dim(c); inc = c.pr.p(0.5) ? 1 : -1;
        A = newmat(c, "A", m, n); A.outAll();
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = rT(c, V_WIDE);
        int k = cr == PlasmaRowwise ? m : n;
        ip = newvec<int>(c, "ipiv", k, 1);
        int kind = c.pr.range(0, 2);
        for (int i = 0; i < k; i++) ip[i] = kind == 0 ? c.pr.range(i + 1, k) : kind == 1 ? (c.pr.p(0.3) ? c.pr.range(i + 1, k) : i + 1) : c.pr.range(1, k);
        c.D("%s m=%d n=%d incx=%d kind=%d", cE(cr), m, n, inc, kind); shape(c, "A", m, n); c.tag(std::string("geswp") + cE(cr) + (inc > 0 ? "+" : "-"));
    }
    void call(Ctx &c) override { c.info = PL(geswp)(cr, m, n, X(A.p), A.ld, ip.p, inc); }
    void check(Ctx &c) override {
        expect0(c); LM ref = getwas(A); int k = ip.n;
        for (int t = 0; t < k; t++) {
            int a = inc > 0 ? t : k - 1 - t, b = ip[a] - 1;
            if (a == b) continue;
            if (cr == PlasmaRowwise) for (int j = 0; j < n; j++) std::swap(ref(a, j), ref(b, j)); else for (int i = 0; i < m; i++) std::swap(ref(i, a), ref(i, b));
        }
        exact(c, "value-exact", A, ref);
    }
};
REGOP(Geswp, "geswp", F_ELEM)

#if defined(PREC_Z) || defined(PREC_D)
#ifdef PREC_Z
typedef std::complex<float> TL; typedef plasma_complex32_t PTL;
#define LAG_DN plasma_zlag2c
#define LAG_UP plasma_clag2z
static TL lowT(T x) { return TL((float)x.real(), (float)x.imag()); }
static T hiT(TL x) { return T(x.real(), x.imag()); }
#else
typedef float TL; typedef float PTL;
#define LAG_DN plasma_dlag2s
#define LAG_UP plasma_slag2d
static TL lowT(T x) { return (float)x; }
static T hiT(TL x) { return x; }
#endif
template<bool DN> struct Lag : OpBase {
    int m, n, ldl; Mat A; Vec<TL> B;
    void setup(Ctx &c) override {
        m = dim(c); n = dim(c); A = newmat(c, "A", m, n); ldl = std::max(1, m + (c.pr.p(0.5) ? 0 : c.pr.range(1, 4)));
        B = newvec<TL>(c, "As", ldl * n, TL(7)); B.b->ld = ldl; B.b->rows = m;
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            T x = mkT(c.pr.sym() * std::ldexp(1.0, c.pr.range(-100, 100)), c.pr.sym() * std::ldexp(1.0, c.pr.range(-100, 100)));
            if (DN) { A(i, j) = x; B.b->role[i + (size_t)j * ldl] = 1; } else { B[i + j * ldl] = lowT(x); A.out(i, j); }
        }
        c.D("m=%d n=%d", m, n); shape(c, "A", m, n); c.tag(DN ? "lag-down" : "lag-up");
    }
    void call(Ctx &c) override { c.info = DN ? LAG_DN(m, n, X(A.p), A.ld, (PTL*)B.p, ldl) : LAG_UP(m, n, (PTL*)B.p, ldl, X(A.p), A.ld); }
    void check(Ctx &c) override {
        expect0(c);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            c.evals++; TL b = B[i + j * ldl];
            if (DN ? !(b == lowT(A(i, j))) : !(A(i, j) == hiT(b))) { c.fail("value-exact", "conversion of entry (%d,%d) is wrong", i, j); return; }
        }
    }
};
typedef Lag<true> LagDn; REGOP(LagDn, "lag2-down", F_ELEM)
typedef Lag<false> LagUp; REGOP(LagUp, "lag2-up", F_ELEM)
#endif
}
