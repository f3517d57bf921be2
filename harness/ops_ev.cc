#include "core.h"
namespace {
#if !CPLX
// stevx2
static const LR CF = 8;
// number of eigenvalues below x, extended precision
static int below(const std::vector<LR> &d, const std::vector<LR> &e, LR x, LR tiny) {
    int n = d.size(), k = 0; LR q = 1;
    for (int i = 0; i < n; i++) { LR b = i ? e[i - 1] * e[i - 1] : 0; q = d[i] - x - (i ? (b == 0 ? 0 : b / q) : 0); if (fabsl(q) < tiny) q = tiny; if (q < 0) k++; }
    return k;
}
// entries of a tridiagonal matrix
static double tridiag(Ctx &c, int kind, int n, Vec<R> &d, Vec<R> &e) {
    double sc = c.pr.p(0.3) ? std::ldexp(1.0, c.pr.range(-20, 20)) : 1;
    for (int i = 0; i < n; i++) {
        double x = c.pr.sym(), y = c.pr.sym();
        switch (kind) {
        case 1: x = 2; y = -1; break;
        case 2: x = c.pr.range(-2, 2); y = c.pr.range(-1, 1); break;                       // integers, many zero couplings
        case 3: x = c.pr.range(-1, 1); y = 0; break;                                       // diagonal, repeated values
        case 4: x *= std::ldexp(1.0, -i); y *= std::ldexp(1.0, -i); break;                 // graded
        case 5: x = std::abs(i - n / 2); y = 1; break;                                     // Wilkinson: pairs
        case 6: x = 1; y *= std::ldexp(1.0, -c.pr.range(10, 60)); break;                   // one tight cluster
        case 7: x = c.pr.p(0.1) ? 1 : 0; y = 0; break;
        case 8: y = c.pr.p(0.2) ? 0 : c.pr.p(0.2) ? y * 1e-6 : y; break;
        }
        d.p[i] = (R)(x * sc); if (i < n - 1) e.p[i] = (R)(y * sc);
    }
    return sc;
}
struct Stevx2 : OpBase {
    int n, job, rng, kind, il = 1, iu = 1, k, found = -7; R vl = 0, vu = 1; Vec<R> d, e, val; Vec<int> mul; Mat V; Buf *fb;
    std::vector<LR> D, E, ref; LR nrm = 0, tiny;
    void setup(Ctx &c) override {
        job = c.pr.pick({(int)PlasmaNoVec, (int)PlasmaVec, (int)PlasmaVec, (int)PlasmaCount}); rng = c.pr.pick({(int)PlasmaRangeV, (int)PlasmaRangeI}); kind = c.pr.range(0, 8);
        n = dim(c, c.big ? 100 : 48);
        d = newvec<R>(c, "diag", n, 0); e = newvec<R>(c, "offd", std::max(n - 1, 0), 0);
        double sc = tridiag(c, kind, n, d, e);
        for (int i = 0; i < n; i++) D.push_back(d[i]); for (int i = 0; i + 1 < n; i++) E.push_back(e[i]);
        for (int i = 0; i < n; i++) nrm = std::max(nrm, fabsl(D[i]) + (i ? fabsl(E[i - 1]) : 0) + (i + 1 < n ? fabsl(E[i]) : 0));
        tiny = std::max((LR)1e-4000L, nrm * nrm * 1e-4000L);
        for (int j = 0; j < n; j++) { LR a = -nrm * 1.01L - tiny, b = nrm * 1.01L + tiny; for (int it = 0; it < 90; it++) { LR m = (a + b) / 2; if (below(D, E, m, tiny) > j) b = m; else a = m; } ref.push_back((a + b) / 2); }
        if (rng == PlasmaRangeI) { il = n ? c.pr.range(1, n) : 1; iu = n ? c.pr.range(il, n) : c.pr.range(0, 0); if (c.pr.p(0.25) && n) il = 1, iu = n; }
        else {
            double w = nrm > 0 ? (double)nrm : 1;
            do {
                int u = c.pr.range(0, 4);
                if (u == 0 || !n) vl = (R)(-2 * w), vu = (R)(2 * w);
                else if (u == 1) vl = d[c.pr.range(0, n - 1)], vu = d[c.pr.range(0, n - 1)];                      // bounds that are often eigenvalues
                else if (u == 2) vl = (R)ref[c.pr.range(0, n - 1)], vu = (R)(vl + w * c.pr.uni());
                else if (u == 3) vl = (R)(3 * w * c.pr.sym()), vu = (R)(3 * w * c.pr.sym());
                else { vl = (R)(w * c.pr.sym() * 0.5), vu = (R)(vl + w * c.pr.uni()); }
                if (vl > vu) std::swap(vl, vu);
            } while (!(vl < vu));
        }
        k = n; if (rng == PlasmaRangeI && c.pr.p(0.5)) k = std::max(0, iu - il + 1);
        val = newvec<R>(c, "pVal", k, (R)-7); mul = newvec<int>(c, "pMul", k, 0); val.outAll(); mul.outAll();
        for (int i = 0; i < k; i++) { T x = junkval(c); val.p[i] = x; mul.p[i] = c.junkmode == 0 ? 0 : c.junk.range(-5, 100); }
        V = newmat(c, "pVec", job == PlasmaVec ? n : 0, job == PlasmaVec ? k : 0, 0); if (job == PlasmaVec) V.outAll();
        fb = c.alloc("pFound", 1, sizeof(int)); *(int*)fb->p = -7; fb->role[0] = 1;
        const char *jn = job == PlasmaVec ? "vec" : job == PlasmaNoVec ? "val" : "count";
        c.D("job=%s n=%d k=%d kind=%d sc=%g", jn, n, k, kind, sc);
        if (rng == PlasmaRangeI) c.D(" il=%d iu=%d", il, iu); else c.D(" vl=%.9g vu=%.9g", (double)vl, (double)vu);
        char b[60]; snprintf(b, 60, "%s-%s-kind%d", jn, rng == PlasmaRangeI ? "index" : "value", kind); c.tag(b);
    }
    void call(Ctx &c) override {
        c.info = PL(stevx2)(job, rng, n, k, d.p, e.p, vl, vu, il, iu, (int*)fb->p, val.p, mul.p, V.p);
        found = *(int*)fb->p;
        // nothing is promised beyond the number found
        int f = job == PlasmaCount || c.info ? 0 : std::max(0, std::min(found, k));
        for (int i = f; i < k; i++) { val.p[i] = 0; mul.p[i] = 0; for (int j = 0; j < V.m; j++) V.p[(size_t)i * n + j] = 0; }
    }
    void check(Ctx &c) override {
        // inverse iteration one value at a time cannot tell values this close apart: a known weakness, kept apart
        bool close = false; LR sep = 64 * (n + 8) * EPS * nrm;
        for (int i = 1; i < n; i++) if (ref[i] - ref[i - 1] < sep) close = true;
        if (job != PlasmaVec || !Ctx::primary()) { if (c.info > 0 && job == PlasmaVec && close) return; }
        else if (c.info > 0 && close) { c.fail("info-cluster", "returned %d, 0 expected", c.info); return; }
        expect0(c); if (c.info) return;
        LR tol = CF * (n + 8) * EPS * nrm + 64 * (LR)std::numeric_limits<R>::min();
        int lo0, lo1, hi0, hi1;   // how many lie below either end
        if (rng == PlasmaRangeI) lo0 = lo1 = n ? il - 1 : 0, hi0 = hi1 = n ? iu : 0;
        else {
            lo0 = lo1 = hi0 = hi1 = 0;
            for (LR x : ref) { lo0 += x < vl - tol; lo1 += x < vl + tol; hi0 += x < vu - tol; hi1 += x < vu + tol; }
            hi0 = std::max(hi0, lo0);
        }
        c.evals++;
        if (job == PlasmaCount) { if (found < std::max(0, hi0 - lo1) || found > hi1 - lo0) c.fail("count", "%d eigenvalues counted, %d..%d lie in the range", found, std::max(0, hi0 - lo1), hi1 - lo0); return; }
        if (found < 0 || found > k) { c.fail("count", "%d eigenvalues found with room for %d", found, k); return; }
        std::vector<LR> x; std::vector<int> cl;
        for (int i = 0; i < found; i++) {
            c.evals++;
            if (mul[i] < 1 || mul[i] > n) { c.fail("multiplicity", "multiplicity %d of eigenvalue %d", mul[i], i); return; }
            if (!std::isfinite(val[i]) || (i && !(val[i] > val[i - 1]))) { c.fail("order", "eigenvalue %d is %Lg after %Lg", i, (LR)val[i], i ? (LR)val[i - 1] : 0); return; }
            for (int q = 0; q < mul[i]; q++) x.push_back(val[i]);
        }
        int s = x.size(); bool ok = false; std::string why;
        for (int b = lo0; b <= lo1 && !ok; b++) {
            if (b + s < hi0 || b + s > hi1) continue;
            ok = true; for (int i = 0; i < s; i++) if (!(fabsl(x[i] - ref[b + i]) <= tol)) { ok = false; break; }
        }
        if (!ok) { c.fail("values", "%d found with multiplicities %d do not agree with the %d..%d eigenvalues of the range (first %Lg, reference %Lg)", found, s, std::max(0, hi0 - lo1), hi1 - lo0, s ? x[0] : 0, n ? ref[std::min(lo0, n - 1)] : 0); return; }
        if (rng == PlasmaRangeV) for (int i = 0; i < found; i++) if (!(val[i] >= vl - tol && val[i] < vu + tol)) { c.fail("values", "eigenvalue %Lg outside the range", (LR)val[i]); return; }
        if (job != PlasmaVec || !found) return;
        LM v = get(V, n, found);
        close = false; for (int j = 1; j < found; j++) if ((LR)val[j] - val[j - 1] < sep) close = true;
        if (close && !Ctx::primary()) return;
        smallnorm(c, close ? "orthonormal-cluster" : "orthonormal", fro(sub(mm(op(v, PlasmaTrans), v), eye(found, found))), CF * (n + 8) * EPS * std::sqrt((LR)found));
        for (int j = 0; j < found; j++) {
            LR r2 = 0; for (int i = 0; i < n; i++) { LR y = (D[i] - (LR)val[j]) * v(i, j) + (i ? E[i - 1] * v(i - 1, j) : 0) + (i + 1 < n ? E[i] * v(i + 1, j) : 0); r2 += y * y; }
            smallnorm(c, close ? "residual-cluster" : "residual", sqrtl(r2), 4 * tol);
        }
    }
};
REGOP(Stevx2, "stevx2", F_EV | F_THREADDEP)

// the count of eigenvalues below a point
struct Laneg2 : OpBase {
    int n, kind; Vec<R> d, e, u; Vec<int> cnt; std::vector<LR> D, E; LR nrm = 0, tiny;
    void setup(Ctx &c) override {
        kind = c.pr.range(0, 8); n = dim(c, c.big ? 100 : 48); d = newvec<R>(c, "diag", n, 0); e = newvec<R>(c, "offd", std::max(n - 1, 0), 0); double sc = tridiag(c, kind, n, d, e);
        for (int i = 0; i < n; i++) D.push_back(d[i]); for (int i = 0; i + 1 < n; i++) E.push_back(e[i]);
        for (int i = 0; i < n; i++) nrm = std::max(nrm, fabsl(D[i]) + (i ? fabsl(E[i - 1]) : 0) + (i + 1 < n ? fabsl(E[i]) : 0));
        tiny = std::max((LR)1e-4000L, nrm * nrm * 1e-4000L);
        int k = 12; u = newvec<R>(c, "u", k, 0); cnt = newvec<int>(c, "count", k, -9); cnt.outAll();
        for (int i = 0; i < k; i++) u[i] = i < 4 && n ? d[c.pr.range(0, n - 1)] : i < 6 ? (R)(i == 4 ? 0 : 1) : i < 8 ? (R)(nrm * (i == 6 ? -2 : 2)) : (R)(nrm * c.pr.sym());
        c.D("n=%d kind=%d sc=%g", n, kind, sc); c.tag("kind" + std::to_string(kind));
    }
    void call(Ctx &c) override { for (int i = 0; i < u.n; i++) cnt[i] = PL(laneg2)(d.p, e.p, n, u[i]); c.info = 0; }
    void check(Ctx &c) override {
        LR tol = CF * (n + 8) * EPS * nrm + 64 * (LR)std::numeric_limits<R>::min();
        for (int i = 0; i < u.n; i++) { c.evals++; int a = below(D, E, u[i] - tol, tiny), b = below(D, E, u[i] + tol, tiny); if (cnt[i] < a || cnt[i] > b) { c.fail("count", "%d eigenvalues counted below %Lg, there are %d..%d", cnt[i], (LR)u[i], a, b); return; } }
    }
};
REGOP(Laneg2, "laneg2", F_EV)
#endif
}
