#include "core.h"
#include "vomp.h"
extern "C" void GOMP_taskwait(void);
namespace {
// C20: random programs of asynchronous calls on shared tile matrices. Oracle: the same calls one at a
// time, each in its own parallel region and on fresh copies of its operands.
enum Kind { K_GEMM, K_SYMM, K_SYRK, K_SYR2K, K_HEMM, K_HERK, K_HER2K, K_TRMM, K_TRSM, K_GEADD, K_TRADD, K_LACPY, K_LASET, K_LASCL, K_GESWP,
            K_POTRF, K_POTRS, K_TRTRI, K_LAUUM, K_POSV, K_GETRF, K_GETRS, K_GEQRF, K_UNMQR, K_NORM,
            K_GELQF, K_UNMLQ, K_GELQS, K_UNGLQ, K_GEQRS, K_UNGQR, K_GELS, K_GESV, K_POTRI, K_POINV, K_GETRI, K_GEINV, K_LANHE, K_LANSY, K_LANTR, K_GE2DESC, K_DESC2GE,
            K_PB2DESC, K_PBTRF, K_PBTRS, K_DESC2PB, K_GB2DESC, K_GBTRF, K_GBTRS, K_DESC2GB, K_LANGB, K_HETRF, K_HETRS, K_NK };
static const char *KNAME[] = {"gemm", "symm", "syrk", "syr2k", "hemm", "herk", "her2k", "trmm", "trsm", "geadd", "tradd", "lacpy", "laset", "lascl", "geswp",
            "potrf", "potrs", "trtri", "lauum", "posv", "getrf", "getrs", "geqrf", "unmqr", "norm",
            "gelqf", "unmlq", "gelqs", "unglq", "geqrs", "ungqr", "gels", "gesv", "potri", "poinv", "getri", "geinv", "lanhe", "lansy", "lantr", "ge2desc", "desc2ge",
            "pb2desc", "pbtrf", "pbtrs", "desc2pb", "gb2desc", "gbtrf", "gbtrs", "desc2gb", "langb", "hetrf", "hetrs"};
struct View { int k = -1, i = 0, j = 0, m = 0, n = 0; };
struct Call {
    int kind = 0, seq = 0, e1 = 0, e2 = 0, e3 = 0, e4 = 0; T alpha, beta; R ra = 1, rb = 1; std::vector<View> v; int aux = -1, aux2 = -1;   // aux: index of ipiv / T slot
    int bad = 0, which = 0; std::vector<int> ip; int incx = 1;
};
struct Slot { std::vector<int> ip, ip2; plasma_desc_t T, W; bool hasT = false, hasW = false, he = false; int wm = 0; };
// LAPACK arrays and band matrices of one sequence
struct Side { std::vector<T> ge, pb, gb, opb, ogb; plasma_desc_t PB, GB; std::vector<int> gip; bool made = false; };
static char *al(size_t n) { void *p = nullptr; if (posix_memalign(&p, 64, n + 64)) abort(); memset(p, 0x5A, n + 64); return (char*)p; }
struct Own { plasma_desc_t D; char *mem = nullptr;
    void make(int m, int n, int nb) { mem = al((size_t)m * n * sizeof(T)); plasma_desc_general_init(PTYPE, mem, nb, nb, m, n, 0, 0, m, n, &D); }
    ~Own() { free(mem); } };
static T *addr(const plasma_desc_t &D, int i, int j) { char *t = (char*)plasma_tile_addr(D, i / D.mb, j / D.nb); return (T*)t + (size_t)(j % D.nb) * plasma_tile_mmain(D, i / D.mb) + i % D.mb; }
struct Chain : OpBase {
    int nb, N, np = 4, nseq = 1; std::vector<Mat> P; std::vector<Call> prog; std::vector<LM> dummy;
    std::vector<Slot> slots, rslots; std::vector<std::vector<T>> model, model0; std::vector<R> norms, rnorms;
    plasma_sequence_t sq[2]; std::vector<plasma_request_t> rq; plasma_workspace_t work; int failAt = -1, failPos = 0, badKind = 0; bool tw = true; Side side[2], rside[2], side0[2]; int kd[2], kl[2], ku[2], bu[2], ldg = 1; std::string trouble;
    std::vector<int> rstat; std::vector<std::vector<T>> got; std::vector<char> wsnap;
    enum { ST_SPD, ST_FAC, ST_DD, ST_LU, ST_QR, ST_LQ, ST_HE, ST_FREE, ST_SINV };
    // ---- generation
    int al0(Ctx &c, int d) { return nb * c.pr.range(0, (N - d) / nb); }
    View view(Ctx &c, int k, int m, int n) { View v; v.k = k; v.m = m; v.n = n; v.i = al0(c, m); v.j = al0(c, n); return v; }
    int fr(Ctx &c, int base, int not1 = -1) { int k; do k = base + c.pr.range(0, 1); while (k == not1); return k; }
    const char *xk = getenv("XK");
    int d(Ctx &c) { double u = c.pr.uni(); return u < 0.35 ? N : u < 0.7 ? std::min(N, nb * c.pr.range(1, std::max(1, N / nb))) : c.pr.range(1, N); }
    void setup(Ctx &c) override {
        nb = c.cfg.nb; if (nb < 2) nb = c.cfg.nb = 2; c.cfg.ib = std::min(c.cfg.ib, nb); c.cfg.mtpf = 1;
        N = std::max(1, std::min(dim(c), 40)); nseq = c.pr.p(0.3) ? 2 : 1;
        bool fail = c.want == 1;
        // pool per sequence: 0, 1 free; 2 diagonally dominant Hermitian; 3 diagonally dominant
        for (int s = 0; s < nseq; s++) for (int k = 0; k < 4; k++) {
            char nm[8]; snprintf(nm, 8, "M%d", 4 * s + k); Mat A = newmat(c, nm, N, N, 0); A.outAll();
            for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) {
                T x = mkT(c.pr.sym() / 4, c.pr.sym() / 4);
                if (k == 2) { if (i == j) x = mkT(1.5 + c.pr.uni(), 0); else if (i > j) x = x * (R)(3.0 / N); else { A(i, j) = cjT(A(j, i)); continue; } }
                if (k == 3) { x = x * (R)(3.0 / N); if (i == j) x = mkT(c.pr.p(0.5) ? 2 : -2, 0); }
                A(i, j) = x;
                if (k == 2 && i > j) A(j, i) = cjT(x);
            }
            if (k == 2) for (int j = 0; j < N; j++) for (int i = 0; i < j; i++) A(i, j) = cjT(A(j, i));
            P.push_back(A);
        }
        for (int s = 0; s < nseq; s++) {
            kd[s] = c.pr.range(0, N - 1); kl[s] = c.pr.range(0, N - 1); ku[s] = c.pr.range(0, N - 1); bu[s] = ruplo(c); if (c.pr.p(0.5)) { kd[s] = std::min(kd[s], nb + 1); kl[s] = std::min(kl[s], nb); ku[s] = std::min(ku[s], 2); }
            Side &d0 = side0[s]; ldg = N + 1; auto rv = [&] { return mkT(c.pr.sym() / 4, c.pr.sym() / 4); };
            d0.ge.resize((size_t)ldg * N); for (auto &x : d0.ge) x = rv();
            int lp = kd[s] + 2, lg = gbrows(s); d0.pb.assign((size_t)lp * N, T(0)); d0.gb.assign((size_t)lg * N, T(0)); d0.opb.assign(d0.pb.size(), mkT(7, 0)); d0.ogb.assign(d0.gb.size(), mkT(7, 0)); d0.gip.assign(N, -3);
            for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) {
                if (abs(i - j) <= kd[s] && (bu[s] == PlasmaUpper ? i <= j : i >= j)) d0.pb[(size_t)j * lp + (bu[s] == PlasmaUpper ? kd[s] + i - j : i - j)] = i == j ? mkT(2, 0) : rv() * (R)(1.0 / (kd[s] + 1));
                if (i - j <= kl[s] && j - i <= ku[s]) d0.gb[(size_t)j * lg + kl[s] + ku[s] + i - j] = i == j ? mkT(2, 0.5) : rv();
            }
        }
        std::vector<int> sp(nseq, 0), sg(nseq, 0);
        std::vector<int> s2(nseq, ST_SPD), slot2(nseq, -1), s3(nseq, ST_DD), f2(nseq, PlasmaLower), slot3(nseq, -1); std::vector<View> v2(nseq), v3(nseq);
        int L = c.pr.range(2, 9); int theme = c.pr.p(0.35) ? c.pr.range(1, 5) : 0; static const std::vector<int> TH[] = {{}, {K_PB2DESC, K_PBTRF, K_PBTRS, K_DESC2PB, K_LASET}, {K_GB2DESC, K_GBTRF, K_GBTRS, K_DESC2GB, K_LANGB, K_LASCL}, {K_HETRF, K_HETRS, K_GEADD, K_POTRF}, {K_GETRF, K_GETRS, K_GETRI, K_GEINV, K_GESV, K_GESWP, K_GE2DESC, K_DESC2GE}, {K_GEQRF, K_GELQF, K_UNMQR, K_UNMLQ, K_UNGQR, K_UNGLQ, K_GEQRS, K_GELQS, K_GELS}}; tw = c.pr.p(0.65);
        failAt = fail ? c.pr.range(0, L - 1) : -1;
        for (int o = 0; o < L; o++) {
            Call q; q.seq = o == failAt ? 0 : c.pr.range(0, nseq - 1); int b = 4 * q.seq, s = q.seq; int C = fr(c, b), A = fr(c, b, C);
            if (c.pr.p(0.2)) A = b + 3;        // also read the others
            auto tr = [&] { return rtrans(c); }; auto up_ = [&] { return ruplo(c); }; auto sc = [&](R &x) { x = c.pr.pick({0, 1, -1, 1}) * (R)(c.pr.p(0.5) ? 1 : 0.5); };
            R x, y; sc(x); sc(y); q.ra = x; q.rb = y; q.alpha = mkT(x, CPLX && c.pr.p(0.4) ? 0.25 : 0); q.beta = mkT(y, CPLX && c.pr.p(0.4) ? -0.25 : 0);
            int m = d(c), n = d(c), k = d(c);
            static const int NK = CPLX ? 0 : 1; (void)NK;
            auto pickk = [&] { do q.kind = theme && c.pr.p(0.75) ? TH[theme][c.pr.range(0, (int)TH[theme].size() - 1)] : c.pr.range(0, K_NK - 1); while (!CPLX && (q.kind == K_HEMM || q.kind == K_HERK || q.kind == K_HER2K || q.kind == K_LANHE)); };
            // what the state of the factorized matrices allows
            auto ok = [&](int k) {
                switch (k) {
                case K_POTRF: case K_POSV: case K_POINV: case K_HETRF: return s2[s] == ST_SPD;
                case K_POTRS: case K_TRTRI: case K_LAUUM: case K_POTRI: return s2[s] == ST_FAC;
                case K_HETRS: return s2[s] == ST_HE;
                case K_GETRF: case K_GEQRF: case K_GELQF: case K_GELS: case K_GESV: case K_GEINV: return s3[s] == ST_DD;
                case K_GETRS: case K_GETRI: return s3[s] == ST_LU;
                case K_UNMQR: return s3[s] == ST_QR; case K_UNGQR: case K_GEQRS: return s3[s] == ST_QR && v3[s].m >= v3[s].n;
                case K_UNMLQ: return s3[s] == ST_LQ; case K_UNGLQ: case K_GELQS: return s3[s] == ST_LQ && v3[s].m <= v3[s].n;
                case K_PBTRF: return sp[s] == 1; case K_PBTRS: return sp[s] == 2; case K_DESC2PB: return sp[s] >= 1; case K_PB2DESC: return true;
                case K_GBTRF: case K_LANGB: return sg[s] == 1; case K_GBTRS: return sg[s] == 2; case K_DESC2GB: return sg[s] >= 1;
                } return true; };
            // lead to what a routine needs
            static const int lead[][2] = {{K_POTRS, K_POTRF}, {K_TRTRI, K_POTRF}, {K_LAUUM, K_POTRF}, {K_POTRI, K_POTRF}, {K_HETRS, K_HETRF}, {K_GETRS, K_GETRF}, {K_GETRI, K_GETRF}, {K_UNMQR, K_GEQRF}, {K_UNGQR, K_GEQRF}, {K_GEQRS, K_GEQRF}, {K_UNMLQ, K_GELQF}, {K_UNGLQ, K_GELQF}, {K_GELQS, K_GELQF}, {K_PBTRF, K_PB2DESC}, {K_PBTRS, K_PBTRF}, {K_GBTRF, K_GB2DESC}, {K_GBTRS, K_GBTRF}, {K_DESC2PB, K_PB2DESC}, {K_DESC2GB, K_GB2DESC}, {K_LANGB, K_GB2DESC}};
            do pickk(); while (xk && strstr((std::string(",") + xk + ",").c_str(), (std::string(",") + KNAME[q.kind] + ",").c_str()));
            if (o == failAt) { badKind = c.pr.range(1, 4); static const int br[] = {K_POTRF, K_POSV, K_POINV}, bl[] = {K_GETRF, K_GESV}; if (badKind == 1) q.kind = br[c.pr.range(0, 2)]; if (badKind == 4) q.kind = bl[c.pr.range(0, 1)]; }
            for (int x = 0; x < 9 && !ok(q.kind); x++) { bool f = false; for (auto &l : lead) if (l[0] == q.kind) { q.kind = l[1]; f = true; break; } if (!f) { if (o == failAt && (badKind == 1 || badKind == 4)) break; pickk(); } }
            if (xk && strstr(xk, KNAME[q.kind])) q.kind = K_LASCL;
            if (!ok(q.kind) && !(o == failAt && (badKind == 1 || badKind == 4))) q.kind = K_LASCL;
            q.aux2 = q.kind;
            switch (q.kind) {
            case K_GEMM: q.e1 = tr(); q.e2 = tr(); q.v = {q.e1 == PlasmaNoTrans ? view(c, A, m, k) : view(c, A, k, m), q.e2 == PlasmaNoTrans ? view(c, fr(c, b, C), k, n) : view(c, fr(c, b, C), n, k), view(c, C, m, n)}; break;
            case K_SYMM: case K_HEMM: q.e1 = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); q.e2 = up_(); k = q.e1 == PlasmaLeft ? m : n; q.v = {view(c, A, k, k), view(c, fr(c, b, C), m, n), view(c, C, m, n)}; break;
            case K_SYRK: case K_HERK: q.e1 = up_(); q.e2 = c.pr.p(0.5) ? PlasmaNoTrans : q.kind == K_HERK ? PlasmaConjTrans : PlasmaTrans; q.v = {q.e2 == PlasmaNoTrans ? view(c, A, n, k) : view(c, A, k, n), view(c, C, n, n)}; break;
            case K_SYR2K: case K_HER2K: { q.e1 = up_(); q.e2 = c.pr.p(0.5) ? PlasmaNoTrans : q.kind == K_HER2K ? PlasmaConjTrans : PlasmaTrans; int B = fr(c, b, C); q.v = {q.e2 == PlasmaNoTrans ? view(c, A, n, k) : view(c, A, k, n), q.e2 == PlasmaNoTrans ? view(c, B, n, k) : view(c, B, k, n), view(c, C, n, n)}; break; }
            case K_TRMM: case K_TRSM: q.e1 = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); q.e2 = up_(); q.e3 = tr(); q.e4 = c.pr.pick({(int)PlasmaUnit, (int)PlasmaNonUnit}); k = q.e1 == PlasmaLeft ? m : n;
                // diagonal blocks of a dominant matrix keep the solution moderate
                { View t = view(c, b + (c.pr.p(0.5) && s2[s] != ST_FREE ? 2 : 3), k, k); t.j = t.i; q.v = {t, view(c, C, m, n)}; } break;
            case K_GEADD: q.e1 = tr(); q.v = {q.e1 == PlasmaNoTrans ? view(c, A, m, n) : view(c, A, n, m), view(c, C, m, n)}; break;
            case K_TRADD: q.e1 = up_(); q.e2 = tr(); q.v = {q.e2 == PlasmaNoTrans ? view(c, A, m, n) : view(c, A, n, m), view(c, C, m, n)}; break;
            case K_LACPY: q.e1 = c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower, (int)PlasmaGeneral}); q.e2 = c.pr.p(0.5) ? PlasmaNoTrans : tr(); if (q.e2 != PlasmaNoTrans) n = m; q.v = {view(c, A, m, n), view(c, C, m, n)}; break;
            case K_LASET: q.e1 = c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower, (int)PlasmaGeneral}); q.v = {view(c, C, m, n)}; break;
            case K_LASCL: q.e1 = c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower, (int)PlasmaGeneral}); q.ra = 2; q.rb = c.pr.pick({1, 2, -1}); q.v = {view(c, C, m, n)}; break;
            case K_GESWP: { q.e1 = c.pr.pick({(int)PlasmaRowwise, (int)PlasmaColumnwise}); q.v = {view(c, C, m, n)}; int z = q.e1 == PlasmaRowwise ? m : n; for (int i = 0; i < z; i++) q.ip.push_back(c.pr.range(i + 1, z)); q.incx = c.pr.p(0.5) ? 1 : -1; break; }
            case K_POTRF: { View t = view(c, b + 2, n, n); t.j = t.i; q.e1 = up_(); q.v = {t}; s2[s] = ST_FAC; f2[s] = q.e1; v2[s] = t; break; }
            case K_POSV: { View t = view(c, b + 2, n, n); t.j = t.i; q.e1 = up_(); q.v = {t, view(c, C, n, k)}; s2[s] = ST_FAC; f2[s] = q.e1; v2[s] = t; break; }
            case K_POTRS: q.e1 = f2[s]; q.v = {v2[s], view(c, C, v2[s].n, k)}; break;
            case K_TRTRI: q.e1 = f2[s]; q.e2 = c.pr.pick({(int)PlasmaUnit, (int)PlasmaNonUnit}); q.v = {v2[s]}; s2[s] = ST_FREE; break;
            case K_LAUUM: q.e1 = f2[s]; q.v = {v2[s]}; s2[s] = ST_FREE; break;
            case K_GETRF: { View t = view(c, b + 3, m, n); t.j = t.i; if (t.i + m > N) t.m = N - t.i; if (t.j + n > N) t.n = N - t.j; if (c.pr.p(0.6)) t.m = t.n = std::min(t.m, t.n); q.v = {t}; q.aux = slots.size(); slots.push_back({}); slots.back().ip.assign(std::min(t.m, t.n), -7); s3[s] = t.m == t.n ? ST_LU : ST_FREE; v3[s] = t; slot3[s] = q.aux; break; }
            case K_GESV: case K_GEINV: { View t = view(c, b + 3, n, n); t.j = t.i; q.v = {t}; if (q.kind == K_GESV) q.v.push_back(view(c, C, n, k)); q.aux = slots.size(); slots.push_back({}); slots.back().ip.assign(n, -7); if (q.kind == K_GEINV) { slots.back().hasW = true; slots.back().wm = n; s3[s] = ST_FREE; } else s3[s] = ST_LU; v3[s] = t; slot3[s] = q.aux; break; }
            case K_GETRI: q.v = {v3[s]}; q.aux = slot3[s]; slots[q.aux].hasW = true; slots[q.aux].wm = v3[s].n; s3[s] = ST_FREE; break;
            case K_POTRI: q.e1 = f2[s]; q.v = {v2[s]}; s2[s] = ST_FREE; break;
            case K_POINV: { View t = view(c, b + 2, n, n); t.j = t.i; q.e1 = up_(); q.v = {t}; s2[s] = ST_SINV; break; }
            case K_HETRF: { View t = view(c, b + 2, n, n); t.j = t.i; q.e1 = PlasmaLower; q.v = {t}; q.aux = slots.size(); slots.push_back({}); Slot &z = slots.back(); z.he = true; z.wm = n; z.ip.assign(n, -7); z.ip2.assign(n, -7); for (int i = 0; i < std::min(n, nb); i++) z.ip[i] = i + 1; s2[s] = ST_HE; v2[s] = t; slot2[s] = q.aux; break; }
            case K_HETRS: q.e1 = PlasmaLower; q.v = {v2[s], view(c, C, v2[s].n, k)}; q.aux = slot2[s]; break;
            case K_LANHE: case K_LANSY: q.e1 = c.pr.pick({(int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaMaxNorm, (int)PlasmaFrobeniusNorm}); q.e2 = up_(); q.v = {view(c, C, n, n)}; q.aux = norms.size(); norms.push_back(-1); break;
            case K_LANTR: q.e1 = c.pr.pick({(int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaMaxNorm, (int)PlasmaFrobeniusNorm}); q.e2 = up_(); q.e3 = c.pr.pick({(int)PlasmaUnit, (int)PlasmaNonUnit}); if (q.e2 == PlasmaUpper ? m > n && 0 : 0) m = n; q.v = {view(c, C, m, n)}; q.aux = norms.size(); norms.push_back(-1); break;
            case K_GE2DESC: case K_DESC2GE: q.v = {view(c, C, m, n)}; q.e1 = al0(c, m); q.e2 = al0(c, n); break;   // pieces of the LAPACK array in the same grid
            case K_PB2DESC: q.v.clear(); sp[s] = 1; break;
            case K_PBTRF: sp[s] = 2; break;
            case K_PBTRS: q.v = {view(c, C, N, k)}; break;
            case K_GB2DESC: sg[s] = 1; break;
            case K_GBTRF: sg[s] = 2; break;
            case K_GBTRS: q.e1 = tr(); q.v = {view(c, C, N, k)}; break;
            case K_LANGB: q.e1 = c.pr.pick({(int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaMaxNorm, (int)PlasmaFrobeniusNorm}); q.aux = norms.size(); norms.push_back(-1); break;
            case K_DESC2PB: case K_DESC2GB: break;
            case K_GETRS: q.e1 = tr(); q.v = {v3[s], view(c, C, v3[s].n, k)}; q.aux = slot3[s]; break;
            case K_GELS: { View t = view(c, b + 3, m, n); q.e1 = PlasmaNoTrans; if (!c.pr.p(0.5)) q.e1 = CPLX ? PlasmaConjTrans : PlasmaTrans; q.v = {t, view(c, C, std::max(m, n), k)}; q.aux = slots.size(); slots.push_back({}); slots.back().hasT = true; s3[s] = m >= n ? ST_QR : ST_LQ; v3[s] = t; slot3[s] = q.aux; break; }
            case K_GEQRF: case K_GELQF: { View t = view(c, b + 3, m, n); q.v = {t}; q.aux = slots.size(); slots.push_back({}); slots.back().hasT = true; s3[s] = q.kind == K_GEQRF ? ST_QR : ST_LQ; v3[s] = t; slot3[s] = q.aux; break; }
            case K_UNMQR: { q.e1 = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); q.e2 = CPLX ? c.pr.pick({(int)PlasmaNoTrans, (int)PlasmaConjTrans}) : c.pr.pick({(int)PlasmaNoTrans, (int)PlasmaTrans}); View t = v3[s]; q.v = {t, q.e1 == PlasmaLeft ? view(c, C, t.m, k) : view(c, C, k, t.m)}; q.aux = slot3[s]; break; }
            case K_UNMLQ: { q.e1 = c.pr.pick({(int)PlasmaLeft, (int)PlasmaRight}); q.e2 = CPLX ? c.pr.pick({(int)PlasmaNoTrans, (int)PlasmaConjTrans}) : c.pr.pick({(int)PlasmaNoTrans, (int)PlasmaTrans}); View t = v3[s]; q.v = {t, q.e1 == PlasmaLeft ? view(c, C, t.n, k) : view(c, C, k, t.n)}; q.aux = slot3[s]; break; }
            case K_GEQRS: q.v = {v3[s], view(c, C, v3[s].m, k)}; q.aux = slot3[s]; break;
            case K_GELQS: q.v = {v3[s], view(c, C, v3[s].n, k)}; q.aux = slot3[s]; break;
            case K_UNGQR: case K_UNGLQ: q.v = {v3[s], view(c, C, v3[s].m, v3[s].n)}; q.aux = slot3[s]; break;
            case K_NORM: q.e1 = c.pr.pick({(int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaMaxNorm, (int)PlasmaFrobeniusNorm}); q.v = {view(c, C, m, n)}; q.aux = norms.size(); norms.push_back(-1); break;
            }
            if (o == failAt) {
                q.bad = badKind;
                if (q.v.empty() && (badKind == 2 || badKind == 3)) { q.kind = K_LASET; q.e1 = PlasmaGeneral; q.v = {view(c, C, m, n)}; }
                if (badKind == 1) { // an indefinite leading minor, at a known place
                    View t = q.v[0]; Mat &A2 = P[t.k]; failPos = c.pr.range(1, t.n); A2(t.i + failPos - 1, t.j + failPos - 1) = mkT(-1.0 - c.pr.uni(), 0);
                }
                if (badKind == 4) { // a zero column
                    View &t = q.v[0]; Mat &A3 = P[t.k]; failPos = c.pr.range(1, std::min(t.m, t.n)); for (int i = 0; i < N; i++) A3(i, t.j + failPos - 1) = T(0);
                }
                q.which = c.pr.range(0, (int)q.v.size() - 1);
            }
            prog.push_back(q);
        }
        if (fail && (badKind == 1 || badKind == 4)) for (int o = 0; o < failAt; o++) { Call &q = prog[o]; if (q.seq == 0) for (auto &v : q.v) if (v.k == (badKind == 1 ? 2 : 3)) { q.kind = K_LASCL; q.e1 = PlasmaGeneral; q.ra = q.rb = 2; q.v = {view(c, 0, N, N)}; break; } }
        for (int s = 0; s < 2; s++) side[s] = rside[s] = side0[s];
        // several threads in a panel; with two panels in flight the threads could all wait in the barriers of both
        int np_ = 0; for (auto &q : prog) for (int k : {K_GETRF, K_GESV, K_GEINV, K_GBTRF, K_HETRF}) np_ += q.kind == k;
        if (np_ == 1 && c.pr.p(0.6)) { c.cfg.mtpf = c.pr.range(2, 4); c.D("mtpf=%d ", c.cfg.mtpf); c.tag("panel threads"); }
        c.D("N=%d seqs=%d:", N, nseq);
        for (size_t o = 0; o < prog.size(); o++) { auto &q = prog[o]; c.D(" %s%s%d(", (int)o == failAt ? "!" : "", KNAME[q.kind], q.seq); for (auto &v : q.v) c.D("%d[%d,%d %dx%d]", v.k, v.i, v.j, v.m, v.n); c.D(")"); c.tag(std::string(KNAME[q.kind]) + ((int)o == failAt ? "!" : "")); if (o) c.tag(std::string(KNAME[prog[o-1].kind]) + ">" + KNAME[q.kind]); }
        rslots = slots; rnorms = norms;
    }
    // ---- one asynchronous call
    int gbrows(int s) { return ((ku[s] + kl[s] + nb - 1) / nb + (kl[s] + nb - 1) / nb + 1) * nb; }
    void exec(const Call &q, std::vector<plasma_desc_t> D, std::vector<Slot> &sl, Side &sd, std::vector<R> &nv, std::vector<R> &nw, plasma_sequence_t *s, plasma_request_t *r) {
        PT a = S(q.alpha), b = S(q.beta); plasma_enum_t tr = (plasma_enum_t)q.e1;
        if (q.bad == 2) D[q.which].m = -1;
        if (q.bad == 3) D[q.which].precision = (plasma_enum_t)77;
        switch (q.kind) {
        case K_GEMM: PO(gemm)(tr, (plasma_enum_t)q.e2, a, D[0], D[1], b, D[2], s, r); break;
        case K_SYMM: PO(symm)(tr, (plasma_enum_t)q.e2, a, D[0], D[1], b, D[2], s, r); break;
        case K_SYRK: PO(syrk)(tr, (plasma_enum_t)q.e2, a, D[0], b, D[1], s, r); break;
        case K_SYR2K: PO(syr2k)(tr, (plasma_enum_t)q.e2, a, D[0], D[1], b, D[2], s, r); break;
#if CPLX
        case K_HEMM: PO(hemm)(tr, (plasma_enum_t)q.e2, a, D[0], D[1], b, D[2], s, r); break;
        case K_HERK: PO(herk)(tr, (plasma_enum_t)q.e2, q.ra, D[0], q.rb, D[1], s, r); break;
        case K_HER2K: PO(her2k)(tr, (plasma_enum_t)q.e2, a, D[0], D[1], q.rb, D[2], s, r); break;
#endif
        case K_TRMM: PO(trmm)(tr, (plasma_enum_t)q.e2, (plasma_enum_t)q.e3, (plasma_enum_t)q.e4, a, D[0], D[1], s, r); break;
        case K_TRSM: PO(trsm)(tr, (plasma_enum_t)q.e2, (plasma_enum_t)q.e3, (plasma_enum_t)q.e4, a, D[0], D[1], s, r); break;
        case K_GEADD: PO(geadd)(tr, a, D[0], b, D[1], s, r); break;
        case K_TRADD: PO(tradd)(tr, (plasma_enum_t)q.e2, a, D[0], b, D[1], s, r); break;
        case K_LACPY: PO(lacpy)(tr, (plasma_enum_t)q.e2, D[0], D[1], s, r); break;
        case K_LASET: PO(laset)(tr, a, b, D[0], s, r); break;
        case K_LASCL: PO(lascl)(tr, q.ra, q.rb, D[0], s, r); break;
        case K_GESWP: PO(geswp)(tr, D[0], (int*)q.ip.data(), q.incx, s, r); break;
        case K_POTRF: PO(potrf)(tr, D[0], s, r); break;
        case K_POSV: PO(posv)(tr, D[0], D[1], s, r); break;
        case K_POTRS: PO(potrs)(tr, D[0], D[1], s, r); break;
        case K_TRTRI: PO(trtri)(tr, (plasma_enum_t)q.e2, D[0], s, r); break;
        case K_LAUUM: PO(lauum)(tr, D[0], s, r); break;
        case K_POTRI: PO(potri)(tr, D[0], s, r); break;
        case K_POINV: PO(poinv)(tr, D[0], s, r); break;
        case K_GESV: PO(gesv)(D[0], sl[q.aux].ip.data(), D[1], s, r); break;
        case K_GETRI: PO(getri)(D[0], sl[q.aux].ip.data(), sl[q.aux].W, s, r); break;
        case K_GEINV: PO(geinv)(D[0], sl[q.aux].ip.data(), sl[q.aux].W, s, r); break;
        case K_HETRF: POHE(trf)(tr, D[0], sl[q.aux].ip.data(), sl[q.aux].T, sl[q.aux].ip2.data(), sl[q.aux].W, s, r); break;
        case K_HETRS: POHE(trs)(tr, D[0], sl[q.aux].ip.data(), sl[q.aux].T, sl[q.aux].ip2.data(), D[1], s, r); break;
        case K_GELQF: PO(gelqf)(D[0], sl[q.aux].T, work, s, r); break;
        case K_UNMLQ: POUN(mlq)(tr, (plasma_enum_t)q.e2, D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_GEQRS: PO(geqrs)(D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_GELQS: PO(gelqs)(D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_UNGQR: POUN(gqr)(D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_UNGLQ: POUN(glq)(D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_GELS: PO(gels)(tr, D[0], sl[q.aux].T, D[1], work, s, r); break;
#if CPLX
        case K_LANHE: PO(lanhe)(tr, (plasma_enum_t)q.e2, D[0], nw.data() + (size_t)q.aux * wlen(), nv.data() + q.aux, s, r); break;
#endif
        case K_LANSY: PO(lansy)(tr, (plasma_enum_t)q.e2, D[0], nw.data() + (size_t)q.aux * wlen(), nv.data() + q.aux, s, r); break;
        case K_LANTR: PO(lantr)(tr, (plasma_enum_t)q.e2, (plasma_enum_t)q.e3, D[0], nw.data() + (size_t)q.aux * wlen(), nv.data() + q.aux, s, r); break;
        case K_LANGB: PO(langb)(tr, sd.GB, nw.data() + (size_t)q.aux * wlen(), nv.data() + q.aux, s, r); break;
        case K_GE2DESC: PO(ge2desc)(X(sd.ge.data() + (size_t)q.e2 * ldg + q.e1), ldg, D[0], s, r); break;
        case K_DESC2GE: PO(desc2ge)(D[0], X(sd.ge.data() + (size_t)q.e2 * ldg + q.e1), ldg, s, r); break;
        case K_PB2DESC: PO(pb2desc)(X(sd.pb.data()), kd[q.seq] + 2, sd.PB, s, r); break;
        case K_DESC2PB: PO(desc2pb)(sd.PB, X(sd.opb.data()), kd[q.seq] + 2, s, r); break;
        case K_GB2DESC: PO(pb2desc)(X(sd.gb.data()), gbrows(q.seq), sd.GB, s, r); break;
        case K_DESC2GB: PO(desc2pb)(sd.GB, X(sd.ogb.data()), gbrows(q.seq), s, r); break;
        case K_PBTRF: PO(pbtrf)((plasma_enum_t)bu[q.seq], sd.PB, s, r); break;
        case K_PBTRS: PO(pbtrs)((plasma_enum_t)bu[q.seq], sd.PB, D[0], s, r); break;
        case K_GBTRF: PO(gbtrf)(sd.GB, sd.gip.data(), s, r); break;
        case K_GBTRS: PO(gbtrs)(tr, sd.GB, sd.gip.data(), D[0], s, r); break;
        case K_GETRF: PO(getrf)(D[0], sl[q.aux].ip.data(), s, r); break;
        case K_GETRS: PO(getrs)(tr, D[0], sl[q.aux].ip.data(), D[1], s, r); break;
        case K_GEQRF: PO(geqrf)(D[0], sl[q.aux].T, work, s, r); break;
        case K_UNMQR: POUN(mqr)(tr, (plasma_enum_t)q.e2, D[0], sl[q.aux].T, D[1], work, s, r); break;
        case K_NORM: PO(lange)(tr, D[0], nw.data() + (size_t)q.aux * wlen(), nv.data() + q.aux, s, r); break;
        }
    }
    size_t wlen() { size_t t = (N + nb - 1) / nb; return (t + 1) * t * nb + 2 * (2 * t + 1) * t + 16 + 3 * N * t; }
    bool uses(std::initializer_list<int> l, int sq) { for (auto &q : prog) if (q.seq == sq) for (int k : l) if (q.kind == k) return true; return false; }
    void makeT(std::vector<Slot> &sl, Side *sd, const std::vector<Call> &pr, int tree) {
        auto bad = [&](int r) { if (r) trouble = "no memory"; return r != 0; };
        for (auto &z : sl) z.T.matrix = z.W.matrix = nullptr;
        for (int s = 0; s < nseq; s++) { sd[s] = side0[s]; sd[s].PB.matrix = sd[s].GB.matrix = nullptr; }
        for (int s = 0; s < nseq; s++) {
            if (uses({K_PB2DESC}, s)) { int lm = nb * (1 + (kd[s] + nb - 1) / nb); if (bad(plasma_desc_general_band_create(PTYPE, (plasma_enum_t)bu[s], nb, nb, lm, N, 0, 0, N, N, kd[s], kd[s], &sd[s].PB))) return; memset(sd[s].PB.matrix, 0, (size_t)lm * N * sizeof(T)); }
            if (uses({K_GB2DESC}, s)) { if (bad(plasma_desc_general_band_create(PTYPE, PlasmaGeneral, nb, nb, gbrows(s), N, 0, 0, N, N, kl[s], ku[s], &sd[s].GB))) return; memset(sd[s].GB.matrix, 0, (size_t)gbrows(s) * N * sizeof(T)); }
        }
        for (auto &q : pr) if (q.kind == K_GEQRF || q.kind == K_GELQF || q.kind == K_GELS) { plasma_desc_t A; plasma_desc_general_init(PTYPE, nullptr, nb, nb, q.v[0].m, q.v[0].n, 0, 0, q.v[0].m, q.v[0].n, &A);
            if (bad(plasma_descT_create(A, ibv, tree ? PlasmaTreeHouseholder : PlasmaFlatHouseholder, &sl[q.aux].T))) return; memset(sl[q.aux].T.matrix, 0, (size_t)sl[q.aux].T.gm * sl[q.aux].T.gn * sizeof(T)); }
        for (auto &z : sl) if (z.he) {
            int n = z.wm, nt = (n + nb - 1) / nb, lm = (3 + 2) * nb, ldw = (1 + 7 * nt) * nb; lm = ((nb + nb + nb - 1) / nb + (nb + nb - 1) / nb + 1) * nb;
            if (bad(plasma_desc_general_band_create(PTYPE, PlasmaGeneral, nb, nb, lm, n, 0, 0, n, n, std::min(nb, n - 1), std::min(nb, n - 1), &z.T))) return;
            memset(z.T.matrix, 0, (size_t)lm * n * sizeof(T));
            if (bad(plasma_desc_general_create(PTYPE, nb, nb, ldw, nb, 0, 0, ldw, nb, &z.W))) return;
            memset(z.W.matrix, 0, (size_t)ldw * nb * sizeof(T));
        } else if (z.hasW) { if (bad(plasma_desc_general_create(PTYPE, nb, nb, z.wm, nb, 0, 0, z.wm, nb, &z.W))) return; }
    }
    void freeT(std::vector<Slot> &sl, Side *sd) {
        for (auto &x : sl) { if (x.T.matrix) plasma_desc_destroy(&x.T); if (x.W.matrix) plasma_desc_destroy(&x.W); }
        for (int s = 0; s < nseq; s++) { if (sd[s].PB.matrix) plasma_desc_destroy(&sd[s].PB); if (sd[s].GB.matrix) plasma_desc_destroy(&sd[s].GB); }
    }
    int ibv = 1;
    void call(Ctx &c) override {
        ibv = c.cfg.ib;
        int r = plasma_workspace_create(&work, (size_t)(ibv + nb) * (nb + ibv) + 64, PTYPE);
        if (r) { c.info = r; return; }
        trouble.clear(); makeT(slots, side, prog, c.cfg.tree);
        if (!trouble.empty()) { c.info = PlasmaErrorOutOfMemory; freeT(slots, side); plasma_workspace_destroy(&work); return; }
        std::vector<Own> own(P.size());
        for (size_t k = 0; k < P.size(); k++) { own[k].make(N, N, nb); for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) *addr(own[k].D, i, j) = P[k](i, j); }
        for (int s = 0; s < 2; s++) plasma_sequence_init(&sq[s]);
        rq.resize(prog.size()); for (auto &x : rq) plasma_request_init(&x);
        std::vector<R> nw(wlen() * (norms.size() + 1), 0);
        std::vector<std::vector<char>> snap; plasma_enum_t st1 = PlasmaSuccess; plasma_request_t *rq1 = nullptr;
        if (failAt >= 0) { const void *wp[4]; size_t wn[4]; for (int k = 0; k < 4; k++) { wp[k] = own[k].mem; wn[k] = (size_t)N * N * sizeof(T); } late_watch((const volatile int*)&sq[0].status, wp, wn, 4); }
        par([&] {
            for (size_t o = 0; o < prog.size(); o++) {
                auto &q = prog[o]; std::vector<plasma_desc_t> D; for (auto &v : q.v) D.push_back(plasma_desc_view(own[v.k].D, v.i, v.j, v.m, v.n));
                exec(q, D, slots, side[q.seq], norms, nw, &sq[q.seq], &rq[o]);
                if ((int)o == failAt && tw) { GOMP_taskwait(); st1 = sq[0].status; rq1 = sq[0].request; for (int k = 0; k < 4; k++) snap.push_back(std::vector<char>(own[k].mem, own[k].mem + (size_t)N * N * sizeof(T))); }
            }
        });
        late_watch(nullptr, nullptr, nullptr, 0);
        if (failAt >= 0) {
            plasma_enum_t want = badKind == 1 || badKind == 4 ? (plasma_enum_t)failPos : (plasma_enum_t)PlasmaErrorIllegalValue; c.evals += 4;
            if (tw && st1 != want) c.fail("seq-status", "after call %d failed and all tasks ended the sequence status is %d, not %d", failAt, (int)st1, (int)want);
            else if (sq[0].status != want) c.fail("seq-first", "the sequence status is %d after a failure with %d", (int)sq[0].status, (int)want);
            if ((tw && rq1 != &rq[failAt]) || sq[0].request != &rq[failAt]) c.fail("seq-request", "the sequence does not point to the failed request");
            else if (rq[failAt].status != want) c.fail("seq-request", "the failed request has status %d", (int)rq[failAt].status);
            if (tw) for (int k = 0; k < 4; k++) for (size_t x = 0; x < (size_t)N * N; x++) { c.evals++; if (memcmp(snap[k].data() + x * sizeof(T), own[k].mem + x * sizeof(T), sizeof(T))) { c.fail("seq-after", "matrix %d was changed by a call made after the failure (element %zu)", k, x); break; } }
        }
        for (int s = 0; s < nseq; s++) if (!(s == 0 && failAt >= 0) && sq[s].status) c.fail("seq-other", "sequence %d has status %d though all its calls are valid", s, (int)sq[s].status);
        got.clear(); for (size_t k = 0; k < P.size(); k++) { std::vector<T> g; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) g.push_back(*addr(own[k].D, i, j)); got.push_back(g); if (!(failAt >= 0 && k < 4)) for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) P[k](i, j) = g[(size_t)j * N + i]; }
        if (failAt < 0) for (auto &x : norms) c.outs.push_back(x);
        for (int s = 0; s < nseq; s++) if (sq[s].status == (plasma_enum_t)PlasmaErrorOutOfMemory) c.info = PlasmaErrorOutOfMemory;
        freeT(slots, side);
        if (!c.info && refwanted(c)) reference(c);
        plasma_workspace_destroy(&work);
    }
    bool refwanted(Ctx &) { return !Ctx::bare(); }
    void reference(Ctx &c) {
        trouble.clear(); makeT(rslots, rside, prog, c.cfg.tree); if (!trouble.empty()) { freeT(rslots, rside); c.info = PlasmaErrorOutOfMemory; return; }
        std::vector<std::vector<T>> M; for (size_t k = 0; k < P.size(); k++) { std::vector<T> g; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) g.push_back(was(k, i, j)); M.push_back(g); }
        std::vector<R> nw(wlen() * (norms.size() + 1), 0); bool bad = false;
        for (size_t o = 0; o < prog.size() && !bad; o++) {
            auto &q = prog[o]; if (failAt >= 0 && q.seq == 0) continue;
            std::vector<Own> own(q.v.size()); std::vector<plasma_desc_t> D;
            for (size_t x = 0; x < q.v.size(); x++) { auto &v = q.v[x]; own[x].make(N, N, nb); for (size_t z = 0; z < (size_t)N * N; z++) ((T*)own[x].mem)[z] = mkT(std::numeric_limits<R>::quiet_NaN(), 1);
                for (int j = 0; j < v.n; j++) for (int i = 0; i < v.m; i++) *addr(own[x].D, v.i + i, v.j + j) = M[v.k][(size_t)(v.j + j) * N + v.i + i]; D.push_back(plasma_desc_view(own[x].D, v.i, v.j, v.m, v.n)); }
            plasma_sequence_t s; plasma_request_t r; plasma_sequence_init(&s); plasma_request_init(&r);
            par([&] { exec(q, D, rslots, rside[q.seq], rnorms, nw, &s, &r); });
            if (s.status) { c.fail("seq-alone", "call %zu (%s) alone fails with status %d", o, KNAME[q.kind], (int)s.status); bad = true; }
            if (q.v.empty()) continue;
            size_t x = q.v.size() - 1, first = q.kind == K_POSV || q.kind == K_GESV || q.kind == K_GELS ? 0 : x;
            for (size_t y = first; y <= x; y++) { auto &v = q.v[y]; for (int j = 0; j < v.n; j++) for (int i = 0; i < v.m; i++) M[v.k][(size_t)(v.j + j) * N + v.i + i] = *addr(own[y].D, v.i + i, v.j + j); }
        }
        if (!bad) for (size_t k = 0; k < P.size(); k++) if (!(failAt >= 0 && k < 4)) for (size_t x = 0; x < (size_t)N * N; x++) {
            c.evals++;
            if (memcmp(&M[k][x], &got[k][x], sizeof(T)) && !(isn(M[k][x]) && isn(got[k][x]))) { c.fail("seq-result", "matrix %zu entry (%zu,%zu): %g in the chain, %g one call at a time", k, x % N, x / N, (double)std::real(got[k][x]), (double)std::real(M[k][x])); k = P.size(); break; }
        }
        if (!bad && failAt < 0) for (size_t x = 0; x < norms.size(); x++) { c.evals++; if (norms[x] != rnorms[x]) c.fail("seq-result", "norm %zu: %g in the chain, %g alone", x, (double)norms[x], (double)rnorms[x]); }
        for (size_t x = 0; x < slots.size() && !bad && failAt < 0; x++) if (slots[x].ip != rslots[x].ip) { c.fail("seq-result", "pivots differ from those of the calls one at a time"); break; }
        for (int s = 0; s < nseq && !bad; s++) if (!(failAt >= 0 && s == 0)) {
            Side &x = side[s], &y = rside[s]; c.evals += x.ge.size() + x.opb.size() + x.ogb.size() + x.gip.size();
            auto same = [&](std::vector<T> &u, std::vector<T> &v) { for (size_t i = 0; i < u.size(); i++) if (memcmp(&u[i], &v[i], sizeof(T)) && !(isn(u[i]) && isn(v[i]))) return false; return true; };
            if (!same(x.ge, y.ge)) c.fail("seq-result", "the LAPACK array differs from the one of the calls one at a time");
            if (!same(x.opb, y.opb)) c.fail("seq-result", "the symmetric band matrix differs from the one of the calls one at a time");
            if (!same(x.ogb, y.ogb)) c.fail("seq-result", "the general band matrix differs from the one of the calls one at a time");
            if (x.gip != y.gip) c.fail("seq-result", "band pivots differ from those of the calls one at a time");
            if (!same(x.pb, side0[s].pb) || !same(x.gb, side0[s].gb)) c.fail("seq-result", "an input band array was changed");
        }
        freeT(rslots, rside);
    }
    T was(size_t k, int i, int j) { return P[k].was(i, j); }
    void check(Ctx &) override {}
};
REGOP(Chain, "chain", F_SEQ | F_FAIL | F_THREADDEP)
}
