// C17: calls with arguments outside their domain.  The return value is the negated position of the first one,
// nothing is written, and a valid call afterwards does its work.
#include "core.h"
#include <climits>
namespace {
enum { NT_ = PlasmaNoTrans, TR_ = PlasmaTrans, CT_ = PlasmaConjTrans };
typedef std::vector<int> IV;
typedef const int *A_;
struct Par { int pos; int kind; IV ok; std::function<long(A_)> lo, hi; std::function<bool(A_)> also; int alt = 0; std::function<long(A_)> soft; };
static Par E(int pos, IV ok) { return {pos, 0, ok, nullptr, nullptr, nullptr}; }
static Par E2(int pos, IV ok, std::function<bool(A_)> also) { return {pos, 0, ok, nullptr, nullptr, also}; }
static Par D(int pos) { return {pos, 1, {}, [](A_) { return 0l; }, nullptr, nullptr}; }
static Par DR(int pos, std::function<long(A_)> lo, std::function<long(A_)> hi) { return {pos, 1, {}, lo, hi, nullptr}; }
static Par LD(int pos, std::function<long(A_)> lo) { return {pos, 2, {}, [lo](A_ a) { return std::max(1l, lo(a)); }, nullptr, nullptr}; }
// a leading dimension of a band: below lo it is refused in its turn, below the rows of the tiles after all other checks
static Par LB(int pos, std::function<long(A_)> lo, std::function<long(A_)> rows) { Par p = LD(pos, rows); p.soft = lo; return p; }
// a descriptor argument: 0 good, 1... broken; a broken one may also be reported by the asynchronous part
static Par TD(int pos) { Par p = {pos, 3, {0}, nullptr, nullptr, nullptr}; p.alt = PlasmaErrorIllegalValue; return p; }
static bool okp(const Par &p, A_ a) {
    int x = a[p.pos];
    if (p.kind == 0 || p.kind == 3) return std::find(p.ok.begin(), p.ok.end(), x) != p.ok.end() && (!p.also || p.also(a));
    return x >= p.lo(a) && (!p.hi || x <= p.hi(a));
}
static bool late(const Par &p, A_ a) { return p.alt == PlasmaErrorIllegalValue || (p.soft && a[p.pos] >= p.soft(a)); }
struct W { PT *A, *B, *C, *Xx; R *r; int *i1, *i2; plasma_desc_t T; double val; bool isnorm = false; };
struct Rt { const char *name; std::vector<Par> p; std::function<double(const int *, W &)> call; bool complexonly = false, realonly = false; };
static const IV TRS = {NT_, TR_, CT_}, UP = {PlasmaUpper, PlasmaLower}, GUL = {PlasmaGeneral, PlasmaUpper, PlasmaLower}, SD = {PlasmaLeft, PlasmaRight}, DG = {PlasmaUnit, PlasmaNonUnit},
    NRM = {PlasmaMaxNorm, PlasmaOneNorm, PlasmaInfNorm, PlasmaFrobeniusNorm}, RC = {PlasmaColumnwise, PlasmaRowwise},
    NC = CPLX ? IV{NT_, CT_} : IV{NT_, TR_}, NTR = {NT_, TR_};
static int CURNB = 1;
static long bandrows(long nb, long kl, long ku) { if (kl < 0 || ku < 0) return 1; return ((ku + kl + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb; }
static const std::vector<Rt> &table() {
    static std::vector<Rt> t;
    if (t.size()) return t;
    PT al = S(mkT(1.5, 0.5)), be = S(mkT(0.75, -0.25)); R ra = 1.25, rb = 0.5; (void)ra; (void)rb;
#define P(...) [=]([[maybe_unused]] const int *a, [[maybe_unused]] W &w) -> double { return __VA_ARGS__; }
#define M(x) [](A_ a) -> long { return (x); }
    t.push_back({"amax", {E(1, RC), D(2), D(3), LD(5, M(a[2]))}, P(PAMAX(a[1], a[2], a[3], w.A, a[5], w.r))});
    t.push_back({"gbmm", {E(1, TRS), E(2, TRS), D(3), D(4), D(5), DR(6, M(0), M(std::max(0, (a[1] == NT_ ? a[3] : a[5]) - 1))), DR(7, M(0), M(std::max(0, (a[1] == NT_ ? a[5] : a[3]) - 1))),
        LD(10, M(a[1] == NT_ ? a[3] : a[5])), LD(12, M(a[2] == NT_ ? a[5] : a[4])), LD(15, M(a[3]))}, P(PL(gbmm)(a[1], a[2], a[3], a[4], a[5], a[6], a[7], al, w.A, a[10], w.B, a[12], be, w.C, a[15]))});
    t.push_back({"gbsv", {D(1), D(2), D(3), D(4), LB(6, M(1l + a[2] + a[3]), M(bandrows(CURNB, a[2], a[3]))), LD(9, M(a[1]))}, P(PL(gbsv)(a[1], a[2], a[3], a[4], w.A, a[6], w.i1, w.B, a[9]))});
    t.push_back({"gbtrf", {D(1), D(2), D(3), D(4), LB(6, M(1l + a[3] + a[4]), M(bandrows(CURNB, a[3], a[4])))}, P(PL(gbtrf)(a[1], a[2], a[3], a[4], w.A, a[6], w.i1))});
    t.push_back({"gbtrs", {E(1, TRS), D(2), D(3), D(4), D(5), LB(7, M(1l + a[3] + a[4]), M(bandrows(CURNB, a[3], a[4]))), LD(10, M(a[2]))}, P(PL(gbtrs)(a[1], a[2], a[3], a[4], a[5], w.A, a[7], w.i1, w.B, a[10]))});
    t.push_back({"geadd", {E(1, TRS), D(2), D(3), E(5, {0}), LD(6, M(a[1] == NT_ ? a[2] : a[3])), E(8, {0}), LD(9, M(a[2]))}, P(PL(geadd)(a[1], a[2], a[3], al, a[5] ? nullptr : w.A, a[6], be, a[8] ? nullptr : w.B, a[9]))});
    t.push_back({"geinv", {D(1), D(2), LD(4, M(a[1]))}, P(PL(geinv)(a[1], a[2], w.A, a[4], w.i1))});
    t.push_back({"gelqf", {D(1), D(2), LD(4, M(a[1]))}, P(PL(gelqf)(a[1], a[2], w.A, a[4], &w.T))});
    t.push_back({"geqrf", {D(1), D(2), LD(4, M(a[1]))}, P(PL(geqrf)(a[1], a[2], w.A, a[4], &w.T))});
    t.push_back({"gelqs", {D(1), DR(2, M(std::max(0, a[1])), nullptr), D(3), LD(5, M(a[1])), TD(6), LD(8, M(a[2]))}, P(PL(gelqs)(a[1], a[2], a[3], w.A, a[5], w.T, w.B, a[8]))});
    t.push_back({"geqrs", {D(1), DR(2, M(0), M(a[1])), D(3), LD(5, M(a[1])), TD(6), LD(8, M(a[1]))}, P(PL(geqrs)(a[1], a[2], a[3], w.A, a[5], w.T, w.B, a[8]))});
    t.push_back({"gels", {E(1, NC), D(2), D(3), D(4), LD(6, M(a[2])), LD(9, M(std::max(a[2], a[3])))}, P(PL(gels)(a[1], a[2], a[3], a[4], w.A, a[6], &w.T, w.B, a[9]))});
    t.push_back({"gemm", {E(1, TRS), E(2, TRS), D(3), D(4), D(5), LD(8, M(a[1] == NT_ ? a[3] : a[5])), LD(10, M(a[2] == NT_ ? a[5] : a[4])), LD(13, M(a[3]))}, P(PL(gemm)(a[1], a[2], a[3], a[4], a[5], al, w.A, a[8], w.B, a[10], be, w.C, a[13]))});
    t.push_back({"gesv", {D(1), D(2), LD(4, M(a[1])), LD(7, M(a[1]))}, P(PL(gesv)(a[1], a[2], w.A, a[4], w.i1, w.B, a[7]))});
    IV J = {PlasmaNoVec, PlasmaAllVec, PlasmaSomeVec};
    t.push_back({"gesdd", {E(1, J), E2(2, J, [](A_ a) { return a[2] == a[1]; }), D(3), D(4), LD(6, M(a[3])), LD(10, M(a[1] == PlasmaNoVec ? 1 : a[3])), LD(12, M(a[2] == PlasmaAllVec ? a[4] : a[2] == PlasmaSomeVec ? std::min(a[3], a[4]) : 1))},
        P(PL(gesdd)(a[1], a[2], a[3], a[4], w.A, a[6], &w.T, w.r, w.B, a[10], w.C, a[12]))});
    t.push_back({"getrf", {D(1), D(2), LD(4, M(a[1]))}, P(PL(getrf)(a[1], a[2], w.A, a[4], w.i1))});
    t.push_back({"getri", {D(1), LD(3, M(a[1]))}, P(PL(getri)(a[1], w.A, a[3], w.i1))});
    t.push_back({"getri_aux", {D(1), LD(3, M(a[1]))}, P(PL(getri_aux)(a[1], w.A, a[3]))});
    t.push_back({"getrs", {E(1, TRS), D(2), D(3), LD(5, M(a[2])), LD(8, M(a[2]))}, P(PL(getrs)(a[1], a[2], a[3], w.A, a[5], w.i1, w.B, a[8]))});
    t.push_back({"geswp", {E(1, RC), D(2), D(3), LD(5, M(a[2]))}, P(PL(geswp)(a[1], a[2], a[3], w.A, a[5], w.i1, 1))});
#if CPLX
    t.push_back({"hemm", {E(1, SD), E(2, UP), D(3), D(4), LD(7, M(a[1] == PlasmaLeft ? a[3] : a[4])), LD(9, M(a[3])), LD(12, M(a[3]))}, P(PL(hemm)(a[1], a[2], a[3], a[4], al, w.A, a[7], w.B, a[9], be, w.C, a[12]))});
    t.push_back({"her2k", {E(1, UP), E(2, NC), D(3), D(4), LD(7, M(a[2] == NT_ ? a[3] : a[4])), LD(9, M(a[2] == NT_ ? a[3] : a[4])), LD(12, M(a[3]))}, P(PL(her2k)(a[1], a[2], a[3], a[4], al, w.A, a[7], w.B, a[9], rb, w.C, a[12]))});
    t.push_back({"herk", {E(1, UP), E(2, NC), D(3), D(4), LD(7, M(a[2] == NT_ ? a[3] : a[4])), LD(10, M(a[3]))}, P(PL(herk)(a[1], a[2], a[3], a[4], ra, w.A, a[7], rb, w.C, a[10]))});
    t.push_back({"lanhe", {E(1, NRM), E(2, UP), D(3), LD(5, M(a[3]))}, P(PL(lanhe)(a[1], a[2], a[3], w.A, a[5]))});
#endif
    IV LO = {PlasmaLower};
    t.push_back({"hetrf", {E(1, LO), D(2), LD(4, M(a[2]))}, P(PHE(trf)(a[1], a[2], w.A, a[4], w.i1, w.B, 64, w.i2))});
    t.push_back({"hetrs", {E(1, LO), D(2), D(3), LD(5, M(a[2])), LD(11, M(a[2]))}, P(PHE(trs)(a[1], a[2], a[3], w.A, a[5], w.i1, w.B, 64, w.i2, w.C, a[11]))});
    t.push_back({"hesv", {E(1, LO), D(2), D(3), LD(5, M(a[2])), LD(11, M(a[2]))}, P(PHE(sv)(a[1], a[2], a[3], w.A, a[5], w.i1, w.B, 64, w.i2, w.C, a[11]))});
    // (a transposed copy is defined for square matrices, others are refused as number 3)
    Par ln = DR(4, M(a[2] == NT_ ? 0 : std::max(0, a[3])), [](A_ a) -> long { return a[2] == NT_ ? INT_MAX : std::max(0, a[3]); }); ln.alt = -3;
    t.push_back({"lacpy", {E(1, GUL), E(2, TRS), D(3), ln, LD(6, M(a[3])), LD(8, M(a[2] == NT_ ? a[3] : a[4]))}, P(PL(lacpy)(a[1], a[2], a[3], a[4], w.A, a[6], w.B, a[8]))});
    t.push_back({"langb", {E(1, NRM), D(2), D(3), D(4), D(5), LB(7, M(1l + a[4] + a[5]), M(bandrows(CURNB, a[4], a[5])))}, P(PL(langb)(a[1], a[2], a[3], a[4], a[5], w.A, a[7]))});
    t.push_back({"lange", {E(1, NRM), D(2), D(3), LD(5, M(a[2]))}, P(PL(lange)(a[1], a[2], a[3], w.A, a[5]))});
    t.push_back({"lansy", {E(1, NRM), E(2, UP), D(3), LD(5, M(a[3]))}, P(PL(lansy)(a[1], a[2], a[3], w.A, a[5]))});
    t.push_back({"lantr", {E(1, NRM), E(2, UP), E(3, DG), D(4), D(5), LD(7, M(a[4]))}, P(PL(lantr)(a[1], a[2], a[3], a[4], a[5], w.A, a[7]))});
    t.push_back({"lascl", {E(1, GUL), E(2, {0}), E(3, {0}), D(4), D(5), LD(7, M(a[4]))},
        P(PL(lascl)(a[1], a[2] == 0 ? 2 : a[2] == 1 ? 0 : std::numeric_limits<R>::quiet_NaN(), a[3] == 0 ? 3 : std::numeric_limits<R>::quiet_NaN(), a[4], a[5], w.A, a[7]))});
    t.push_back({"laset", {E(1, GUL), D(2), D(3), LD(7, M(a[2]))}, P(PL(laset)(a[1], a[2], a[3], al, be, w.A, a[7]))});
    t.push_back({"lauum", {E(1, UP), D(2), LD(4, M(a[2]))}, P(PL(lauum)(a[1], a[2], w.A, a[4]))});
    t.push_back({"pbsv", {E(1, UP), D(2), D(3), D(4), LD(6, M(1l + a[3])), LD(8, M(a[2]))}, P(PL(pbsv)(a[1], a[2], a[3], a[4], w.A, a[6], w.B, a[8]))});
    t.push_back({"pbtrf", {E(1, UP), D(2), D(3), LD(5, M(1l + a[3]))}, P(PL(pbtrf)(a[1], a[2], a[3], w.A, a[5]))});
    t.push_back({"pbtrs", {E(1, UP), D(2), D(3), D(4), LD(6, M(1l + a[3])), LD(8, M(a[2]))}, P(PL(pbtrs)(a[1], a[2], a[3], a[4], w.A, a[6], w.B, a[8]))});
    t.push_back({"poinv", {E(1, UP), D(2), LD(4, M(a[2]))}, P(PL(poinv)(a[1], a[2], w.A, a[4]))});
    t.push_back({"posv", {E(1, UP), D(2), D(3), LD(5, M(a[2])), LD(7, M(a[2]))}, P(PL(posv)(a[1], a[2], a[3], w.A, a[5], w.B, a[7]))});
    t.push_back({"potrf", {E(1, UP), D(2), LD(4, M(a[2]))}, P(PL(potrf)(a[1], a[2], w.A, a[4]))});
    t.push_back({"potri", {E(1, UP), D(2), LD(4, M(a[2]))}, P(PL(potri)(a[1], a[2], w.A, a[4]))});
    t.push_back({"potrs", {E(1, UP), D(2), D(3), LD(5, M(a[2])), LD(7, M(a[2]))}, P(PL(potrs)(a[1], a[2], a[3], w.A, a[5], w.B, a[7]))});
    t.push_back({"symm", {E(1, SD), E(2, UP), D(3), D(4), LD(7, M(a[1] == PlasmaLeft ? a[3] : a[4])), LD(9, M(a[3])), LD(12, M(a[3]))}, P(PL(symm)(a[1], a[2], a[3], a[4], al, w.A, a[7], w.B, a[9], be, w.C, a[12]))});
    t.push_back({"syr2k", {E(1, UP), E(2, NTR), D(3), D(4), LD(7, M(a[2] == NT_ ? a[3] : a[4])), LD(9, M(a[2] == NT_ ? a[3] : a[4])), LD(12, M(a[3]))}, P(PL(syr2k)(a[1], a[2], a[3], a[4], al, w.A, a[7], w.B, a[9], be, w.C, a[12]))});
    t.push_back({"syrk", {E(1, UP), E(2, NTR), D(3), D(4), LD(7, M(a[2] == NT_ ? a[3] : a[4])), LD(10, M(a[3]))}, P(PL(syrk)(a[1], a[2], a[3], a[4], al, w.A, a[7], be, w.C, a[10]))});
    t.push_back({"tradd", {E(1, UP), E(2, TRS), D(3), D(4), E(6, {0}), LD(7, M(a[2] == NT_ ? a[3] : a[4])), E(9, {0}), LD(10, M(a[3]))}, P(PL(tradd)(a[1], a[2], a[3], a[4], al, a[6] ? nullptr : w.A, a[7], be, a[9] ? nullptr : w.B, a[10]))});
    t.push_back({"trmm", {E(1, SD), E(2, UP), E(3, TRS), E(4, DG), D(5), D(6), LD(9, M(a[1] == PlasmaLeft ? a[5] : a[6])), LD(11, M(a[5]))}, P(PL(trmm)(a[1], a[2], a[3], a[4], a[5], a[6], al, w.A, a[9], w.B, a[11]))});
    t.push_back({"trsm", {E(1, SD), E(2, UP), E(3, TRS), E(4, DG), D(5), D(6), LD(9, M(a[1] == PlasmaLeft ? a[5] : a[6])), LD(11, M(a[5]))}, P(PL(trsm)(a[1], a[2], a[3], a[4], a[5], a[6], al, w.A, a[9], w.B, a[11]))});
    t.push_back({"trtri", {E(1, UP), E(2, DG), D(3), LD(5, M(a[3]))}, P(PL(trtri)(a[1], a[2], a[3], w.A, a[5]))});
    t.push_back({"unglq", {D(1), DR(2, M(std::max(0, a[1])), nullptr), DR(3, M(0), M(a[1])), LD(5, M(a[1])), TD(6), LD(8, M(a[1]))}, P(PUN(glq)(a[1], a[2], a[3], w.A, a[5], w.T, w.B, a[8]))});
    t.push_back({"ungqr", {D(1), DR(2, M(0), M(a[1])), DR(3, M(0), M(a[2])), LD(5, M(a[1])), TD(6), LD(8, M(a[1]))}, P(PUN(gqr)(a[1], a[2], a[3], w.A, a[5], w.T, w.B, a[8]))});
    t.push_back({"unmlq", {E(1, SD), E(2, NC), D(3), D(4), DR(5, M(0), M(a[1] == PlasmaLeft ? a[3] : a[4])), LD(7, M(a[5])), TD(8), LD(10, M(a[3]))}, P(PUN(mlq)(a[1], a[2], a[3], a[4], a[5], w.A, a[7], w.T, w.B, a[10]))});
    t.push_back({"unmqr", {E(1, SD), E(2, NC), D(3), D(4), DR(5, M(0), M(a[1] == PlasmaLeft ? a[3] : a[4])), LD(7, M(a[1] == PlasmaLeft ? a[3] : a[4])), TD(8), LD(10, M(a[3]))}, P(PUN(mqr)(a[1], a[2], a[3], a[4], a[5], w.A, a[7], w.T, w.B, a[10]))});
#if defined(PREC_Z) || defined(PREC_D)
#ifdef PREC_Z
#define MX(x) plasma_zc##x
#else
#define MX(x) plasma_ds##x
#endif
    t.push_back({"cgesv", {D(1), D(2), LD(4, M(a[1])), LD(7, M(a[1])), LD(9, M(a[1]))}, P(MX(gesv)(a[1], a[2], w.A, a[4], w.i1, w.B, a[7], w.C, a[9], w.i2))});
    t.push_back({"cposv", {E(1, UP), D(2), D(3), LD(5, M(a[2])), LD(7, M(a[2])), LD(9, M(a[2]))}, P(MX(posv)(a[1], a[2], a[3], w.A, a[5], w.B, a[7], w.C, a[9], w.i2))});
    t.push_back({"cgbsv", {D(1), D(2), D(3), D(4), LB(6, M(1l + a[2] + a[3]), M(bandrows(CURNB, a[2], a[3]))), LD(9, M(a[1])), LD(11, M(a[1]))}, P(MX(gbsv)(a[1], a[2], a[3], a[4], w.A, a[6], w.i1, w.B, a[9], w.C, a[11], w.i2))});
#endif
#if defined(PREC_Z)
    t.push_back({"lag2", {D(1), D(2), LD(4, M(a[1])), LD(6, M(a[1]))}, P(plasma_zlag2c(a[1], a[2], w.A, a[4], (plasma_complex32_t*)w.B, a[6]))});
    t.push_back({"lag2back", {D(1), D(2), LD(4, M(a[1])), LD(6, M(a[1]))}, P(plasma_clag2z(a[1], a[2], (plasma_complex32_t*)w.B, a[4], w.A, a[6]))});
#elif defined(PREC_D)
    t.push_back({"lag2", {D(1), D(2), LD(4, M(a[1])), LD(6, M(a[1]))}, P(plasma_dlag2s(a[1], a[2], w.A, a[4], (float*)w.B, a[6]))});
    t.push_back({"lag2back", {D(1), D(2), LD(4, M(a[1])), LD(6, M(a[1]))}, P(plasma_slag2d(a[1], a[2], (float*)w.B, a[4], w.A, a[6]))});
#endif
#if !CPLX
    IV RG = {PlasmaRangeV, PlasmaRangeI}, JV = {PlasmaVec, PlasmaNoVec, PlasmaCount};
    t.push_back({"stevx2", {E(1, JV), E(2, RG), D(3), E(5, {0}), E(6, {0})}, P(PL(stevx2)(a[1], a[2], a[3], 3, a[5] ? nullptr : w.A, a[6] ? nullptr : w.B, -1, 1, 1, std::max(a[3], 1), w.i1, w.C, w.i2, w.Xx))});
    Par vv = {7, 3, {0}, nullptr, nullptr, nullptr}; vv.alt = -8;       // 0 ordered, 1 equal, 2 reversed: the pair is at fault
    t.push_back({"stevx2v", {E(1, JV), D(3), vv}, P(PL(stevx2)(a[1], PlasmaRangeV, a[3], 3, w.A, w.B, a[7] == 0 ? -1 : a[7] == 1 ? 1 : 2, 1, 1, 1, w.i1, w.C, w.i2, w.Xx))});
    t.push_back({"stevx2i", {E(1, JV), D(3), DR(9, M(1), M(std::max(1, a[3]))), DR(10, M(std::min(a[3], a[9])), M(a[3]))}, P(PL(stevx2)(a[1], PlasmaRangeI, a[3], 3, w.A, w.B, -1, 1, a[9], a[10], w.i1, w.C, w.i2, w.Xx))});
#endif
    return t;
}
static const int POOL[] = {0, -1, 1, 2, 7, 100, 1000, PlasmaNoTrans, PlasmaTrans, PlasmaConjTrans, PlasmaUpper, PlasmaLower, PlasmaGeneral, PlasmaGeneralBand, PlasmaNonUnit, PlasmaUnit, PlasmaLeft, PlasmaRight,
    PlasmaOneNorm, PlasmaTwoNorm, PlasmaFrobeniusNorm, PlasmaInfNorm, PlasmaMaxNorm, PlasmaRealOneNorm, PlasmaRealInfNorm, PlasmaRealMaxNorm, PlasmaNoVec, PlasmaVec, PlasmaCount, PlasmaAllVec, PlasmaSomeVec, PlasmaRangeAll, PlasmaRangeV, PlasmaRangeI,
    PlasmaForward, PlasmaBackward, PlasmaColumnwise, PlasmaRowwise, INT_MIN, INT_MAX};
static int badval(Ctx &c, const Par &p, A_ a) {
    if (p.kind == 3) return c.pr.range(1, 9);
    if (p.kind == 0) {
        if (p.ok.size() == 1 && p.ok[0] == 0) return c.pr.range(1, 2);
        std::vector<int> v;
        for (int x : POOL) { if (!CPLX && x == CT_) continue; int b[20]; std::copy(a, a + 20, b); b[p.pos] = x; if (!okp(p, b)) v.push_back(x); }   // (real routines differ on ConjTrans)
        return v[c.pr.range(0, v.size() - 1)];
    }
    long lo = p.lo(a), hi = p.hi ? p.hi(a) : LONG_MAX;
    std::vector<long> v = {lo - 1, lo - 1, lo - 1, lo - 2, -1, -c.cfg.nb, INT_MIN};
    if (p.kind == 2) { v.push_back(0); v.push_back(lo / 2); }
    if (hi < INT_MAX) { v.push_back(hi + 1); v.push_back(hi + 1); v.push_back(hi + 1 + c.pr.range(0, 9)); }
    for (int t = 0; t < 40; t++) { long x = v[c.pr.range(0, v.size() - 1)]; if ((x < lo || x > hi) && x >= INT_MIN) return x; }
    return INT_MIN;
}
static int goodval(Ctx &c, const Par &p, A_ a) {
    if (p.kind == 3) return 0;
    if (p.kind == 0) {
        std::vector<int> v; for (int x : p.ok) { int b[20]; std::copy(a, a + 20, b); b[p.pos] = x; if (okp(p, b)) v.push_back(x); }
        return v.empty() ? p.ok[0] : v[c.pr.range(0, v.size() - 1)];
    }
    long lo = std::min(1000l, p.lo(a)), hi = p.hi ? p.hi(a) : LONG_MAX;
    if (p.kind == 2) return lo + (c.pr.p(0.6) ? 0 : c.pr.range(0, 3));
    return std::max(lo, std::min(hi, lo + (c.pr.p(0.15) ? 0 : c.pr.range(1, 9))));
}
// breaks a descriptor in the n-th way
static void breakdesc(plasma_desc_t &d, int how, Rng &r) {
    switch (how) {
    case 1: d.precision = (plasma_enum_t)r.pick({(int)PlasmaByte, (int)PlasmaInteger, 6, -1}); break;
    case 2: d.mb = r.pick({0, -1, -d.mb}); break;
    case 3: d.nb = r.pick({0, -1, -d.nb}); break;
    case 4: d.m = r.pick({-1, -5}); break;
    case 5: d.n = r.pick({-1, -5}); break;
    case 6: d.type = (plasma_enum_t)r.pick({0, -1, (int)PlasmaLeft, (int)PlasmaNoTrans}); break;
    case 7: if (d.type == PlasmaGeneralBand) d.j = d.gn; else if (r.p(0.5)) d.i = d.gm; else d.j = d.gn; break;              // behind the end
    case 8: if (d.type == PlasmaGeneralBand) d.n = d.gn + 1; else if (r.p(0.5)) d.m = d.gm + 1; else d.n = d.gn + 1; break;  // larger than the allocation
    case 9: { if (d.nb < 2) { d.nb = 0; break; } d.j = 1; d.n = std::min(d.n, d.gn - 1); d.m = std::min(d.m, d.n); d.kl = d.ku = 0; } break;   // not on the tile grid
    case 10: d.i = -d.mb; break;
    case 11: d.j = -d.nb; break;
    case 12: d.kl = d.m; break;
    case 13: d.ku = d.n; break;
    case 14: d.gm = d.mb * (d.kl ? 1 : 0); d.kl = d.kl ? d.kl : 0; if (d.gm >= d.mb * ((d.kl + d.mb) / d.mb)) d.gm = 0; break;   // too few rows for the band
    }
}
// a valid multiplication with a known result: the library is usable
struct After {
    Mat P_, Q_, S_; LM ref; int info = 0; AM bd;
    void setup(Ctx &c) {
        int m = c.pr.range(1, 6), n = c.pr.range(1, 6), k = c.pr.range(1, 6);
        P_ = newmat(c, "P", m, k); Q_ = newmat(c, "Q", k, n); S_ = newmat(c, "S", m, n); S_.outAll();
        for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) P_(i, j) = mkT(c.pr.range(-3, 3), c.pr.range(-3, 3));
        for (int j = 0; j < n; j++) for (int i = 0; i < k; i++) Q_(i, j) = mkT(c.pr.range(-3, 3), c.pr.range(-3, 3));
        ref = mm(get(P_), get(Q_));
    }
    void call() { info = PL(gemm)(PlasmaNoTrans, PlasmaNoTrans, S_.m, S_.n, P_.n, S(mkT(1, 0)), X(P_.p), P_.ld, X(Q_.p), Q_.ld, S(mkT(0, 0)), X(S_.p), S_.ld); }
    void check(Ctx &c) { if (info) c.fail("after", "a valid gemm afterwards returns %d", info); exact(c, "after", S_, ref); }
};
struct ArgsSync : OpBase {
    const Rt *rt; int a[20]; const Par *first = nullptr; bool empty = false; Mat m[4]; Vec<R> r; Vec<int> i1, i2; plasma_desc_t T, T0; After af; double val = 0;
    std::vector<char> was;
    void setup(Ctx &c) override {
        CURNB = c.cfg.nb; const auto &t = table(); rt = &t[c.pr.range(0, t.size() - 1)];
        for (int i = 0; i < 4; i++) { m[i] = newmat(c, i == 0 ? "A" : i == 1 ? "B" : i == 2 ? "C" : "X", 64, 32, 0); for (int q = 0; q < 64 * 32; q++) m[i].p[q] = rT(c, V_UNI); }
        r = newvec<R>(c, "real", 256, R(0.5)); i1 = newvec<int>(c, "ipiv", 256, 1); i2 = newvec<int>(c, "ipiv2", 256, 2);
        std::fill(a, a + 20, 0);
        std::vector<bool> bad(rt->p.size(), false);
        double u = c.pr.uni(); int nb = u < 0.6 ? 1 : u < 0.85 ? 2 : c.pr.range(2, rt->p.size());
        for (int i = 0; i < nb; i++) bad[c.pr.range(0, rt->p.size() - 1)] = true;
        for (size_t i = 0; i < rt->p.size(); i++) { const Par &p = rt->p[i]; a[p.pos] = bad[i] ? badval(c, p, a) : goodval(c, p, a); }
        for (const Par &p : rt->p) if (!okp(p, a)) { if (!first) first = &p; if (!late(p, a)) { first = &p; break; } }
        for (const Par &p : rt->p) if (p.kind == 1 && a[p.pos] == 0) empty = true;
        if (first && late(*first, a)) std::fill(i2.b->role.begin(), i2.b->role.end(), 2);   // the iteration count of the mixed solvers
        if (first && late(*first, a) && empty) for (int i = 0; i < 4; i++) std::fill(m[i].b->role.begin(), m[i].b->role.end(), 2);   // (gelqs of no rows gives zeros)
        char b[200]; int n = snprintf(b, 200, "%s(", rt->name); for (const Par &p : rt->p) n += snprintf(b + n, 200 - n, "%d:%d ", p.pos, a[p.pos]);
        c.D("%s) first %d", b, first ? first->pos : 0);
        char tg[40]; snprintf(tg, 40, "%s:%d%s", rt->name, first ? first->pos : 0, first && first->kind == 1 && first->hi && a[first->pos] > first->hi(a) ? "hi" : ""); c.tag(tg);
        af.setup(c);
    }
    void call(Ctx &c) override {
        W w = {X(m[0].p), X(m[1].p), X(m[2].p), X(m[3].p), r.p, i1.p, i2.p, {}, 0};
        plasma_desc_general_create(PTYPE, c.cfg.ib, c.cfg.nb, 4 * c.cfg.ib, 4 * c.cfg.nb, 0, 0, 4 * c.cfg.ib, 4 * c.cfg.nb, &T);
        void *tm = T.matrix; if (tm) memset(tm, 0, (size_t)16 * c.cfg.ib * c.cfg.nb * sizeof(PT));
        for (const Par &p : rt->p) if (p.kind == 3 && a[p.pos] && strncmp(rt->name, "stevx2", 6)) { Rng q(a[p.pos] * 77 + c.cfg.nb); breakdesc(T, a[p.pos], q); }
        T0 = T; w.T = T;
        val = rt->call(a, w); c.info = 0; c.outs.push_back(val);
        if (memcmp(&w.T, &T0, sizeof T)) c.fail("frame", "the descriptor T was changed");
        T.matrix = tm; plasma_desc_destroy(&T);
        af.call();
    }
    void check(Ctx &c) override {
        c.evals++;
        // a descriptor and the room for the tiles of a band are looked at after everything else, and not for an empty problem
        if (first && !(val == -first->pos || (first->alt && val == first->alt) || (late(*first, a) && empty && val == 0))) c.fail("args", "%c%s returned %g, the first wrong argument is number %d (%d)", PCH, rt->name, val, first->pos, a[first->pos]);
        af.check(c);
    }
};

// ------------------------------------------------------------------ asynchronous interface
// descriptors by argument position: G general, T reflector blocks, B general band, U/L triangular band (taken by uplo), H single precision
struct WO { PT *p; int ld; R *r, *r2, *r3; int *i1, *i2, *iter; plasma_workspace_t wk; PT *U, *V; };
typedef plasma_sequence_t *SQ; typedef plasma_request_t *RQ;
struct Ro { const char *name; std::vector<Par> e; const char *d; std::function<void(const int *, plasma_desc_t *, WO &, SQ, RQ)> call; };
static const std::vector<Ro> &otable() {
    static std::vector<Ro> t;
    if (t.size()) return t;
    PT al = S(mkT(1.5, 0.5)), be = S(mkT(0.75, -0.25)); R ra = 1.25, rb = 0.5; (void)ra; (void)rb;
#define Q(...) [=]([[maybe_unused]] const int *a, [[maybe_unused]] plasma_desc_t *d, [[maybe_unused]] WO &w, SQ s, RQ q) { __VA_ARGS__; }
    IV J = {PlasmaNoVec, PlasmaAllVec, PlasmaSomeVec}, LO = {PlasmaLower};
    // the string gives the kind of argument 1, 2, ...; '.' is no descriptor
#if defined(PREC_Z)
    t.push_back({"amax", {E(1, RC)}, ".G", Q(plasma_omp_dzamax(a[1], d[2], w.r, w.r2, s, q))});
#elif defined(PREC_C)
    t.push_back({"amax", {E(1, RC)}, ".G", Q(plasma_omp_scamax(a[1], d[2], w.r, w.r2, s, q))});
#elif defined(PREC_D)
    t.push_back({"amax", {E(1, RC)}, ".G", Q(plasma_omp_damax(a[1], d[2], w.r, w.r2, s, q))});
#else
    t.push_back({"amax", {E(1, RC)}, ".G", Q(plasma_omp_samax(a[1], d[2], w.r, w.r2, s, q))});
#endif
    t.push_back({"desc2ge", {E(2, {0})}, "G", Q(PO(desc2ge)(d[1], a[2] ? nullptr : w.p, w.ld, s, q))});
    t.push_back({"desc2pb", {E(2, {0})}, "B", Q(PO(desc2pb)(d[1], a[2] ? nullptr : w.p, w.ld, s, q))});
    t.push_back({"desc2tr", {E(2, {0})}, "R", Q(PO(desc2tr)(d[1], a[2] ? nullptr : w.p, w.ld, s, q))});
    t.push_back({"ge2desc", {E(1, {0})}, "..G", Q(PO(ge2desc)(a[1] ? nullptr : w.p, w.ld, d[3], s, q))});
    t.push_back({"pb2desc", {E(1, {0})}, "..B", Q(PO(pb2desc)(a[1] ? nullptr : w.p, w.ld, d[3], s, q))});
    t.push_back({"tr2desc", {E(1, {0})}, "..R", Q(PO(tr2desc)(a[1] ? nullptr : w.p, w.ld, d[3], s, q))});
    t.push_back({"gbmm", {E(1, TRS), E(2, TRS)}, "...BG.G", Q(PO(gbmm)(a[1], a[2], al, d[4], d[5], be, d[7], s, q))});
    t.push_back({"gbsv", {}, "B.G", Q(PO(gbsv)(d[1], w.i1, d[3], s, q))});
    t.push_back({"gbtrf", {}, "B", Q(PO(gbtrf)(d[1], w.i1, s, q))});
    t.push_back({"gbtrs", {E(1, TRS)}, ".B.G", Q(PO(gbtrs)(a[1], d[2], w.i1, d[4], s, q))});
    t.push_back({"geadd", {E(1, TRS)}, "..G.G", Q(PO(geadd)(a[1], al, d[3], be, d[5], s, q))});
    t.push_back({"geinv", {}, "G.G", Q(PO(geinv)(d[1], w.i1, d[3], s, q))});
    t.push_back({"gelqf", {}, "GT", Q(PO(gelqf)(d[1], d[2], w.wk, s, q))});
    t.push_back({"geqrf", {}, "GT", Q(PO(geqrf)(d[1], d[2], w.wk, s, q))});
    t.push_back({"gelqs", {}, "GTG", Q(PO(gelqs)(d[1], d[2], d[3], w.wk, s, q))});
    t.push_back({"geqrs", {}, "GTG", Q(PO(geqrs)(d[1], d[2], d[3], w.wk, s, q))});
    t.push_back({"gels", {E(1, NC)}, ".GTG", Q(PO(gels)(a[1], d[2], d[3], d[4], w.wk, s, q))});
    t.push_back({"gemm", {E(1, TRS), E(2, TRS)}, "...GG.G", Q(PO(gemm)(a[1], a[2], al, d[4], d[5], be, d[7], s, q))});
    t.push_back({"gesdd", {E(1, J), E2(2, J, [](A_ a) { return a[2] == a[1]; })}, "..GT", Q(PO(gesdd)(a[1], a[2], d[3], d[4], w.r, w.U, 16, w.V, 16, w.wk, s, q))});
    t.push_back({"gesv", {}, "G.G", Q(PO(gesv)(d[1], w.i1, d[3], s, q))});
    t.push_back({"geswp", {E(1, RC)}, ".G", Q(PO(geswp)(a[1], d[2], w.i1, 1, s, q))});
    t.push_back({"getrf", {}, "G", Q(PO(getrf)(d[1], w.i1, s, q))});
    t.push_back({"getri", {}, "G.G", Q(PO(getri)(d[1], w.i1, d[3], s, q))});
    t.push_back({"getri_aux", {}, "GG", Q(PO(getri_aux)(d[1], d[2], s, q))});
    t.push_back({"getrs", {E(1, TRS)}, ".G.G", Q(PO(getrs)(a[1], d[2], w.i1, d[4], s, q))});
#if CPLX
    t.push_back({"hemm", {E(1, SD), E(2, UP)}, "...GG.G", Q(PO(hemm)(a[1], a[2], al, d[4], d[5], be, d[7], s, q))});
    t.push_back({"her2k", {E(1, UP), E(2, NC)}, "...GG.G", Q(PO(her2k)(a[1], a[2], al, d[4], d[5], rb, d[7], s, q))});
    t.push_back({"herk", {E(1, UP), E(2, NC)}, "...G.G", Q(PO(herk)(a[1], a[2], ra, d[4], rb, d[6], s, q))});
    t.push_back({"lanhe", {E(1, NRM), E(2, UP)}, "..G", Q(PO(lanhe)(a[1], a[2], d[3], w.r, w.r2, s, q))});
#endif
    t.push_back({"hetrf", {E(1, LO)}, ".G.B.G", Q(POHE(trf)(a[1], d[2], w.i1, d[4], w.i2, d[6], s, q))});
    t.push_back({"hetrs", {E(1, LO)}, ".G.B.G", Q(POHE(trs)(a[1], d[2], w.i1, d[4], w.i2, d[6], s, q))});
    t.push_back({"hesv", {E(1, LO)}, ".G.B.GG", Q(POHE(sv)(a[1], d[2], w.i1, d[4], w.i2, d[6], d[7], s, q))});
    t.push_back({"lacpy", {E(1, GUL), E(2, TRS)}, "..GG", Q(PO(lacpy)(a[1], a[2], d[3], d[4], s, q))});
    t.push_back({"langb", {E(1, NRM)}, ".B", Q(PO(langb)(a[1], d[2], w.r, w.r2, s, q))});
    t.push_back({"lange", {E(1, NRM)}, ".G", Q(PO(lange)(a[1], d[2], w.r, w.r2, s, q))});
    t.push_back({"lansy", {E(1, NRM), E(2, UP)}, "..G", Q(PO(lansy)(a[1], a[2], d[3], w.r, w.r2, s, q))});
    t.push_back({"lantr", {E(1, NRM), E(2, UP), E(3, DG)}, "...G", Q(PO(lantr)(a[1], a[2], a[3], d[4], w.r, w.r2, s, q))});
    t.push_back({"lascl", {E(1, GUL), E(2, {0}), E(3, {0})}, "...G", Q(PO(lascl)(a[1], a[2] == 0 ? 2 : a[2] == 1 ? 0 : std::numeric_limits<R>::quiet_NaN(), a[3] == 0 ? 3 : std::numeric_limits<R>::quiet_NaN(), d[4], s, q))});
    t.push_back({"laset", {E(1, GUL)}, "...G", Q(PO(laset)(a[1], al, be, d[4], s, q))});
    t.push_back({"lauum", {E(1, UP)}, ".G", Q(PO(lauum)(a[1], d[2], s, q))});
    t.push_back({"pbsv", {E(1, UP)}, ".UG", Q(PO(pbsv)(a[1], d[2], d[3], s, q))});
    t.push_back({"pbtrf", {E(1, UP)}, ".U", Q(PO(pbtrf)(a[1], d[2], s, q))});
    t.push_back({"pbtrs", {E(1, UP)}, ".UG", Q(PO(pbtrs)(a[1], d[2], d[3], s, q))});
    t.push_back({"poinv", {E(1, UP)}, ".G", Q(PO(poinv)(a[1], d[2], s, q))});
    t.push_back({"posv", {E(1, UP)}, ".GG", Q(PO(posv)(a[1], d[2], d[3], s, q))});
    t.push_back({"potrf", {E(1, UP)}, ".G", Q(PO(potrf)(a[1], d[2], s, q))});
    t.push_back({"potri", {E(1, UP)}, ".G", Q(PO(potri)(a[1], d[2], s, q))});
    t.push_back({"potrs", {E(1, UP)}, ".GG", Q(PO(potrs)(a[1], d[2], d[3], s, q))});
    t.push_back({"symm", {E(1, SD), E(2, UP)}, "...GG.G", Q(PO(symm)(a[1], a[2], al, d[4], d[5], be, d[7], s, q))});
    t.push_back({"syr2k", {E(1, UP), E(2, NTR)}, "...GG.G", Q(PO(syr2k)(a[1], a[2], al, d[4], d[5], be, d[7], s, q))});
    t.push_back({"syrk", {E(1, UP), E(2, NTR)}, "...G.G", Q(PO(syrk)(a[1], a[2], al, d[4], be, d[6], s, q))});
    t.push_back({"tradd", {E(1, UP), E(2, TRS)}, "...G.G", Q(PO(tradd)(a[1], a[2], al, d[4], be, d[6], s, q))});
    t.push_back({"trmm", {E(1, SD), E(2, UP), E(3, TRS), E(4, DG)}, ".....GG", Q(PO(trmm)(a[1], a[2], a[3], a[4], al, d[6], d[7], s, q))});
    t.push_back({"trsm", {E(1, SD), E(2, UP), E(3, TRS), E(4, DG)}, ".....GG", Q(PO(trsm)(a[1], a[2], a[3], a[4], al, d[6], d[7], s, q))});
    t.push_back({"trtri", {E(1, UP), E(2, DG)}, "..G", Q(PO(trtri)(a[1], a[2], d[3], s, q))});
    t.push_back({"unglq", {}, "GTG", Q(POUN(glq)(d[1], d[2], d[3], w.wk, s, q))});
    t.push_back({"ungqr", {}, "GTG", Q(POUN(gqr)(d[1], d[2], d[3], w.wk, s, q))});
    t.push_back({"unmlq", {E(1, SD), E(2, NC)}, "..GTG", Q(POUN(mlq)(a[1], a[2], d[3], d[4], d[5], w.wk, s, q))});
    t.push_back({"unmqr", {E(1, SD), E(2, NC)}, "..GTG", Q(POUN(mqr)(a[1], a[2], d[3], d[4], d[5], w.wk, s, q))});
#if defined(PREC_Z) || defined(PREC_D)
#ifdef PREC_Z
#define MO(x) plasma_omp_zc##x
#define LAGO plasma_omp_zlag2c
#define LAGI plasma_omp_clag2z
#else
#define MO(x) plasma_omp_ds##x
#define LAGO plasma_omp_dlag2s
#define LAGI plasma_omp_slag2d
#endif
    t.push_back({"cgesv", {}, "G.GGHHG", Q(MO(gesv)(d[1], w.i1, d[3], d[4], d[5], d[6], d[7], w.r, w.r2, w.r3, w.iter, s, q))});
    t.push_back({"cposv", {E(1, UP)}, ".GGGHHG", Q(MO(posv)(a[1], d[2], d[3], d[4], d[5], d[6], d[7], w.r, w.r2, w.r3, w.iter, s, q))});
    t.push_back({"cgbsv", {}, "B.GGKHG", Q(MO(gbsv)(d[1], w.i1, d[3], d[4], d[5], d[6], d[7], w.r, w.r2, w.r3, w.iter, s, q))});
    t.push_back({"lag2", {}, "GH", Q(LAGO(d[1], d[2], s, q))});
    t.push_back({"lag2back", {}, "HG", Q(LAGI(d[1], d[2], s, q))});
#endif
    return t;
}
struct ArgsAsync : OpBase {
    const Ro *rt; int a[20], how[10]; int first = 0; Mat mem[10], ap, U, V; Vec<R> r, r2, r3; Vec<int> i1, i2, iter; After af; plasma_desc_t d[10]; int st = 0, rq = 0, st2 = 0; bool firstsite = false; uint64_t hs;
    bool flushed = false; int rec = 0; bool recsite = false;    // valid calls on a sequence which has already failed
    void setup(Ctx &c) override {
        const auto &t = otable(); rt = &t[c.pr.range(0, t.size() - 1)]; hs = c.pr.next();
        int nb = c.cfg.nb, n = nb * c.pr.range(2, 3); if (n > 40) n = 2 * nb; (void)n;
        r = newvec<R>(c, "work", 4096, R(0)); r2 = newvec<R>(c, "values", 512, R(7)); r3 = newvec<R>(c, "xnorm", 512, R(7)); i1 = newvec<int>(c, "ipiv", 256, 1); i2 = newvec<int>(c, "ipiv2", 256, 1); iter = newvec<int>(c, "iter", 1, 77); std::fill(iter.b->role.begin(), iter.b->role.end(), 2);
        ap = newmat(c, "LAPACK", 128, 40, 0); U = newmat(c, "U", 16, 16, 0); V = newmat(c, "V", 16, 16, 0);
        for (Mat *x : {&ap, &U, &V}) for (size_t i = 0; i < (size_t)x->ld * x->n; i++) x->p[i] = rT(c, V_UNI);
        std::fill(a, a + 20, 0); std::fill(how, how + 10, 0);
        std::vector<int> dp; for (int i = 0; rt->d[i]; i++) if (rt->d[i] != '.') dp.push_back(i + 1);
        size_t np = rt->e.size() + dp.size();
        std::set<int> bad; int k = c.pr.p(0.75) ? 1 : 2; for (int i = 0; i < k && !flushed; i++) bad.insert(c.pr.range(0, np - 1)); if (flushed) rec = c.pr.pick({(int)PlasmaErrorOutOfMemory, (int)PlasmaErrorIllegalValue, 1, 3, 12345, (int)PlasmaErrorSequence});
        for (size_t i = 0; i < rt->e.size(); i++) { const Par &p = rt->e[i]; a[p.pos] = bad.count(i) ? badval(c, p, a) : goodval(c, p, a); }
        for (size_t i = 0; i < dp.size(); i++) if (bad.count(rt->e.size() + i)) { char ch = rt->d[dp[i] - 1]; bool band = strchr("BUK", ch); how[dp[i]] = band ? c.pr.range(1, 14) : c.pr.range(1, 11); }
        char b[300]; int l = snprintf(b, 300, "%s(", rt->name);
        for (const Par &p : rt->e) { l += snprintf(b + l, 300 - l, "%d:%d ", p.pos, a[p.pos]); if (!okp(p, a) && (!first || p.pos < first)) first = p.pos; }
        for (int p : dp) { l += snprintf(b + l, 300 - l, "%d:%c%d ", p, rt->d[p - 1], how[p]); if (how[p] && (!first || p < first)) first = p; }
        c.D("%s)%s", b, flushed ? " after a failure" : ""); char tg[48]; snprintf(tg, 48, "%s:%d:%d", rt->name, first, first ? how[first > 9 ? 9 : first] : 0); c.tag(tg);
        for (int p : dp) { char nm[8]; snprintf(nm, 8, "d%d", p); mem[p] = newmat(c, nm, 3 * nb * (3 + 7), nb * 3, 0); for (size_t i = 0; i < (size_t)mem[p].ld * mem[p].n; i++) mem[p].p[i] = rT(c, V_UNI); }
        af.setup(c);
    }
    void call(Ctx &c) override {
        int nb = c.cfg.nb, n = 2 * nb; if (nb * 3 <= 15) n = 3 * nb; if (n > 1) n -= c.cfg.ib % 2 && nb > 1 ? 1 : 0;
        WO w = {X(ap.p), ap.ld, r.p, r2.p, r3.p, i1.p, i2.p, iter.p, {}, X(U.p), X(V.p)};
        plasma_workspace_create(&w.wk, 3 * (size_t)nb * nb + nb, PTYPE);
        int kd = std::max(0, std::min(n - 1, nb / 2 + 1));
        for (int p = 1; p < 10 && rt->d[p - 1]; p++) {
            char ch = rt->d[p - 1]; if (ch == '.') continue;
            plasma_enum_t prec = PTYPE; int uplo = a[1] == PlasmaLower || a[2] == PlasmaLower ? PlasmaLower : PlasmaUpper;
            if (ch == 'H' || ch == 'K') prec = PTYPE == PlasmaComplexDouble ? PlasmaComplexFloat : PlasmaRealFloat;
            if (ch == 'G' || ch == 'H') plasma_desc_general_init(prec, mem[p].p, nb, nb, n, n, 0, 0, n, n, &d[p]);
            else if (ch == 'R') plasma_desc_triangular_init(prec, (plasma_enum_t)(hs & 1 ? PlasmaUpper : PlasmaLower), mem[p].p, nb, nb, n, n, 0, 0, n, n, &d[p]);
            else if (ch == 'T') { int mt = (n + nb - 1) / nb; plasma_desc_general_init(prec, mem[p].p, c.cfg.ib, nb, mt * c.cfg.ib, 2 * mt * nb, 0, 0, mt * c.cfg.ib, 2 * mt * nb, &d[p]); }
            else if (ch == 'B' || ch == 'K') { int lm = bandrows(nb, kd, kd); plasma_desc_general_band_init(prec, PlasmaGeneral, mem[p].p, nb, nb, lm, n, 0, 0, n, n, kd, kd, &d[p]); }
            else { int lm = nb * (1 + (kd + nb - 1) / nb); plasma_desc_general_band_init(prec, (plasma_enum_t)uplo, mem[p].p, nb, nb, lm, n, 0, 0, n, n, uplo == PlasmaUpper ? 0 : kd, uplo == PlasmaUpper ? kd : 0, &d[p]); }
            Rng q(hs + p); breakdesc(d[p], how[p], q);
        }
        plasma_sequence_t s; plasma_request_t q, q2; plasma_sequence_init(&s); plasma_request_init(&q); plasma_request_init(&q2);
        if (flushed) plasma_request_fail(&s, &q2, (plasma_enum_t)rec);
        par([&] { rt->call(a, d, w, &s, &q); });
        st = s.status; rq = q.status; firstsite = s.request == &q; recsite = s.request == &q2;
        plasma_workspace_destroy(&w.wk);
        c.info = st;
        af.call();
    }
    void check(Ctx &c) override {
        c.evals++;
        if (flushed) { if (st != rec || !recsite) c.fail("seq", "%c%s: the sequence failed with %d before the call, afterwards its status is %d%s", PCH, rt->name, rec, st, recsite ? "" : " and it names another request"); c.info = 0; af.check(c); return; }
        if (st != PlasmaErrorIllegalValue || rq != PlasmaErrorIllegalValue) c.fail("args", "%c%s: argument %d is wrong, the sequence has status %d and the request %d", PCH, rt->name, first, st, rq);
        else if (!firstsite) c.fail("args", "%c%s: argument %d is wrong, the sequence does not name the request", PCH, rt->name, first);
        af.check(c);
    }
};
#define REGARGS(CLS, NAME) static Reg CAT(reg_, CLS)(NAME, PCH, F_ARGS, [] { return (OpBase*)new CLS; });
REGARGS(ArgsSync, "args")
REGARGS(ArgsAsync, "argsomp")
struct Flushed : ArgsAsync { Flushed() { flushed = true; } };
REGOP(Flushed, "flushed", F_SEQ)
}
