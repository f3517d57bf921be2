#include "core.h"
#include "band.h"
namespace {
// C15: descriptors and layout conversions.
static void eachTile(const plasma_desc_t &D, std::function<void(int,int)> f) { for (int n = 0; n < D.nt; n++) for (int m = 0; m < D.mt; m++) f(m, n); }
// One descriptor: where are its entries?  size: elements of the allocation. stored(i,j): is the entry stored?
struct Where {
    Ctx &c; std::vector<int> own; char *base; size_t n;
    Where(Ctx &c_, const plasma_desc_t &D, size_t elems) : c(c_), own(elems, 0), base((char*)D.matrix), n(elems) {}
    // index of the entry, or -1 with a violation
    long at(const plasma_desc_t &D, int i, int j) {
        bool band = D.type == PlasmaGeneralBand;
        int mt = i / D.mb, nt = j / D.nb, ii = i % D.mb, jj = j % D.nb;
        char *t = (char*)plasma_tile_addr(D, mt, nt);
        int ld = band ? plasma_tile_mmain_band(D, mt, nt) : plasma_tile_mmain(D, mt);
        long off = (t - base) + ((long)jj * ld + ii) * (long)sizeof(T);
        if (off < 0 || off % (long)sizeof(T) || off / (long)sizeof(T) >= (long)n) { c.fail("desc-outside", "entry (%d,%d) lies at byte %ld of an allocation of %zu elements", i, j, off, n); return -1; }
        return off / (long)sizeof(T);
    }
};
static void dims(Ctx &c, const plasma_desc_t &D) {
    int sm = 0, sn = 0;
    for (int k = 0; k < D.mt; k++) { int v = plasma_tile_mview(D, k); c.evals++; if (v < 1 || v > D.mb || (D.type != PlasmaGeneralBand && v > plasma_tile_mmain(D, k))) { c.fail("desc-tiles", "tile row %d has %d rows (%d in memory)", k, v, plasma_tile_mmain(D, k)); return; } sm += v; }
    for (int k = 0; k < D.nt; k++) { int v = plasma_tile_nview(D, k); c.evals++; if (v < 1 || v > D.nb || v > plasma_tile_nmain(D, k)) { c.fail("desc-tiles", "tile column %d has %d columns (%d in memory)", k, v, plasma_tile_nmain(D, k)); return; } sn += v; }
    if (sm != D.m || sn != D.n) c.fail("desc-tiles", "tiles add up to %d x %d, the matrix is %d x %d", sm, sn, D.m, D.n);
}
// every stored entry distinct and inside
static bool distinct(Ctx &c, Where &w, const plasma_desc_t &D, std::function<bool(int,int)> st) {
    std::fill(w.own.begin(), w.own.end(), 0); int id = 0;
    for (int j = 0; j < D.n; j++) for (int i = 0; i < D.m; i++) if (st(i, j)) {
        c.evals++; id++;
        long k = w.at(D, i, j); if (k < 0) return false;
        if (w.own[k]) { c.fail("desc-alias", "entry (%d,%d) shares its place with entry number %d", i, j, w.own[k]); return false; }
        w.own[k] = id;
    }
    return true;
}
static T &ent(Where &w, const plasma_desc_t &D, int i, int j, long &k) { k = w.at(D, i, j); static T dummy; return k < 0 ? dummy : ((T*)w.base)[k]; }
static bool bits(T a, T b) { return !memcmp(&a, &b, sizeof a); }
static void async(Ctx &c, const char *what, std::function<void(plasma_sequence_t*, plasma_request_t*)> f) {
    plasma_sequence_t s; plasma_request_t r; plasma_sequence_init(&s); plasma_request_init(&r);
    par([&] { f(&s, &r); });
    if (s.status || r.status) { c.info = s.status; c.fail("layout-status", "%s: sequence status %d, request status %d", what, (int)s.status, (int)r.status); }
}
static int amul(Ctx &c, int mb, int mx) { return mx <= 0 ? 0 : mb * c.pr.range(0, mx / mb); }
static const char *PAT = "\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A\x5A";
static void paint(void *p, size_t n) { memset(p, 0x5A, n); }
static bool painted(const T &x) { return !memcmp(&x, PAT, sizeof x); }
static T rbits(Ctx &c) { double u = c.pr.uni(); if (u < 0.05) { R q = std::numeric_limits<R>::infinity(); return mkT(q, -q); } if (u < 0.1) return mkT(-0.0, -0.0); if (u < 0.15) return mkT(std::numeric_limits<R>::denorm_min(), 0); return rT(c, V_WIDE); }

struct LayGe : OpBase {
    int mb, nb, lm, ln, i0, j0, m, n, how; Mat A, B;
    void setup(Ctx &c) override {
        nb = c.cfg.nb; mb = c.pr.p(0.6) ? nb : c.pr.range(1, 12);
        lm = dim(c); ln = dim(c); how = c.pr.range(0, 3);
        i0 = how ? amul(c, mb, lm - 1) : 0; j0 = how ? amul(c, nb, ln - 1) : 0;
        m = how ? c.pr.range(0, lm - i0) : lm; n = how ? c.pr.range(0, ln - j0) : ln;
        if (!c.zerodims && how) { if (m == 0) m = lm - i0; if (n == 0) n = ln - j0; }
        A = newmat(c, "A", m, n); B = newmat(c, "B", m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = rbits(c);
        B.outAll();
        c.D("parent %dx%d tiles %dx%d view (%d,%d) %dx%d lda=%d ldb=%d how=%d", lm, ln, mb, nb, i0, j0, m, n, A.ld, B.ld, how);
        shape(c, "V", m, n); c.tag("ge" + std::to_string(how));
    }
    void call(Ctx &c) override {
        plasma_desc_t D, V; int r;
        if (how == 1) r = PL_desc(lm, ln, i0, j0, m, n, &D); else r = PL_desc(lm, ln, 0, 0, lm, ln, &D);
        if (r) { c.info = r; c.fail("layout-create", "plasma_desc_general_create returned %d", r); return; }
        size_t ne = (size_t)lm * ln; paint(D.matrix, ne * sizeof(T));
        V = D;
        if (how == 2) V = plasma_desc_view(D, i0, j0, m, n);
        if (how == 3) { // a view of a view
            int i1 = amul(c, mb, i0), j1 = amul(c, nb, j0);
            V = plasma_desc_view(plasma_desc_view(D, i1, j1, lm - i1, ln - j1), i0 - i1, j0 - j1, m, n);
        }
        dims(c, V);
        Where w(c, D, ne);
        if (how != 1 && (lm == 0 || ln == 0 || !distinct(c, w, D, [](int, int) { return true; }))) { if (lm && ln) { plasma_desc_destroy(&D); return; } }
        if (!distinct(c, w, V, [](int, int) { return true; })) { plasma_desc_destroy(&D); return; }
        // the view addresses the parent's entries
        if (how >= 2) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (w.at(V, i, j) != w.at(D, i0 + i, j0 + j)) { c.fail("desc-view", "entry (%d,%d) of the view is not entry (%d,%d) of its parent", i, j, i0 + i, j0 + j); plasma_desc_destroy(&D); return; }
        async(c, "ge2desc", [&](plasma_sequence_t *s, plasma_request_t *q) { PO(ge2desc)(X(A.p), A.ld, V, s, q); });
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { long k; c.evals++; if (!bits(ent(w, V, i, j, k), A(i, j))) { c.fail("layout-in", "entry (%d,%d) is not in its place in the tiles", i, j); i = m; j = n; } }
        for (size_t k = 0; k < ne; k++) { c.evals++; if (!w.own[k] && !painted(((T*)D.matrix)[k])) { c.fail("layout-spill", "element %zu of the tiles is outside the view and was changed", k); break; } }
        std::vector<char> copy((char*)D.matrix, (char*)D.matrix + ne * sizeof(T));
        async(c, "desc2ge", [&](plasma_sequence_t *s, plasma_request_t *q) { PO(desc2ge)(V, X(B.p), B.ld, s, q); });
        if (memcmp(copy.data(), D.matrix, ne * sizeof(T))) c.fail("layout-in", "converting back changed the tiles");
        if ((r = plasma_desc_destroy(&D))) c.fail("layout-create", "plasma_desc_destroy returned %d", r);
    }
    int PL_desc(int a, int b, int i, int j, int mm, int nn, plasma_desc_t *D) { return plasma_desc_general_create(PTYPE, mb, nb, a, b, i, j, mm, nn, D); }
    void check(Ctx &c) override {
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { c.evals++; if (!bits(B(i, j), A(i, j))) { c.fail("layout-back", "entry (%d,%d) did not survive", i, j); return; } }
    }
};
REGOP(LayGe, "desc-ge", F_LAYOUT)

struct LayTr : OpBase {
    int nb, uplo, n, o, k; Mat A, B;
    bool st(int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; }
    void setup(Ctx &c) override {
        nb = c.cfg.nb; uplo = ruplo(c); n = dim(c); o = c.pr.p(0.5) ? 0 : amul(c, nb, n - 1); k = o ? c.pr.range(1, n - o) : n;
        A = newmat(c, "A", k, k); B = newmat(c, "B", k, k);
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (st(i, j)) A(i, j) = rbits(c);
        // the other half of the diagonal tiles may travel along
        B.outIf([&](int i, int j) { return st(i, j); });
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (!st(i, j) && i / nb == j / nb) B.b->role[B.ri(i, j)] = 2;
        c.junkmode = 1;
        c.D("uplo=%s n=%d nb=%d part %d at %d lda=%d ldb=%d", cE(uplo), n, nb, k, o, A.ld, B.ld);
        shape(c, cE(uplo), k, k); c.tag(std::string("tr") + cE(uplo) + (o ? "view" : ""));
    }
    void call(Ctx &c) override {
        plasma_desc_t D, V; int r = plasma_desc_triangular_create(PTYPE, uplo, nb, nb, n, n, 0, 0, n, n, &D);
        if (r) { c.info = r; c.fail("layout-create", "plasma_desc_triangular_create returned %d", r); return; }
        V = o ? plasma_desc_view(D, o, o, k, k) : D;
        int q = n / nb; size_t ne = (size_t)q * (q + 1) / 2 * nb * nb + (size_t)n * (n % nb);
        if (!n) { plasma_desc_destroy(&D); return; }
        paint(D.matrix, ne * sizeof(T)); dims(c, D); dims(c, V);
        Where w(c, D, ne);
        auto stored = [&](int i, int j) { return st(i, j) || i / nb == j / nb; };
        if (!distinct(c, w, D, stored) || !distinct(c, w, V, stored)) { plasma_desc_destroy(&D); return; }
        if (o) for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (stored(i, j) && w.at(V, i, j) != w.at(D, o + i, o + j)) { c.fail("desc-view", "entry (%d,%d) of the view is not entry (%d,%d) of its parent", i, j, i + o, j + o); plasma_desc_destroy(&D); return; }
        async(c, "tr2desc", [&](plasma_sequence_t *s, plasma_request_t *rq) { PO(tr2desc)(X(A.p), A.ld, V, s, rq); });
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (st(i, j)) { long x; c.evals++; if (!bits(ent(w, V, i, j, x), A(i, j))) { c.fail("layout-in", "entry (%d,%d) is not in its place in the tiles", i, j); i = j = k; } }
        for (size_t x = 0; x < ne; x++) { c.evals++; if (!w.own[x] && !painted(((T*)D.matrix)[x])) { c.fail("layout-spill", "element %zu of the tiles is outside the view and was changed", x); break; } }
        async(c, "desc2tr", [&](plasma_sequence_t *s, plasma_request_t *rq) { PO(desc2tr)(V, X(B.p), B.ld, s, rq); });
        if ((r = plasma_desc_destroy(&D))) c.fail("layout-create", "plasma_desc_destroy returned %d", r);
    }
    void check(Ctx &c) override {
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (st(i, j)) { c.evals++; if (!bits(B(i, j), A(i, j))) { c.fail("layout-back", "entry (%d,%d) did not survive", i, j); return; } }
    }
};
REGOP(LayTr, "desc-tr", F_LAYOUT)

// band of a symmetric matrix, or general band with room for fill
struct LayPb : OpBase {
    int nb, uplo, m, n, kl, ku, lm, off, rows; Mat A, B;
    bool in(int i, int j) { return uplo == PlasmaUpper ? i <= j && j - i <= ku : uplo == PlasmaLower ? i >= j && i - j <= kl : i - j <= kl && j - i <= ku + kl; }
    T &at(Mat &M, int i, int j) { return M(off + i - j, j); }
    void setup(Ctx &c) override {
        nb = c.cfg.nb; uplo = c.pr.pick({(int)PlasmaUpper, (int)PlasmaLower, (int)PlasmaGeneral}); n = dim(c); m = uplo == PlasmaGeneral ? dim(c) : n;
        auto w = [&](int d) { return d < 1 ? 0 : c.pr.p(0.2) ? d - 1 : std::min(d - 1, c.pr.range(0, 2 * nb)); };
        kl = w(m); ku = w(n); if (uplo != PlasmaGeneral) ku = kl;
        if (uplo == PlasmaGeneral) { int tku = (ku + kl + nb - 1) / nb, tkl = (kl + nb - 1) / nb; lm = (tku + tkl + 1) * nb; rows = lm; off = ku + kl; }
        else { lm = nb * (1 + (kl + nb - 1) / nb); rows = kl + 1; off = uplo == PlasmaUpper ? ku : 0; }
        A = newmat(c, "A", rows, n); B = newmat(c, "B", rows, n);
        if (uplo == PlasmaGeneral) for (int j = 0; j < n; j++) for (int r = 0; r < std::min(lm, 2 * kl + ku + nb); r++) { int i = j + r - off; if (i >= 0 && i < m) { A(r, j) = rbits(c); B.b->role[B.ri(r, j)] = 2; } }   // room for fill
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { at(A, i, j) = rbits(c); B.out(off + i - j, j); }
        c.D("uplo=%s m=%d n=%d kl=%d ku=%d nb=%d lda=%d ldb=%d", cE(uplo), m, n, kl, ku, nb, A.ld, B.ld);
        shape(c, cE(uplo), m, n); c.tag(std::string("pb") + cE(uplo) + std::to_string(std::min(3, kl / nb)) + std::to_string(std::min(3, ku / nb)));
    }
    void call(Ctx &c) override {
        plasma_desc_t D; int r = plasma_desc_general_band_create(PTYPE, uplo, nb, nb, lm, n, 0, 0, m, n, kl, ku, &D);
        if (m == 0 || n == 0) { if (!r) plasma_desc_destroy(&D); return; }
        if (r) { c.info = r; c.fail("layout-create", "plasma_desc_general_band_create returned %d", r); return; }
        size_t ne = (size_t)D.gm * D.gn; paint(D.matrix, ne * sizeof(T)); dims(c, D);
        Where w(c, D, ne);
        if (!distinct(c, w, D, [&](int i, int j) { return in(i, j); })) { plasma_desc_destroy(&D); return; }
        async(c, "pb2desc", [&](plasma_sequence_t *s, plasma_request_t *q) { PO(pb2desc)(X(A.p), A.ld, D, s, q); });
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { long x; c.evals++; if (!bits(ent(w, D, i, j, x), at(A, i, j))) { c.fail("layout-in", "entry (%d,%d) is not in its place in the tiles", i, j); i = m; j = n; } }
        // the rest of a tile of a symmetric band is zero: kernels work on whole tiles
        if (uplo != PlasmaGeneral) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in(i, j)) {
            int tm = i / nb, tn = j / nb; bool some = uplo == PlasmaUpper ? tm <= tn && tn * nb - ((tm + 1) * nb - 1) <= ku : tm >= tn && tm * nb - ((tn + 1) * nb - 1) <= kl;
            if (!some || tm == tn) continue;
            long x; c.evals++; T v = ent(w, D, i, j, x); if (x >= 0 && v != T(0)) { c.fail("layout-in", "entry (%d,%d) beyond the band is not zero in the tiles", i, j); i = j = n; }
        }
        async(c, "desc2pb", [&](plasma_sequence_t *s, plasma_request_t *q) { PO(desc2pb)(D, X(B.p), B.ld, s, q); });
        if ((r = plasma_desc_destroy(&D))) c.fail("layout-create", "plasma_desc_destroy returned %d", r);
    }
    void check(Ctx &c) override {
        if (m && n) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { c.evals++; if (!bits(at(B, i, j), at(A, i, j))) { c.fail("layout-back", "entry (%d,%d) did not survive", i, j); return; } }
    }
};
REGOP(LayPb, "desc-pb", F_LAYOUT)

// a full matrix into a band descriptor: the entries within the band arrive
struct LayGb : OpBase {
    int nb, m, n, kl, ku, lm; Mat A;
    bool in(int i, int j) { return i - j <= kl && j - i <= ku; }
    void setup(Ctx &c) override {
        nb = c.cfg.nb; m = dim(c); n = dim(c);
        auto w = [&](int d) { return d < 1 ? 0 : c.pr.p(0.2) ? d - 1 : std::min(d - 1, c.pr.range(0, 2 * nb)); };
        kl = w(m); ku = w(n);
        int tku = (ku + kl + nb - 1) / nb, tkl = (kl + nb - 1) / nb; lm = (tku + tkl + 1) * nb;
        A = newmat(c, "A", m, n);
        // zero outside the band, as the routine demands
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = in(i, j) ? rbits(c) : T(0);
        c.D("m=%d n=%d kl=%d ku=%d nb=%d lda=%d", m, n, kl, ku, nb, A.ld); shape(c, "A", m, n);
    }
    void call(Ctx &c) override {
        if (m == 0 || n == 0) return;
        plasma_desc_t D; int r = plasma_desc_general_band_create(PTYPE, PlasmaGeneral, nb, nb, lm, n, 0, 0, m, n, kl, ku, &D);
        if (r) { c.info = r; c.fail("layout-create", "plasma_desc_general_band_create returned %d", r); return; }
        size_t ne = (size_t)D.gm * D.gn; paint(D.matrix, ne * sizeof(T)); dims(c, D);
        Where w(c, D, ne);
        async(c, "gb2desc", [&](plasma_sequence_t *s, plasma_request_t *q) { PO(gb2desc)(X(A.p), A.ld, D, s, q); });
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (in(i, j)) { long x; c.evals++; if (!bits(ent(w, D, i, j, x), A(i, j))) { c.fail("layout-in", "entry (%d,%d) is not in its place in the tiles", i, j); i = m; j = n; } }
        if ((r = plasma_desc_destroy(&D))) c.fail("layout-create", "plasma_desc_destroy returned %d", r);
    }
    void check(Ctx &) override {}
};
REGOP(LayGb, "desc-gb", F_LAYOUT)

// Views with any offset: the tiles of a view are exactly the tiles of its parent which hold its entries.
struct LayVw : OpBase {
    int kind, mb, nb, lm, ln; uint64_t s;
    void setup(Ctx &c) override {
        kind = c.pr.range(0, 1); nb = c.cfg.nb; mb = kind == 0 && c.pr.p(0.5) ? c.pr.range(1, 12) : nb; lm = dim(c); ln = kind ? lm : dim(c); if (lm < 1) lm = 1; if (ln < 1) ln = 1; if (kind) ln = lm; s = c.pr.next();
        c.D("parent %dx%d tiles %dx%d kind=%d", lm, ln, mb, nb, kind); c.tag("views");
    }
    void call(Ctx &c) override {
        plasma_desc_t D; Rng r(s); int uplo = r.p(0.5) ? PlasmaUpper : PlasmaLower;
        int st = kind ? plasma_desc_triangular_create(PTYPE, uplo, nb, nb, lm, lm, 0, 0, lm, lm, &D) : plasma_desc_general_create(PTYPE, mb, nb, lm, ln, 0, 0, lm, ln, &D);
        if (st) { c.info = st; c.fail("layout-create", "returned %d", st); return; }
        for (int t = 0; t < 60 && c.viols.empty(); t++) {
            plasma_desc_t V = D; int i = 0, j = 0, m = lm, n = ln, deep = r.range(1, 3);
            for (int d = 0; d < deep; d++) {
                bool al = r.p(0.3), off = r.p(0.8);
                int di = !off ? 0 : al ? std::min(m, r.range(0, m / mb) * mb) : r.range(0, m), dj = !off ? 0 : al ? std::min(n, r.range(0, n / nb) * nb) : r.range(0, n);
                int vm = r.p(0.5) ? m - di : r.range(0, m - di), vn = r.p(0.5) ? n - dj : r.range(0, n - dj);
                V = plasma_desc_view(V, di, dj, vm, vn); i += di; j += dj; m = vm; n = vn;
            }
            int mt = m ? (i + m - 1) / mb - i / mb + 1 : 0, nt = n ? (j + n - 1) / nb - j / nb + 1 : 0; c.evals++;
            if (V.i != i || V.j != j || V.m != m || V.n != n || V.gm != lm || V.gn != ln || V.mb != mb || V.nb != nb || V.type != D.type || V.precision != D.precision || V.matrix != D.matrix)
                { c.fail("desc-view", "the view of %dx%d at (%d,%d) says %dx%d at (%d,%d)", m, n, i, j, V.m, V.n, V.i, V.j); break; }
            if (V.mt != mt || V.nt != nt) { c.fail("desc-tiles", "the view of %dx%d at (%d,%d) lies in %dx%d tiles of %dx%d, it says %dx%d", m, n, i, j, mt, nt, mb, nb, V.mt, V.nt); break; }
            for (int y = 0; y < nt; y++) for (int x = 0; x < mt; x++) {
                int gx = x + i / mb, gy = y + j / nb; if (kind && (uplo == PlasmaUpper ? gx > gy : gx < gy)) continue;
                c.evals++;
                if (plasma_tile_addr(V, x, y) != plasma_tile_addr(D, gx, gy) || plasma_tile_mmain(V, x) != plasma_tile_mmain(D, gx) || plasma_tile_nmain(V, y) != plasma_tile_nmain(D, gy)) { c.fail("desc-view", "tile (%d,%d) of the view is not tile (%d,%d) of its parent", x, y, gx, gy); x = mt; y = nt; }
            }
            // the last tile ends where the view ends
            if (mt && i % mb == 0) { c.evals++; if (plasma_tile_mview(V, mt - 1) != m - (mt - 1) * mb) c.fail("desc-tiles", "the last tile row of the view has %d of %d rows", plasma_tile_mview(V, mt - 1), m - (mt - 1) * mb); }
            if (nt && j % nb == 0) { c.evals++; if (plasma_tile_nview(V, nt - 1) != n - (nt - 1) * nb) c.fail("desc-tiles", "the last tile column of the view has %d of %d columns", plasma_tile_nview(V, nt - 1), n - (nt - 1) * nb); }
        }
        plasma_desc_destroy(&D);
    }
    void check(Ctx &) override {}
};
REGOP(LayVw, "desc-view", F_LAYOUT)

// descriptors far larger than memory: only the addresses are looked at
struct LayBig : OpBase {
    int kind, nb, mb, lm, ln, kl = 0, ku = 0; uint64_t s;
    void setup(Ctx &c) override {
        kind = c.pr.range(0, 5); nb = c.pr.pick({16, 64, 100, 192, 256}); mb = kind == 0 && c.pr.p(0.3) ? 32 : nb;
        double u = c.pr.uni(); lm = c.pr.range(20000, u < 0.5 ? 70000 : 200000) ; ln = kind == 0 ? c.pr.range(20000, 200000) : lm; s = c.pr.next();
        if (kind >= 3) { // long and narrow: the border tiles alone pass 2^31 elements
            nb = c.pr.pick({100, 256, 512, 1000, 2500}); mb = kind < 5 && c.pr.p(0.3) ? c.pr.pick({64, 300, 2000}) : nb;
            int lng = (int)ldexp(1.0 + c.pr.uni(), c.pr.range(20, 29)), shrt = c.pr.range(1, 3 * std::max(mb, nb));
            if (kind == 3) { lm = shrt; ln = lng; } else if (kind == 4) { lm = lng; ln = shrt; }
            else { ln = (int)ldexp(1.0 + c.pr.uni(), c.pr.range(18, 26)); kl = c.pr.range(0, 3 * nb); ku = c.pr.range(0, 3 * nb); lm = ((ku + kl + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb; }
        }
        c.D("kind=%d %dx%d tiles %dx%d kl=%d ku=%d", kind, lm, ln, mb, nb, kl, ku); c.tag("big" + std::to_string(kind));
    }
    void call(Ctx &c) override {
        plasma_desc_t D; memset(&D, 0, sizeof D); Rng r(s); int st = 0;
        void *base = (void*)0x100000000000ull; bool tri = kind == 1 || kind == 2, band = kind == 5;
        if (tri) st = plasma_desc_triangular_init(PTYPE, kind == 1 ? PlasmaUpper : PlasmaLower, base, nb, nb, lm, lm, 0, 0, lm, lm, &D);
        else if (band) st = plasma_desc_general_band_init(PTYPE, PlasmaGeneral, base, nb, nb, lm, ln, 0, 0, ln, ln, kl, ku, &D);
        else st = plasma_desc_general_init(PTYPE, base, mb, nb, lm, ln, 0, 0, lm, ln, &D);
        if (st || plasma_desc_check(D)) { c.fail("desc-big", "descriptor refused"); return; }
        long q = lm / nb; size_t ne = tri ? (size_t)q * (q + 1) / 2 * nb * nb + (size_t)lm * (lm % nb) : (size_t)lm * ln;
        // tiles drawn at random and along the edges: extents disjoint and inside
        std::vector<std::pair<long, std::pair<long, std::pair<int,int>>>> ex; std::set<std::pair<int,int>> seen;
        auto draw = [&](int k) { return r.p(0.2) ? std::max(0, k - 1 - r.range(0, 1)) : r.range(0, k - 1); };
        for (int k = 0; k < 400; k++) {
            int m = draw(D.mt), n = draw(D.nt);
            if (kind == 1 && m > n) std::swap(m, n); if (kind == 2 && m < n) std::swap(m, n);
            if (band) { m = n + r.range(-(D.kut - 1), D.klt - 1); if (m < 0 || m >= D.mt) continue; }
            if (!seen.insert({m, n}).second) continue;
            if (k % 3 == 0 && m + 1 < D.mt && (kind != 1 || m + 1 <= n) && (!band || m + 1 - n < D.klt)) { seen.insert({m + 1, n}); }
        }
        for (auto &t : seen) {
            int rows = band ? plasma_tile_mmain_band(D, t.first, t.second) : plasma_tile_mmain(D, t.first);
            long a = ((char*)plasma_tile_addr(D, t.first, t.second) - (char*)base); long e = a + (long)rows * plasma_tile_nmain(D, t.second) * (long)sizeof(T);
            c.evals++;
            if (a < 0 || a % (long)sizeof(T) || e > (long)(ne * sizeof(T))) { c.fail("desc-big", "tile (%d,%d) occupies bytes %ld to %ld of %zu", t.first, t.second, a, e, ne * sizeof(T)); return; }
            ex.push_back({a, {e, t}});
        }
        std::sort(ex.begin(), ex.end());
        for (size_t k = 1; k < ex.size(); k++) if (ex[k].first < ex[k - 1].second.first) { c.fail("desc-big", "tiles (%d,%d) and (%d,%d) overlap", ex[k-1].second.second.first, ex[k-1].second.second.second, ex[k].second.second.first, ex[k].second.second.second); return; }
        if (kind < 3) dims(c, D);
        c.outs.push_back(1);
    }
    void check(Ctx &) override {}
};
REGOP(LayBig, "desc-big", F_LAYOUT)
}
