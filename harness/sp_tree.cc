// VARIANT_AWARE
// C30: the operation list of the reduction tree generators, judged by a state machine over the tiles.
#include "run.h"
extern "C" {
void plasma_tree_operations(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
// the individual generators are looked at as far as they are visible
#define W __attribute__((weak))
W void plasma_tree_flat_ts(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
W void plasma_tree_flat_tt(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
W void plasma_tree_binary(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
W void plasma_tree_greedy(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
W void plasma_tree_auto(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *);
W void plasma_tree_block_greedy(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *);
void GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int omp_get_thread_num(void);
}
typedef void (*Gen)(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
typedef void (*GenC)(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *);
struct Call { int kind, mt, nt, conc; int *ops; int n; plasma_sequence_t seq; plasma_request_t req; };
static const char *KN[] = {"operations", "flat_ts", "flat_tt", "binary", "greedy", "auto", "block_greedy"};
static bool have(int k) { switch (k) { case 0: return true; case 1: return plasma_tree_flat_ts; case 2: return plasma_tree_flat_tt; case 3: return plasma_tree_binary; case 4: return plasma_tree_greedy; case 5: return plasma_tree_auto; default: return plasma_tree_block_greedy; } }
static void invoke(Call &c) {
    switch (c.kind) {
    case 0: plasma_tree_operations(c.mt, c.nt, &c.ops, &c.n, &c.seq, &c.req); break;
    case 1: plasma_tree_flat_ts(c.mt, c.nt, &c.ops, &c.n, &c.seq, &c.req); break;
    case 2: plasma_tree_flat_tt(c.mt, c.nt, &c.ops, &c.n, &c.seq, &c.req); break;
    case 3: plasma_tree_binary(c.mt, c.nt, &c.ops, &c.n, &c.seq, &c.req); break;
    case 4: plasma_tree_greedy(c.mt, c.nt, &c.ops, &c.n, &c.seq, &c.req); break;
    case 5: plasma_tree_auto(c.mt, c.nt, &c.ops, &c.n, c.conc, &c.seq, &c.req); break;
    default: plasma_tree_block_greedy(c.mt, c.nt, &c.ops, &c.n, c.conc, &c.seq, &c.req);
    }
}
static void member(void *p) { if (omp_get_thread_num() == 0) { mem_arm(1); invoke(*(Call*)p); mem_arm(0); } }
static std::string fmt(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// the judge: empty when the list is a correct reduction
static std::string judge(const Call &c) {
    int mt = c.mt, nt = c.nt, k = std::min(mt, nt);
    // 0 full, 1 triangular, 2 annihilated
    std::vector<uint8_t> st((size_t)mt * k, 0);
    std::vector<int> done(mt, 0);      // number of leading columns in which the row has been annihilated
    auto S = [&](int i, int j) -> uint8_t & { return st[(size_t)j * mt + i]; };
    if (c.n < 0) return fmt("%d operations", c.n);
    if (c.n && !c.ops) return "no list";
    uint64_t nts = 0, ntt = 0;
    for (int o = 0; o < c.n; o++) {
        int kind = c.ops[4 * o], j = c.ops[4 * o + 1], i = c.ops[4 * o + 2], p = c.ops[4 * o + 3];
        ST.evals++;
        if (kind < 1 || kind > 3) return fmt("operation %d: unknown kernel %d", o, kind);
        if (j < 0 || j >= k) return fmt("operation %d: column %d outside the %d x %d grid", o, j, mt, nt);
        if (i < j || i >= mt) return fmt("operation %d: row %d is not below the diagonal of column %d (%d rows)", o, i, j, mt);
        if (done[i] != j) return fmt("operation %d: tile (%d,%d) used when %d columns of its row are annihilated", o, i, j, done[i]);
        if (kind == 1) {
            if (S(i, j)) return fmt("operation %d: tile (%d,%d) triangularized in state %d", o, i, j, S(i, j));
            S(i, j) = 1; continue;
        }
        if (p < j || p >= mt || p == i) return fmt("operation %d: pivot row %d for tile (%d,%d)", o, p, i, j);
        if (i == j) return fmt("operation %d: the diagonal tile %d is annihilated", o, i);
        if (p == mt - 1) return fmt("operation %d: pivot is the last tile row, which may be short", o);
        if (done[p] != j) return fmt("operation %d: pivot (%d,%d) used when %d columns of its row are annihilated", o, p, j, done[p]);
        if (S(p, j) != 1) return fmt("operation %d: pivot (%d,%d) in state %d", o, p, j, S(p, j));
        if (S(i, j) != (kind == 2 ? 1 : 0)) return fmt("operation %d: tile (%d,%d) annihilated by kernel %d in state %d", o, i, j, kind, S(i, j));
        S(i, j) = 2; done[i] = j + 1; (kind == 2 ? ntt : nts)++;
    }
    for (int j = 0; j < k; j++) {
        if (S(j, j) != 1) return fmt("diagonal tile %d is not triangular at the end", j);
        for (int i = j + 1; i < mt; i++) if (S(i, j) != 2) return fmt("tile (%d,%d) is not annihilated", i, j);
    }
    ST.n["annihilations-ts"] += nts; ST.n["annihilations-tt"] += ntt;
    return "";
}
static void one(int kind, int mt, int nt, int conc) {
    Call c = {}; c.kind = kind; c.mt = mt; c.nt = nt; c.conc = conc; c.ops = (int*)0x1; c.n = -77;
    plasma_sequence_init(&c.seq); plasma_request_init(&c.req);
    std::string desc = fmt("%s mt=%d nt=%d cores=%d", KN[kind], mt, nt, conc);
    VompConfig v = {kind == 0 ? conc : 1, 1, 0, 0};
    mem_reset(); mem_fill(0xCB);
    if (kind == 0) { vomp_configure(&v); GOMP_parallel(member, &c, conc, 0); }
    else { if (std::min(mt, nt) == 0) return; mem_arm(1); invoke(c); mem_arm(0); }
    std::string key = std::string("tree:") + KN[kind];
    std::string e;
    if (std::min(mt, nt) == 0) { if (c.n != 0) e = fmt("%d operations for an empty matrix", c.n); }
    else {
        uintptr_t site; const void *base; size_t sz;
        if (mem_overruns(&site)) e = "written behind the list";
        else if (c.seq.status || c.req.status) e = fmt("status %d, %d", (int)c.seq.status, (int)c.req.status);
        else if (c.ops == (int*)0x1) e = "no list";
        else if (mem_lookup(c.ops, &base, &sz) && (size_t)c.n * 16 > sz) e = "count exceeds the list";
        else e = judge(c);
        if (e.empty() && mem_live() > 1) e = fmt("%ld blocks allocated besides the list", mem_live() - 1);
        ST.n["operations"] += c.n > 0 ? c.n : 0;
    }
    if (!e.empty()) report("tree", KN[kind], key, e, desc);
    if (c.ops != (int*)0x1) { mem_forget(c.ops); free(c.ops); }
    note_case(desc, c.n > 0); ST.tags.insert(KN[kind]);
}
int mode_tree() {
    // Cases: an exhaustive part (all grids up to E x E, all core counts up to 16), then random larger ones.
    static const int E = 14, C = 16;
    long nex = (long)(E + 1) * (E + 1);
    if (G.casei >= 0) { G.start = G.casei; G.count = 1; G.shard = 0; G.nshards = 1; }
    for (long i = G.start; i < G.start + G.count; i++) {
        if (i % G.nshards != G.shard) continue;
        start_case("-tree", i);
        if (i < nex) {
            int mt = i / (E + 1), nt = i % (E + 1);
            for (int k = 0; k < 7; k++) if (have(k)) for (int c = 1; c <= (k == 0 || k >= 5 ? C : 1); c++) one(k, mt, nt, c);
            continue;
        }
        Rng r(mix(mix(G.seed, 0x7EEE), i));
        int u = r.range(0, 9), mt, nt;
        if (u < 4) { mt = r.range(1, 60); nt = r.range(1, 60); }
        else if (u < 6) { mt = r.range(1, 2000); nt = r.range(1, 6); }
        else if (u < 7) { mt = r.range(1, 6); nt = r.range(1, 2000); }
        else if (u < 9) { mt = r.range(20, 200); nt = r.range(20, 200); }
        else { mt = r.range(200, 500); nt = r.range(1, 40); }
        int conc = r.p(0.7) ? r.range(1, 32) : r.range(33, 1024);
        int k = r.p(0.4) ? 0 : r.range(1, 6);
        if (i % 400 == 399) { k = r.pick({0, 6}); mt = r.range(1300, 1900); nt = r.range(1300, 1900); }   // the estimate of the block size leaves the range of int
        if (k == 0) conc = r.range(1, 16);
        if (have(k)) one(k, mt, nt, conc);
    }
    return 0;
}
