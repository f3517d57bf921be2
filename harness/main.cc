// VARIANT_AWARE
#include "run.h"
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <errno.h>
Args G; FILE *OUT; Stats ST;
static char *curmem;   // shared with the driver through a file
std::string jesc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; }
void report(const char *kind, const std::string &what, const std::string &key, const std::string &msg, const std::string &desc) {
    ST.n[std::string("v:") + kind]++;
    fprintf(OUT, "@@V {\"kind\":\"%s\",\"what\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\",\"case\":%ld}\n", kind, jesc(what).c_str(), jesc(key).c_str(), jesc(msg).c_str(), jesc(desc).c_str(), G.casei);
    fflush(OUT);
}
void note_case(const std::string &desc, bool nontrivial) {
    if (nontrivial) ST.distinct.insert(std::hash<std::string>()(desc));
    if (ST.samples < 3 && nontrivial && G.shard < 3) { ST.samples++; fprintf(OUT, "@@C %s\n", jesc(desc).c_str()); }
}
static void set_timer(int sec) {
#ifdef VARIANT_T
    struct itimerval it = {{0, 0}, {sec, 0}}; setitimer(ITIMER_REAL, &it, 0);
#else
    struct itimerval it = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &it, 0);
#endif
}
static void on_timer(int) { static const char m[] = "\nDEADLOCK time limit of the case\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
void start_case(const char *what, long i) {
    G.casei = i; ST.cases++;
    if (curmem) { snprintf(curmem, 4096, "{\"case\":%ld,\"what\":\"%s\"}", i, what); }
#if defined(VARIANT_A) || defined(VARIANT_R)
    set_timer(120);
#else
    set_timer(60);
#endif
}
// ---- Lua state accounting
extern "C" {
void *__real_luaL_newstate(void) __asm__("luaL_newstate"); void __real_lua_close(void *) __asm__("lua_close");
static int nlua = 0;
void *__wrap_luaL_newstate(void) { nlua++; return __real_luaL_newstate(); }
void __wrap_lua_close(void *L) { nlua--; __real_lua_close(L); }
}
int lua_states() { return nlua; }

std::vector<const OpDef*> select_ops() {
    std::vector<const OpDef*> v;
    for (auto &d : registry()) {
        if (G.prec.find(d.prec) == std::string::npos) continue;
        if (G.flags ? !(d.flags & G.flags) : (d.flags & F_ARGS) != 0) continue;
        if (!G.only.empty() && ("," + G.only + ",").find("," + d.name + ",") == std::string::npos) continue;
        if (!G.xonly.empty() && ("," + G.xonly + ",").find("," + d.name + ",") != std::string::npos) continue;
        if (G.want >= 1 && !(d.flags & F_FAIL)) continue;
        if (G.mode == "oom" && d.name == "flushed") continue;   // its sequence has failed before the call: the first failure stays
        v.push_back(&d);
    }
    std::sort(v.begin(), v.end(), [](const OpDef *a, const OpDef *b) { return a->name != b->name ? a->name < b->name : a->prec < b->prec; });
    return v;
}
void pick_schedule(Cfg &g, uint64_t s, const RunOpt &o, int flags) {
    Rng r(s ^ 0x7777);
    g.threads = r.p(0.15) ? 1 : r.p(0.6) ? r.range(2, 4) : r.range(5, 8);
    g.strat = r.range(0, 5); g.sseed = r.next(); g.preempt = r.p(0.5) ? 0 : r.range(3, 40);
    if (o.threads) g.threads = o.threads;
    if (o.strat >= 0) g.strat = o.strat;
    if (o.preempt >= 0) g.preempt = o.preempt;
    if (o.mtpf) g.mtpf = o.mtpf;
}
void lib_init(const Cfg &g, const RunOpt *o) {
    VompConfig v = {g.threads, g.sseed | 1, g.strat, g.preempt};
    vomp_configure(&v);
    plasma_init();
    plasma_set(PlasmaTuning, o && o->tune ? PlasmaEnabled : PlasmaDisabled);
    plasma_set(PlasmaNb, o && o->nb0 ? o->nb0 : g.nb); plasma_set(PlasmaIb, o && o->ib0 ? o->ib0 : g.ib); plasma_set(PlasmaNumPanelThreads, o && o->pt0 ? o->pt0 : g.mtpf);
    plasma_set(PlasmaHouseholderMode, g.tree ? PlasmaTreeHouseholder : PlasmaFlatHouseholder);
}
static void stackfill(int pat) { volatile char b[65536]; memset((char*)b, pat, sizeof b); }
static std::string sym(uintptr_t pc) { char b[32]; snprintf(b, 32, "0x%lx", (unsigned long)pc); return b; }
void run_case(const OpDef &d, uint64_t cseed, const RunOpt &o, CaseRun &r) {
    r.c = std::make_unique<Ctx>(cseed);
    Ctx &c = *r.c;
    c.junkmode = o.junkmode; c.zerodims = o.zerod; c.want = o.want;
    gencfg(c);
    pick_schedule(c.cfg, o.schedseed, o, d.flags);
    r.op.reset(d.make());
    c.desc.reserve(256);
    c.D("%c%s nb=%d ib=%d mtpf=%d tree=%d thr=%d strat=%d: ", d.prec, d.name.c_str(), c.cfg.nb, c.cfg.ib, c.cfg.mtpf, c.cfg.tree, c.cfg.threads, c.cfg.strat);
    r.op->setup(c);
    c.snapshot();
    mem_fill(o.fill);
    if (o.arm) mem_reset();
    if (o.init) {
        if (o.arm) mem_arm(1);
        lib_init(c.cfg, &o);
        mem_arm(0);
    } else { plasma_set(PlasmaNb, c.cfg.nb); plasma_set(PlasmaIb, c.cfg.ib); plasma_set(PlasmaNumPanelThreads, c.cfg.mtpf); plasma_set(PlasmaHouseholderMode, c.cfg.tree ? PlasmaTreeHouseholder : PlasmaFlatHouseholder); }
    if (o.race) race_enable(1);
    if (o.fill >= 0) stackfill(o.fill);
    if (o.arm) mem_arm(1);
    uint64_t kc0 = kernel_calls();
    r.op->call(c); c.called = true;
    mem_arm(0);
    if (o.race) race_enable(0);
    if (o.finalize) { if (o.arm) mem_arm(1); plasma_finalize(); mem_arm(0); }
    if (o.arm) {
        r.live = mem_live(); r.badfree = mem_bad_free();
        for (int i = 0; i < r.live && i < 6; i++) r.leaksites += sym(mem_live_site(i)) + " ";
    }
    r.hash = c.hash_out();
    note_case(c.desc, kernel_calls() > kc0 || c.outs.size());
    VompStats s; vomp_stats(&s); ST.orders.insert(s.order_hash);
    if (o.check) { c.frame(); r.op->check(c); }
    ST.evals += c.evals; for (auto &t : c.tags) ST.tags.insert(d.name + ":" + t);
}
static void flush_kargs(const OpDef &d, Ctx &c) {
    KArg k[32]; int n = karg_reports(k, 32);
    for (int i = 0; i < n; i++) report("karg", d.name, std::string("karg@") + sym(k[i].pc) + ":" + k[i].what, std::string(k[i].what) + ": " + k[i].detail + " from " + sym(k[i].pc), c.desc);
    uintptr_t site = 0; long over = mem_overruns(&site);
    if (over) report("karg", d.name, std::string("karg@") + sym(site) + ":overrun", "bytes behind a block allocated at " + sym(site) + " were written", c.desc);
}
static void flush_viols(const OpDef &d, Ctx &c) {
    for (auto &v : c.viols) report(v.kind.c_str(), d.name, d.name + ":" + v.kind, v.msg, c.desc);
    c.viols.clear();
}
// ------------------------------------------------------------------ modes
typedef void (*CaseFn)(const OpDef &, uint64_t);
static RunOpt dflt(uint64_t cs) {
    RunOpt o; Rng r(cs ^ 0xABCDEF);
    double u = r.uni(); o.junkmode = G.junkmode >= 0 ? G.junkmode : u < 0.35 ? 0 : u < 0.8 ? 1 : u < 0.9 ? 2 : 3;
    o.fill = r.pick({0xCB, 0xFF, 0x00, 0x7F});
    o.zerod = G.zero; o.want = r.p(G.want) ? 1 : 0; o.schedseed = mix(cs, 77);
    return o;
}
static void m_num(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); CaseRun r; run_case(d, cs, o, r); flush_viols(d, *r.c); flush_kargs(d, *r.c);
}
// hand a smaller cost class to the instrumented variants: same generator
static void m_race(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); o.race = true; o.fill = -1; Rng q(cs ^ 99);
    o.threads = q.p(0.5) ? q.range(2, 4) : q.range(5, 8); o.check = false; o.preempt = 0; o.strat = q.pick({2, 3, 4, 5, 2, 4});
    CaseRun r; run_case(d, cs, o, r);
    RaceReport b[64]; int n = race_reports(b, 64);
    for (int i = 0; i < n; i++) {
        char m[200]; snprintf(m, 200, "accesses at 0x%lx (thread %d) and 0x%lx (thread %d) of 0x%lx are unordered", (unsigned long)b[i].pc1, b[i].w1, (unsigned long)b[i].pc2, b[i].w2, (unsigned long)b[i].addr);
        report("race", d.name, "race@" + sym(b[i].pc1) + "@" + sym(b[i].pc2), m, r.c->desc);
    }
    n = late_reports(b, 64);
    for (int i = 0; i < n; i++) {
        char m[200]; snprintf(m, 200, "write at 0x%lx to 0x%lx by a task that started after its sequence had failed (%lu times)", (unsigned long)b[i].pc1, (unsigned long)b[i].addr, (unsigned long)b[i].count);
        report("late", d.name, "late@" + sym(b[i].pc1), m, r.c->desc);
    }
    { uint64_t t, w; late_stats(&t, &w); ST.n["late-tasks"] = t; ST.n["watched-writes"] = w; }
    flush_kargs(d, *r.c); r.c->viols.clear();
}
static void m_det(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); o.fill = 0xCB; o.check = false;
    uint64_t h0 = 0; int t0 = 0; std::string d0;
    int K = G.param ? G.param : 5;
    Rng q(cs ^ 4242);
    for (int k = 0; k < K; k++) {
        RunOpt p = o; p.schedseed = mix(cs, 1000 + k);
        // panel operations: enough threads for the number of panel ranks (which breaks ties between pivots) to be the configured one
        int lo = 1; if (d.flags & F_PANEL) { Ctx t(cs); gencfg(t); lo = t.cfg.mtpf == 1 ? 1 : 2 * t.cfg.mtpf; }
        if (k == 0) { p.threads = (d.flags & F_THREADDEP) ? 1 + q.range(1, 5) : lo; p.strat = 0; t0 = p.threads; }
        else if (d.flags & F_THREADDEP) p.threads = t0;
        else p.threads = k == 1 ? q.range(std::max(lo, 2), std::max(lo, 3)) : q.range(std::max(lo, 2), 8);
        if (k == K - 1) p.preempt = q.range(2, 12);
        CaseRun r; run_case(d, cs, p, r);
        ST.evals++;
        if (k == 0) { h0 = r.hash; d0 = r.c->desc; }
        else if (r.hash != h0) { report("nondet", d.name, d.name + ":nondet", "results differ from those of the run " + d0, r.c->desc); break; }
    }
    KArg kk[32]; karg_reports(kk, 32);
}
static void m_junk(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); o.fill = 0xCB; o.threads = 3; uint64_t h0 = 0;
    for (int k = 0; k < 4; k++) {
        RunOpt p = o; p.junkmode = k;
        CaseRun r; run_case(d, cs, p, r);
        for (auto &v : r.c->viols) if (v.kind.compare(0, 5, "frame") == 0) report(v.kind.c_str(), d.name, d.name + ":" + v.kind, v.msg, r.c->desc);
        r.c->viols.clear(); ST.evals++;
        if (k == 0) h0 = r.hash; else if (r.hash != h0) { char m[100]; snprintf(m, 100, "result depends on unreferenced memory (content %d against 0)", k); report("junk", d.name, d.name + ":junk", m, r.c->desc); break; }
    }
    KArg kk[32]; karg_reports(kk, 32);
}
static void m_fill(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); o.junkmode = 0; uint64_t h0 = 0; static const int pats[] = {0x00, 0xFF, 0x7F, 0x3C};
    for (int k = 0; k < 4; k++) {
        RunOpt p = o; p.fill = pats[k]; p.check = k == 1;
        CaseRun r; run_case(d, cs, p, r);
        ST.evals++;
        if (k == 1) { for (auto &v : r.c->viols) if (v.kind.compare(0, 5, "frame")) report("uninit", d.name, d.name + ":uninit", "wrong result when fresh memory holds not-a-numbers: " + v.msg, r.c->desc); r.c->viols.clear(); }
        if (k == 0) h0 = r.hash; else if (r.hash != h0) { char m[100]; snprintf(m, 100, "result differs when fresh memory is filled with 0x%02x instead of 0", pats[k]); report("uninit", d.name, d.name + ":uninit", m, r.c->desc); break; }
    }
    KArg kk[32]; karg_reports(kk, 32);
}
static void m_leak(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); int lua0 = lua_states(); o.check = false;
    CaseRun r; run_case(d, cs, o, r);
    ST.evals += mem_allocs(); ST.n["allocs"] += mem_allocs();
    if (r.live) report("leak", d.name, "leak@" + r.leaksites, "allocations left after the call and plasma_finalize, made at " + r.leaksites, r.c->desc);
    if (r.badfree) report("doublefree", d.name, d.name + ":doublefree", "memory released twice", r.c->desc);
    if (lua_states() != lua0) report("leak-lua", "init", "leak-lua", "a Lua state created by plasma_init is never closed", r.c->desc);
    KArg kk[32]; karg_reports(kk, 32);
}
// runs fn in a child with a pipe for its findings; returns exit status and text
template<class F> static int in_child(F fn, std::string &txt, int sec) {
    int fd[2]; if (pipe(fd)) return -1;
    fflush(OUT);
    pid_t p = fork();
    if (p == 0) { close(fd[0]); ST.samples = 99; OUT = fdopen(fd[1], "w"); set_timer(sec); int rc = fn(); fflush(OUT); _exit(rc); }
    close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) txt.append(b, n); close(fd[0]);
    int st; waitpid(p, &st, 0); return st;
}
static void m_oom(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); o.junkmode = 0; o.want = 0; Ctx::bare() = true;
    // count the allocations of a clean run
    long n0; { RunOpt p = o; p.check = false; CaseRun r; run_case(d, cs, p, r); n0 = mem_allocs(); }
    if (!n0) return;
    int K = G.param ? G.param : 6; Rng q(cs ^ 31337); std::set<long> ks;
    if (n0 <= K) for (long k = 1; k <= n0; k++) ks.insert(k); else { ks.insert(1); ks.insert(n0); while ((int)ks.size() < K) ks.insert(q.p(0.5) ? q.range(1, std::min<long>(n0, 12)) : q.range(1, n0)); }
    for (long k : ks) {
        std::string txt; ST.evals++; ST.n["faults"]++;
        int st = in_child([&]() -> int {
            Ctx *c = new Ctx(cs); CaseRun r; RunOpt p = o; p.check = false;
            c->junkmode = 0; gencfg(*c); pick_schedule(c->cfg, p.schedseed, p, d.flags);
            std::unique_ptr<OpBase> op(d.make()); op->setup(*c); c->snapshot();
            mem_fill(0xCB); mem_reset(); lib_init(c->cfg); mem_arm(1); mem_fail_at(k);
            op->call(*c); mem_arm(0); long f = mem_failed(); uintptr_t site = mem_fail_site();
            long live = mem_live(); std::string sites; for (int i = 0; i < live && i < 6; i++) sites += sym(mem_live_site(i)) + " ";
            long bad = mem_bad_free(); mem_fail_at(0);
            char key[64]; snprintf(key, 64, "@%s", sym(site).c_str());
            if (!f) return 0;
            bool isval = (d.flags & F_NORM) && !c->outs.empty();
            double val = isval ? (double)c->outs[0] : c->info;
            bool ok = val == PlasmaErrorOutOfMemory;
            if (!ok && (d.flags & F_MIX) && val == 0) { op->check(*c); ok = c->viols.empty(); }   // the single precision attempt had already failed, the fallback made up for it
            if (!ok) fprintf(OUT, "oom-status|%s|allocation %ld failed, the call returned %g\n", sym(site).c_str(), k, val);
            if (live) fprintf(OUT, "oom-leak|%s %s|allocation %ld failed, memory from %s is never released\n", sym(site).c_str(), sites.c_str(), k, sites.c_str());
            if (bad) fprintf(OUT, "oom-doublefree|%s|allocation %ld failed\n", sym(site).c_str(), k);
            fflush(OUT); plasma_finalize();
            // the library must remain usable
            RunOpt u = o; u.junkmode = 1; CaseRun r2; run_case(d, mix(cs, 5), u, r2);
            for (auto &v : r2.c->viols) { fprintf(OUT, "oom-after|%s|next call: %s %s\n", sym(site).c_str(), v.kind.c_str(), v.msg.c_str()); break; }
            return 0;
        }, txt, 30);
        size_t pos = 0; RunOpt p = o; note_case(std::string(1, d.prec) + d.name + " case " + std::to_string(cs) + " fault " + std::to_string(k), true); std::string desc = std::string(1, d.prec) + d.name + " fault " + std::to_string(k) + " of " + std::to_string(n0);
        while (pos < txt.size()) { size_t e = txt.find('\n', pos); std::string l = txt.substr(pos, e - pos); pos = e + 1; size_t a = l.find('|'), b = l.find('|', a + 1);
            if (b != std::string::npos) report(l.substr(0, a).c_str(), d.name, l.substr(0, a) + "@" + l.substr(a + 1, b - a - 1), l.substr(b + 1), desc); }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
            char m[100]; snprintf(m, 100, WIFSIGNALED(st) ? "crash (signal %d) after failed allocation %ld" : "exit/hang (%d) after failed allocation %ld", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), k);
            // the site is found again in a child that stops at the failure
            std::string t2; in_child([&]() -> int { return 0; }, t2, 5);
            report(WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "oom-hang" : "oom-crash", d.name, std::string(WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "oom-hang:" : "oom-crash:") + d.name, m, desc);
        }
    }
    KArg kk[32]; karg_reports(kk, 32);
}
static void m_hist(const OpDef &d, uint64_t cs) {
    static std::vector<const OpDef*> all; if (all.empty()) for (auto &x : registry()) all.push_back(&x);
    RunOpt o = dflt(cs); o.threads = 3; o.fill = 0xCB; o.want = 0;
    auto target = [&](bool init) -> uint64_t { CaseRun r; RunOpt p = o; p.init = init; p.finalize = init; p.arm = false; run_case(d, cs, p, r);
        for (auto &v : r.c->viols) if (v.kind.compare(0, 5, "frame")) { fprintf(OUT, "V|%s|%s\n", v.kind.c_str(), v.msg.c_str()); break; }
        return r.hash; };
    std::string a, b;
    int s1 = in_child([&]() -> int { uint64_t h = target(true); fprintf(OUT, "H%016lx\n", (unsigned long)h); return 0; }, a, 60);
    Rng q(cs ^ 1717); int L = q.range(2, 6); std::string hist;
    std::vector<std::pair<const OpDef*, uint64_t>> hs; std::vector<int> wants; std::vector<bool> re;
    for (int i = 0; i < L; i++) { const OpDef *x = q.p(0.4) ? &d : all[q.next() % all.size()]; hs.push_back({x, q.next()}); wants.push_back((x->flags & F_FAIL) && q.p(0.5)); re.push_back(q.p(0.4)); hist += std::string(1, x->prec) + x->name + (wants.back() ? "! " : " ") + (re.back() ? "R " : ""); }
    int s2 = in_child([&]() -> int {
        RunOpt p = o; Cfg g; g.threads = 3; lib_init(g);
        for (size_t i = 0; i < hs.size(); i++) {
            CaseRun r; RunOpt w = o; w.want = wants[i]; w.init = false; w.finalize = false; w.arm = false; w.check = false; w.schedseed = hs[i].second;
            run_case(*hs[i].first, hs[i].second, w, r);
            if (i % 2 == 0) { int x = -1; plasma_set(PlasmaNb, -3); plasma_get((plasma_enum_t)9999, &x); plasma_dgemm((plasma_enum_t)7, PlasmaNoTrans, 1, 1, 1, 1, 0, 1, 0, 1, 0, 0, 1); }
            if (re[i]) { plasma_finalize(); plasma_finalize(); lib_init(g); plasma_init(); }
        }
        // a fresh pick of the schedule, then the call
        Ctx t(cs); gencfg(t); pick_schedule(t.cfg, o.schedseed, o, d.flags); VompConfig v = {t.cfg.threads, t.cfg.sseed | 1, t.cfg.strat, t.cfg.preempt}; vomp_configure(&v);
        uint64_t h = target(false); fprintf(OUT, "H%016lx\n", (unsigned long)h); return 0; }, b, 60);
    ST.evals++; ST.n["history-calls"] += L;
    CaseRun r; std::string desc = std::string(1, d.prec) + d.name + " after " + hist; note_case(desc + std::to_string(cs), true);
    if (s1) { report("hist-base", d.name, d.name + ":hist-base", "the call alone crashed or hung", desc); return; }
    if (s2) { report("hist-crash", d.name, d.name + ":hist-crash", "crash or hang after the history", desc); return; }
    if (a != b) report("hist", d.name, d.name + ":hist", "the result depends on the calls made before", desc);
}
static void m_cfg(const OpDef &d, uint64_t cs) {
    // the same call class under configurations spread over the whole range (tile size far above the
    // matrix, inner block 1 or equal to the tile, more panel threads than tiles or threads, both trees)
    RunOpt o = dflt(cs); Rng q(cs ^ 2323); o.want = 0;
    CaseRun r;
    r.c.reset(new Ctx(cs));
    o.mtpf = q.pick({1, 2, 3, 5, 8}); o.threads = q.range(1, 8);
    run_case(d, cs, o, r); flush_viols(d, *r.c);
    for (auto &v : r.c->viols) (void)v;
    KArg kk[32]; karg_reports(kk, 32);
}
static void m_hang(const OpDef &d, uint64_t cs) {
    RunOpt o = dflt(cs); Rng q(cs ^ 909); o.check = false; o.junkmode = 0;
    if (d.flags & F_PANEL) o.mtpf = q.range(1, 8);
    o.threads = q.range(1, 8); if (d.flags & F_FAIL) o.want = q.p(0.35);
    o.preempt = q.p(0.5) ? q.range(1, 6) : 0;
    CaseRun r; run_case(d, cs, o, r); ST.evals++; r.c->viols.clear();
    VompStats s; vomp_stats(&s); ST.n["yields"] = s.yields; ST.n["tasks"] = s.tasks;
    KArg kk[32]; karg_reports(kk, 32);
}
static int run_ops(CaseFn fn) {
    auto v = select_ops();
    if (v.empty()) { fprintf(stderr, "no operations selected\n"); return 3; }
    if (G.casei >= 0) { G.start = G.casei; G.count = 1; G.shard = 0; G.nshards = 1; }
    for (long i = G.start; i < G.start + G.count; i++) {
        if (i % G.nshards != G.shard) continue;
        // every operation in every shard; independent of how the run is split, so that a case can be replayed
        long j = i / 8 + (i % 8) * 7;
        const OpDef &d = *v[j % v.size()];
        start_case((std::string(1, d.prec) + d.name).c_str(), i);
        fn(d, mix(mix(G.seed, 0xC0FFEE), i));
    }
    return 0;
}
static void emit_stats() {
    VompStats s; vomp_stats(&s);
    uint64_t a, b, c; race_stats(&a, &b, &c);
    fprintf(OUT, "@@S {\"cases\":%lu,\"evals\":%lu,\"kernel_calls\":%lu,\"tasks\":%lu,\"deps\":%lu,\"regions\":%lu,\"yields\":%lu,\"barriers\":%lu,\"orders\":%zu,\"race_accesses\":%lu,\"race_pairs\":%lu,\"skipped\":%lu,\"n\":{",
            (unsigned long)ST.cases, (unsigned long)ST.evals, (unsigned long)kernel_calls(), (unsigned long)s.tasks, (unsigned long)s.deps, (unsigned long)s.regions, (unsigned long)s.yields, (unsigned long)s.barriers, ST.orders.size(), (unsigned long)a, (unsigned long)b, (unsigned long)ST.skipped);
    bool f = true; for (auto &x : ST.n) { fprintf(OUT, "%s\"%s\":%lu", f ? "" : ",", x.first.c_str(), (unsigned long)x.second); f = false; }
    fprintf(OUT, "},\"tags\":["); f = true; for (auto &t : ST.tags) { fprintf(OUT, "%s\"%s\"", f ? "" : ",", jesc(t).c_str()); f = false; }
    fprintf(OUT, "]}\n");
    fprintf(OUT, "@@H"); for (uint64_t h : ST.distinct) fprintf(OUT, " %lx", (unsigned long)h); fprintf(OUT, "\n"); fflush(OUT);
}
int main(int argc, char **argv) {
    std::string cur;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--mode") G.mode = val(); else if (a == "--seed") G.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--start") G.start = atol(val().c_str()); else if (a == "--count") G.count = atol(val().c_str());
        else if (a == "--shard") G.shard = atoi(val().c_str()); else if (a == "--nshards") G.nshards = atoi(val().c_str());
        else if (a == "--case") G.casei = atol(val().c_str()); else if (a == "--flags") { G.flags = atoi(val().c_str()); Ctx::primary() = G.flags != 0; }
        else if (a == "--only") G.only = val(); else if (a == "--xonly") G.xonly = val(); else if (a == "--prec") G.prec = val(); else if (a == "--want") G.want = atof(val().c_str());
        else if (a == "--zero") G.zero = true; else if (a == "--param") G.param = atol(val().c_str()); else if (a == "--cur") cur = val();
        else if (a == "--file") G.file = val(); else if (a == "--junk") G.junkmode = atoi(val().c_str());
        else if (a == "--huge") Ctx::hugep() = atof(val().c_str()); else if (a == "--wide") Ctx::wide() = true; else if (a == "--exact") Ctx::exact_alloc() = true; else if (a == "--list") { for (auto &d : registry()) printf("%c%s %d\n", d.prec, d.name.c_str(), d.flags); return 0; }
    }
#ifdef VARIANT_A
    Ctx::exact_alloc() = true;
#endif
    // one BLAS thread: read by the library when it is loaded, hence the restart
    if (!getenv("OPENBLAS_NUM_THREADS") || strcmp(getenv("OPENBLAS_NUM_THREADS"), "1")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
    int fd = dup(1); OUT = fdopen(fd, "w");
    if (!getenv("VERIF_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
    if (!cur.empty()) { int f = open(cur.c_str(), O_RDWR | O_CREAT, 0644); if (f >= 0 && !ftruncate(f, 4096)) curmem = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0); }
    stack_t ss = {}; ss.ss_sp = malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, 0);
    struct sigaction sa = {}; sa.sa_handler = on_timer; sa.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &sa, 0); sigaction(SIGALRM, &sa, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int rc = 2;
    static const std::map<std::string, CaseFn> M = {{"num", m_num}, {"race", m_race}, {"det", m_det}, {"junk", m_junk}, {"fill", m_fill}, {"leak", m_leak}, {"oom", m_oom}, {"hist", m_hist}, {"cfg", m_cfg}, {"hang", m_hang}};
    auto it = M.find(G.mode);
    if (it != M.end()) rc = run_ops(it->second);
    else if (G.mode == "args") rc = mode_args();
    else if (G.mode == "seq") rc = mode_seq();
    else if (G.mode == "layout") rc = mode_layout();
    else if (G.mode == "tree") rc = mode_tree();
    else if (G.mode == "conf") rc = mode_conf();
    emit_stats();
    return rc;
}
