// HARNESS_O2 VARIANT_AWARE
// A libgomp-ABI task runtime for one OS thread.  Team members are coroutines; the order in which
// ready tasks are executed, which member executes them, and where members are switched inside
// instrumented code are chosen by a seeded strategy.  Deadlocks are detected exactly (no member can
// proceed) or by the absence of any write, atomic update or task event over many yields.
#include "vomp.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <string>
#ifdef VARIANT_A
#include <sanitizer/common_interface_defs.h>
#endif

#ifdef VARIANT_T
// Real threads: libgomp provides everything; only the hooks and statistics live here (vomp_t.cc).
#else

typedef void (*fn_t)(void *);
typedef std::vector<uint32_t> VC;

struct Task;
struct Group { Group *prev; int pending = 0; VC vc; };
struct DepAddr { Task *out = nullptr; std::vector<Task*> in; bool mutex = false; };

struct Task {
    fn_t fn = nullptr; char *data = nullptr; void *mem = nullptr; size_t memsz = 0;
    Task *parent = nullptr; Group *group = nullptr, *curgroup = nullptr;
    int ndep = 0; int children = 0; bool done = false, started = false; int refs = 1;
    std::vector<Task*> succ;
    std::vector<Task*> preds_for_vc;
    std::unordered_map<uintptr_t, DepAddr> *deps = nullptr;
    uint64_t prio = 0; uint32_t id = 0; int worker = -1;
    uint32_t seg = 1; VC vc;           // race: vc[id] == seg
    VC childvc;                        // join of finished children
    bool late = false;                 // started (or its top-level ancestor) after the watched sequence had failed
};

struct Worker {
    ucontext_t ctx; char *stack = nullptr; int id = 0; bool finished = false;
    Task *cur = nullptr, *implicit = nullptr;
    bool waiting = false;   // blocked with nothing to run (taskwait / barrier / lock)
    unsigned single = 0; int barrier_gen = 0;
    uintptr_t low = ~(uintptr_t)0;     // lowest stack address the race monitor saw
    void *fake = nullptr;
};

static const size_t STACK = 2u << 20;
static VompConfig C = {4, 1, 2, 0};
static VompStats S;
static uint64_t rng = 88172645463325252ull;
static inline uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull >> 11; }

static std::vector<char*> stacks;
static std::vector<Worker> W;
static ucontext_t mainctx;
static Worker *cw = nullptr;           // running worker
static bool in_team = false;
static int team = 1;
static std::vector<Task*> ready;
static int live = 0;                   // tasks created, not finished
static int arrived = 0, bgen = 0, finished = 0;
static unsigned single_gen = 0;
static uint32_t next_id = 0;
static uint64_t progress = 0;
static uint64_t idle = 0;
static std::string deadlock_msg;
static bool race_on = false;
static void *main_fake; static const void *main_bottom; static size_t main_size;

extern "C" int omp_get_thread_num(void);

// ---------------------------------------------------------------- context switches
static void sw_to_main() {
    Worker *w = cw;
#ifdef VARIANT_A
    __sanitizer_start_switch_fiber(w->finished ? nullptr : &w->fake, main_bottom, main_size);
#endif
    swapcontext(&w->ctx, &mainctx);
#ifdef VARIANT_A
    __sanitizer_finish_switch_fiber(w->fake, &main_bottom, &main_size);
#endif
}
static void sw_to(Worker *w) {
    cw = w;
#ifdef VARIANT_A
    __sanitizer_start_switch_fiber(&main_fake, w->stack, STACK);
#endif
    swapcontext(&mainctx, &w->ctx);
#ifdef VARIANT_A
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    cw = nullptr;
}
static inline void yield_(bool waiting) {
    if (!cw) return;
    S.yields++;
    cw->waiting = waiting;
    sw_to_main();
    cw->waiting = false;
}

// ---------------------------------------------------------------- race monitor
static inline void vjoin(VC &a, const VC &b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i];
}
static std::vector<Task*> dummy;
struct TInfo { int worker; };
static std::vector<int> task_worker;   // by id
static void newseg(Task *t) {
    t->seg++;
    if (t->vc.size() <= t->id) t->vc.resize(t->id + 1, 0);
    t->vc[t->id] = t->seg;
}
static std::unordered_map<uintptr_t, VC> syncvc;
static const volatile int *late_status = nullptr; static std::vector<std::pair<uintptr_t, uintptr_t>> late_rng; static std::vector<RaceReport> late_rep; static uint64_t late_n, late_w;
extern "C" void late_watch(const volatile int *status, const void *const *p, const size_t *n, int k) { late_status = status; late_rng.clear(); for (int i = 0; i < k; i++) late_rng.push_back({(uintptr_t)p[i], (uintptr_t)p[i] + n[i]}); }
extern "C" int late_reports(RaceReport *o, int max) { int n = std::min<int>(max, late_rep.size()); for (int i = 0; i < n; i++) o[i] = late_rep[i]; late_rep.clear(); return n; }
extern "C" void late_stats(uint64_t *t, uint64_t *w) { *t = late_n; *w = late_w; }
#ifdef VARIANT_R
struct Ep { uint32_t task = 0, seg = 0; uintptr_t pc = 0; };
struct Cell { Ep w; Ep r[2]; uint8_t nr = 0; int ovf = -1; };
struct Page { uint64_t epoch = 0; Cell c[1024]; };
static std::unordered_map<uintptr_t, Page*> pages;
static uintptr_t lastpg = 0; static Page *lastp = nullptr;
static uint64_t region_epoch = 1;
static std::vector<std::vector<Ep>> overflow;
static std::vector<RaceReport> reports;
static uint64_t n_acc, n_pairs, n_maxt;

static inline Page *page(uintptr_t a, bool create) {
    uintptr_t p = a >> 12;
    Page *pg;
    if (p == lastpg && lastp) pg = lastp;
    else {
        auto it = pages.find(p);
        if (it == pages.end()) {
            if (!create) return nullptr;
            pg = new Page; pages[p] = pg;
        } else pg = it->second;
        lastpg = p; lastp = pg;
    }
    if (pg->epoch != region_epoch) {
        if (!create) return nullptr;
        pg->epoch = region_epoch;
        for (auto &c : pg->c) { c.w = Ep(); c.nr = 0; c.ovf = -1; }
    }
    return pg;
}
static inline bool hb(const Ep &e, Task *t) {
    return e.task < t->vc.size() && t->vc[e.task] >= e.seg;
}
static void report(const Ep &e, uintptr_t pc, uintptr_t a, Task *t) {
    for (auto &r : reports)
        if (r.pc1 == e.pc && r.pc2 == pc) { r.count++; return; }
    if (reports.size() < 64)
        reports.push_back({e.pc, pc, a, task_worker[e.task], t->worker, 1});
}
static inline bool conflict(const Ep &e, Task *t) {
    if (!e.seg) return false;
    if (e.task == t->id) return false;
    n_pairs++;
    if (hb(e, t)) return false;
    return task_worker[e.task] != t->worker;  // tied tasks of one thread never overlap
}
static void access1(uintptr_t a, bool wr, uintptr_t pc, Task *t) {
    Page *pg = page(a, true);
    Cell &c = pg->c[(a & 4095) >> 2];
    n_acc++;
    if (conflict(c.w, t)) report(c.w, pc, a, t);
    if (wr) {
        for (int i = 0; i < c.nr; i++) if (conflict(c.r[i], t)) report(c.r[i], pc, a, t);
        if (c.ovf >= 0) for (auto &e : overflow[c.ovf]) if (conflict(e, t)) report(e, pc, a, t);
        c.w = {t->id, t->seg, pc}; c.nr = 0; c.ovf = -1;
    } else {
        for (int i = 0; i < c.nr; i++) if (c.r[i].task == t->id || hb(c.r[i], t)) { c.r[i] = {t->id, t->seg, pc}; return; }
        if (c.nr < 2) { c.r[c.nr++] = {t->id, t->seg, pc}; return; }
        if (c.ovf < 0) { c.ovf = overflow.size(); overflow.emplace_back(); }
        for (auto &e : overflow[c.ovf]) if (e.task == t->id || hb(e, t)) { e = {t->id, t->seg, pc}; return; }
        overflow[c.ovf].push_back({t->id, t->seg, pc});
    }
}
static void late_write(uintptr_t a, uintptr_t e, uintptr_t pc) {
    for (auto &x : late_rng) if (a < x.second && e > x.first) {
        if (!cw->cur->late) { late_w++; return; }
        for (auto &r : late_rep) if (r.pc1 == pc) { r.count++; return; }
        if (late_rep.size() < 16) late_rep.push_back({pc, 0, a, cw->id, 0, 1});
        return;
    }
}
static inline void acc(const void *p, size_t n, bool wr, uintptr_t pc) {
    if (!race_on || !cw || !cw->cur) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    if (wr && late_status) late_write(a, e, pc);
    // own stack: remember how deep it was used, so that it can be forgotten at task end
    if (a >= (uintptr_t)cw->stack && a < (uintptr_t)cw->stack + STACK && a < cw->low) cw->low = a;
    for (a &= ~(uintptr_t)3; a < e; a += 4) access1(a, wr, pc, cw->cur);
}
extern "C" void race_range(const void *p, size_t n, int write, uintptr_t pc) { acc(p, n, write, pc); }
extern "C" void race_fresh(const void *p, size_t n) {
    if (!race_on) return;
    uintptr_t a = (uintptr_t)p & ~(uintptr_t)3, e = (uintptr_t)p + n;
    for (; a < e; ) {
        Page *pg = page(a, false);
        if (!pg) { a = (a | 4095) + 1; continue; }
        Cell &c = pg->c[(a & 4095) >> 2];
        c.w = Ep(); c.nr = 0; c.ovf = -1; a += 4;
    }
}
extern "C" int race_active(void) { return 1; }
extern "C" void race_enable(int on) { race_on = on; }
extern "C" int race_reports(RaceReport *o, int max) {
    int n = std::min<int>(max, reports.size());
    for (int i = 0; i < n; i++) o[i] = reports[i];
    reports.clear(); return n;
}
extern "C" void race_stats(uint64_t *a, uint64_t *b, uint64_t *c) { *a = n_acc; *b = n_pairs; *c = n_maxt; }
static void race_region_start() { region_epoch++; overflow.clear(); lastp = nullptr; }
#else
extern "C" void race_range(const void *, size_t, int, uintptr_t) {}
extern "C" void race_fresh(const void *, size_t) {}
extern "C" int race_active(void) { return 0; }
extern "C" void race_enable(int) {}
extern "C" int race_reports(RaceReport *, int) { return 0; }
extern "C" void race_stats(uint64_t *a, uint64_t *b, uint64_t *c) { *a = *b = *c = 0; }
static void race_region_start() {}
#endif

// ---------------------------------------------------------------- tasks
static VC allvc;                          // join of all tasks finished in this region
static void unref(Task *t) {
    if (--t->refs == 0) { delete t->deps; if (t->mem) free(t->mem); delete t; }
}
static Task *new_task(Task *parent) {
    Task *t = new Task;
    t->id = next_id++; t->parent = parent; t->prio = rnd();
    task_worker.push_back(-1);
    return t;
}
static bool pick_filter(Task *t, Task *only_children_of, Group *only_group) {
    if (only_children_of) return t->parent == only_children_of;
    if (only_group) return t->group == only_group;
    return true;
}
static Task *pick(Task *pch, Group *pg) {
    static std::vector<int> cand;
    cand.clear();
    for (size_t i = 0; i < ready.size(); i++) if (pick_filter(ready[i], pch, pg)) cand.push_back(i);
    if (cand.empty()) return nullptr;
    int k;
    switch (C.strategy) {
    case 0: k = 0; break;
    case 1: case 5: k = cand.size() - 1; break;
    case 3: { k = 0; for (size_t i = 1; i < cand.size(); i++) if (ready[cand[i]]->prio > ready[cand[k]]->prio) k = i; break; }
    default: k = rnd() % cand.size();
    }
    Task *t = ready[cand[k]];
    ready.erase(ready.begin() + cand[k]);
    return t;
}
static void finish(Task *t) {
    t->done = true; progress++;
    live--;
    for (Task *s : t->succ) {
        if (--s->ndep == 0) ready.push_back(s);
        unref(s);
    }
    t->succ.clear();
    Task *p = t->parent;
    if (p) { p->children--; if (race_on) { vjoin(p->childvc, t->vc); vjoin(allvc, t->vc); } unref(p); t->parent = nullptr; }
    if (t->group) { t->group->pending--; if (race_on) vjoin(t->group->vc, t->vc); }
    if (t->deps) { for (auto &d : *t->deps) { if (d.second.out) unref(d.second.out); for (auto x : d.second.in) unref(x); } t->deps->clear(); }
}
static void execute(Task *t) {
    Worker *w = cw;
    Task *save = w->cur;
    t->worker = w->id; task_worker[t->id] = w->id; t->started = true;
    S.tasks++; progress++;
    S.order_hash = (S.order_hash ^ (t->id + 1)) * 1099511628211ull + w->id;
    if (race_on) {
        for (Task *p : t->preds_for_vc) vjoin(t->vc, p->vc);
        if (t->vc.size() <= t->id) t->vc.resize(t->id + 1, 0);
        t->vc[t->id] = t->seg;
    }
    for (Task *p : t->preds_for_vc) unref(p);
    t->preds_for_vc.clear();
    if (late_status) { Task *p = t->parent; t->late = p && p->parent ? p->late : *late_status != 0; late_n += t->late; }
    w->cur = t;
    uintptr_t lowsave = w->low; w->low = ~(uintptr_t)0;
    t->fn(t->data);
    if (race_on && w->low != ~(uintptr_t)0) {
        uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
        if (w->low < sp) race_fresh((void*)w->low, sp - w->low);
    }
    w->low = std::min(w->low, lowsave);
    w->cur = save;
    finish(t);
    unref(t);
}
static void region_reset() {
    ready.clear(); live = 0; arrived = 0; bgen = 0; finished = 0; single_gen = 0;
    next_id = 0; task_worker.clear(); syncvc.clear(); allvc.clear(); S.order_hash = 14695981039346656037ull; idle = 0;
}

static void barrier_wait(bool final_) {
    Worker *w = cw;
    int gen = bgen;
    arrived++; progress++; S.barriers++;
    if (race_on) { static VC dummyvc; VC &b = syncvc[(uintptr_t)&arrived]; vjoin(b, w->cur->vc); newseg(w->cur); }
    for (;;) {
        if (bgen != gen) break;
        Task *t = pick(nullptr, nullptr);
        if (t) { execute(t); if (C.strategy >= 2 && (rnd() & 1)) yield_(false); continue; }
        if (arrived == team && live == 0) { arrived = 0; bgen++; progress++; break; }
        yield_(true);
    }
    if (race_on) {
        VC &b = syncvc[(uintptr_t)&arrived];
        vjoin(w->cur->vc, b); vjoin(w->cur->vc, w->cur->childvc); vjoin(w->cur->vc, allvc);
        for (auto &x : W) if (x.implicit) vjoin(w->cur->vc, x.implicit->childvc);
        newseg(w->cur);
    }
}

static fn_t region_fn; static void *region_data;
static void worker_main() {
    Worker *w = cw;
#ifdef VARIANT_A
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    w->cur = w->implicit;
    region_fn(region_data);
    barrier_wait(true);
    w->finished = true; finished++; progress++;
    sw_to_main();
    abort();
}
static void deadlock(const char *why) {
    char b[512];
    snprintf(b, sizeof b, "DEADLOCK %s: team=%d arrived=%d live=%d ready=%zu", why, team, arrived, live, ready.size());
    deadlock_msg = b;
    dprintf(2, "%s\n", b);
    dprintf(1, "\n@@HANG %s\n", b);
    _exit(77);
}
extern "C" const char *vomp_deadlock(void) { return deadlock_msg.c_str(); }

#ifdef VARIANT_A
// Code that busy-waits without a yield hook is interrupted when nothing has happened for a while.
#include <signal.h>
#include <sys/time.h>
extern "C" char __executable_start, etext;
static void tick(int, siginfo_t *, void *u) {
    static uint64_t lp, ly; static int same;
    uintptr_t pc = ((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP];
    if (!cw || pc < (uintptr_t)&__executable_start || pc >= (uintptr_t)&etext || lp != progress || ly != S.yields) { same = 0; lp = progress; ly = S.yields; return; }
    if (++same < 3) return;
    yield_(false); ly = S.yields;
}
static void start_ticks() {
    static bool on = false;
    if (on) return;
    on = true;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = tick; sa.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    itimerval t = {{0, 30000}, {0, 30000}}; setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
#else
static void start_ticks() {}
#endif
static void run_region(fn_t fn, void *data, int n) {
    start_ticks();
    region_reset();
    if (race_on) race_region_start();
    in_team = true; team = n; region_fn = fn; region_data = data;
    S.regions++;
    while ((int)stacks.size() < n) {
        char *s = (char*)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(s, 4096, PROT_NONE);
        stacks.push_back(s + 4096);
    }
    W.clear(); W.resize(n);
    for (int i = 0; i < n; i++) {
        Worker &w = W[i];
        w.id = i; w.stack = stacks[i];
        w.implicit = new_task(nullptr); w.implicit->worker = i; task_worker[w.implicit->id] = i;
    }
    for (int i = 0; i < n; i++) {
        Worker &w = W[i];
        if (race_on) { w.implicit->vc.assign(n, 0); w.implicit->vc[w.implicit->id] = w.implicit->seg; }
        getcontext(&w.ctx);
        w.ctx.uc_stack.ss_sp = w.stack; w.ctx.uc_stack.ss_size = STACK; w.ctx.uc_link = nullptr;
        makecontext(&w.ctx, (void(*)())worker_main, 0);
    }
    uint64_t last = progress;
    std::vector<int> cand;
    int rr = 0;
    while (finished < n) {
        cand.clear();
        bool anyrun = false;
        for (int i = 0; i < n; i++) if (!W[i].finished) { cand.push_back(i); }
        int k;
        if (C.strategy == 0) k = cand[rr++ % cand.size()];
        else k = cand[rnd() % cand.size()];
        sw_to(&W[k]);
        if (progress != last) { last = progress; idle = 0; }
        else if (++idle > 2000u * (uint64_t)n) {
            bool all = true;
            for (auto &w : W) if (!w.finished && !w.waiting) all = false;
            if (all) deadlock("no member can proceed");
            if (idle > 400000u) deadlock("members only spin");
        }
    }
    for (auto &w : W) {
        if (w.implicit->deps) { for (auto &d : *w.implicit->deps) { if (d.second.out) unref(d.second.out); for (auto x : d.second.in) unref(x); } }
        unref(w.implicit);
    }
#ifdef VARIANT_R
    n_maxt = std::max<uint64_t>(n_maxt, next_id);
    if (pages.size() > 60000) { for (auto &p : pages) delete p.second; pages.clear(); lastp = nullptr; }
#endif
    in_team = false; team = 1;
}

extern "C" {

void vomp_configure(const VompConfig *c) { C = *c; if (C.nthreads < 1) C.nthreads = 1; rng = c->seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng) rng = 1; for (int i = 0; i < 4; i++) rnd(); }
void vomp_stats(VompStats *s) { *s = S; }
void vomp_reset_stats(void) { S = VompStats(); }

void GOMP_parallel(fn_t fn, void *data, unsigned nt, unsigned flags) {
    if (in_team) {           // nested regions are serialized, as with libgomp's default
        Worker *w = cw; Task *save = w->cur;
        // tasks created inside become children of the current task; wait for them at the end
        fn(data);
        while (w->cur->children) { Task *t = pick(w->cur, nullptr); if (t) execute(t); else yield_(true); }
        w->cur = save;
        return;
    }
    int n = nt ? (int)nt : C.nthreads;
    run_region(fn, data, n);
}

static void add_dep(Task *t, uintptr_t a, bool out, Task *parent) {
    if (!parent->deps) parent->deps = new std::unordered_map<uintptr_t, DepAddr>;
    DepAddr &d = (*parent->deps)[a];
    S.deps++;
    auto edge = [&](Task *p) {
        if (p == t) return;
        if (race_on) { p->refs++; t->preds_for_vc.push_back(p); }
        if (!p->done) { p->succ.push_back(t); t->refs++; t->ndep++; S.edges++; }
    };
    if (out) {
        if (!d.in.empty()) { for (Task *p : d.in) edge(p); }
        if (d.out) edge(d.out);
        for (Task *p : d.in) unref(p);
        d.in.clear();
        if (d.out) unref(d.out);
        d.out = t; t->refs++;
    } else {
        if (d.out) edge(d.out);
        if (d.in.empty() || d.in.back() != t) { d.in.push_back(t); t->refs++; }
    }
}

static void depend_list(void **depend, std::vector<std::pair<uintptr_t,bool>> &v) {
    size_t nd, nout, nmx = 0, nin = 0; size_t base;
    if (depend[0]) { nd = (uintptr_t)depend[0]; nout = (uintptr_t)depend[1]; base = 2; nin = nd - nout; }
    else { nd = (uintptr_t)depend[1]; nout = (uintptr_t)depend[2]; nmx = (uintptr_t)depend[3]; nin = (uintptr_t)depend[4]; base = 5; }
    for (size_t i = 0; i < nd; i++) {
        uintptr_t a; bool out = i < nout + nmx;
        if (i < nout + nmx + nin) a = (uintptr_t)depend[base + i];
        else { uintptr_t *o = (uintptr_t*)depend[base + i]; a = o[0]; out = o[1] != 1; }
        v.push_back({a, out});
    }
    // one address given both as in and out counts as out (libgomp keeps both; same effect)
    std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y){ return x.first != y.first ? x.first < y.first : x.second > y.second; });
    v.erase(std::unique(v.begin(), v.end(), [](auto &x, auto &y){ return x.first == y.first; }), v.end());
}

static Task *make_task(fn_t fn, void *data, void (*cpyfn)(void*, void*), long size, long align) {
    Task *t = new_task(cw->cur);
    t->fn = fn;
    t->memsz = size + align + 16;
    t->mem = malloc(t->memsz);
    t->data = (char*)(((uintptr_t)t->mem + align - 1) / align * align);
    race_fresh(t->mem, t->memsz);
    if (cpyfn) cpyfn(t->data, data); else memcpy(t->data, data, size);
    return t;
}
static void link_new(Task *t, Group *g) {
    Task *p = cw->cur;
    p->children++; p->refs++; live++; progress++;
    t->group = g; if (g) g->pending++;
    if ((uint64_t)live > S.max_live) S.max_live = live;
    if (race_on) {
        t->vc = p->vc; if (t->vc.size() <= t->id) t->vc.resize(t->id + 1, 0);
        newseg(p);
    }
}

void GOMP_task(fn_t fn, void *data, void (*cpyfn)(void*, void*), long size, long align,
               bool if_clause, unsigned flags, void **depend, int priority, void *detach) {
    if (!cw) { // outside any region: run at once
        if (cpyfn) { char *b = (char*)malloc(size + align); char *d = (char*)(((uintptr_t)b + align - 1) / align * align); cpyfn(d, data); fn(d); free(b); }
        else fn(data);
        return;
    }
    Task *parent = cw->cur;
    Task *t = make_task(fn, data, cpyfn, size, align ? align : 1);
    link_new(t, parent->curgroup ? parent->curgroup : parent->group);
    if (flags & 8) {
        std::vector<std::pair<uintptr_t,bool>> v;
        depend_list(depend, v);
        for (auto &d : v) add_dep(t, d.first, d.second, parent);
    }
    if (!if_clause || (flags & 2 && 0)) {
        while (t->ndep) { // run other children until the dependences are met
            Task *o = pick(parent, nullptr);
            if (o) execute(o); else yield_(true);
        }
        auto it = std::find(ready.begin(), ready.end(), t);
        if (it != ready.end()) ready.erase(it);
        execute(t);
        if (race_on) { vjoin(parent->vc, parent->childvc); }
        return;
    }
    if (t->ndep == 0) ready.push_back(t);
    // eager strategies let other members start before the creator goes on
    if (C.strategy >= 4 || (C.strategy == 3 && (rnd() & 7) == 0) || (C.strategy == 2 && (rnd() & 15) == 0)) {
        int k = C.strategy >= 4 ? 1 + rnd() % 3 : 1;
        while (k--) yield_(false);
    }
}

static void wait_children(Task *me) {
    while (me->children) {
        Task *t = pick(me, nullptr);
        if (t) execute(t); else yield_(true);
    }
    if (race_on) { vjoin(me->vc, me->childvc); newseg(me); }
}
void GOMP_taskwait(void) { if (!cw) return; S.taskwaits++; wait_children(cw->cur); }
void GOMP_taskwait_depend(void **) { GOMP_taskwait(); }
void GOMP_taskyield(void) { if (cw) yield_(false); }
void GOMP_taskgroup_start(void) { if (!cw) return; Group *g = new Group; g->prev = cw->cur->curgroup; cw->cur->curgroup = g; }
void GOMP_taskgroup_end(void) {
    if (!cw) return;
    Task *me = cw->cur; Group *g = me->curgroup;
    while (g->pending) {
        Task *t = pick(nullptr, g);
        if (t) execute(t); else yield_(true);
    }
    if (race_on) { vjoin(me->vc, g->vc); newseg(me); }
    me->curgroup = g->prev;
    delete g;
}
void GOMP_taskloop(fn_t fn, void *data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags,
                   unsigned long num_tasks, int priority, long start, long end, long step) {
    bool nogroup = flags & (1 << 11), grainsize = flags & (1 << 9), strict = flags & (1 << 14);
    bool if_clause = flags & (1 << 10);
    if (step > 0 ? start >= end : start <= end) return;
    unsigned long n = step > 0 ? (end - start + step - 1) / step : (start - end - step - 1) / -step;
    unsigned long nt = num_tasks;
    if (grainsize) { unsigned long g = num_tasks ? num_tasks : 1; nt = n / g; if (!nt) nt = 1; }
    else if (nt == 0) nt = in_team ? team : 1;
    if (nt > n) nt = n;
    if (!nogroup) GOMP_taskgroup_start();
    unsigned long q = n / nt, r = n % nt;
    long s = start;
    for (unsigned long i = 0; i < nt; i++) {
        long cnt = q + (i < r);
        long e = s + cnt * step;
        if (i == nt - 1) e = end;
        if (!cw || !if_clause) {
            char *b = (char*)malloc(size + align); char *d = (char*)(((uintptr_t)b + align - 1) / align * align);
            if (cpyfn) cpyfn(d, data); else memcpy(d, data, size);
            ((long*)d)[0] = s; ((long*)d)[1] = e;
            fn(d); free(b);
        } else {
            Task *t = make_task(fn, data, cpyfn, size, align ? align : 1);
            ((long*)t->data)[0] = s; ((long*)t->data)[1] = e;
            Task *p = cw->cur;
            link_new(t, p->curgroup ? p->curgroup : p->group);
            ready.push_back(t);
        }
        s = e;
    }
    if (!nogroup) GOMP_taskgroup_end();
}
void GOMP_barrier(void) { if (cw) barrier_wait(false); }
bool GOMP_single_start(void) {
    if (!cw) return true;
    unsigned mine = ++cw->single;
    if (mine > single_gen) { single_gen = mine; return true; }
    return false;
}
// locks -----------------------------------------------------------------
static std::unordered_map<uintptr_t, Worker*> held;
static void lock_(uintptr_t a) {
    if (!cw) return;
    if (C.strategy >= 2 && (rnd() & 3) == 0) yield_(false);
    while (held[a]) yield_(true);
    held[a] = cw; progress++;
    if (race_on) { vjoin(cw->cur->vc, syncvc[a]); }
}
static void unlock_(uintptr_t a) {
    if (!cw) return;
    if (race_on) { vjoin(syncvc[a], cw->cur->vc); newseg(cw->cur); }
    held[a] = nullptr; progress++;
    if (C.strategy >= 2 && (rnd() & 3) == 0) yield_(false);
}
void GOMP_critical_start(void) { lock_(1); }
void GOMP_critical_end(void) { unlock_(1); }
void GOMP_critical_name_start(void **p) { lock_((uintptr_t)p); }
void GOMP_critical_name_end(void **p) { unlock_((uintptr_t)p); }
void GOMP_atomic_start(void) { lock_(2); }
void GOMP_atomic_end(void) { unlock_(2); }
void omp_init_lock(void *p) {}
void omp_destroy_lock(void *p) {}
void omp_set_lock(void *p) { lock_((uintptr_t)p); }
void omp_unset_lock(void *p) { unlock_((uintptr_t)p); }
int omp_test_lock(void *p) { if (cw && held[(uintptr_t)p]) return 0; lock_((uintptr_t)p); return 1; }
// API --------------------------------------------------------------------
int omp_get_thread_num(void) { return cw ? cw->id : 0; }
int omp_get_num_threads(void) { return in_team ? team : 1; }
int omp_get_max_threads(void) { return C.nthreads; }
int omp_in_parallel(void) { return in_team && team > 1; }
void omp_set_num_threads(int n) { if (n > 0) C.nthreads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_get_level(void) { return in_team; }
int omp_get_active_level(void) { return in_team && team > 1; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_in_final(void) { return 0; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int sched_yield(void) { if (cw) yield_(false); return 0; }

// worksharing loops ------------------------------------------------------
struct Loop { long next, end, incr, chunk; int gen; };
static Loop L; static int loop_users = 0; static std::vector<int> loop_seen;
static bool loop_start(long s, long e, long i, long c, long *is, long *ie) {
    // one shared descriptor per dynamic loop; members that arrive after its end see it exhausted
    if (loop_users == 0) { L = {s, e, i, c > 0 ? c : 1, 0}; }
    loop_users++;
    if (L.incr > 0 ? L.next >= L.end : L.next <= L.end) return false;
    *is = L.next; L.next += L.chunk * L.incr; *ie = L.incr > 0 ? std::min(L.next, L.end) : std::max(L.next, L.end);
    progress++;
    return true;
}
static bool loop_next(long *is, long *ie) {
    if (cw && C.strategy >= 2) yield_(false);
    if (L.incr > 0 ? L.next >= L.end : L.next <= L.end) return false;
    *is = L.next; L.next += L.chunk * L.incr; *ie = L.incr > 0 ? std::min(L.next, L.end) : std::max(L.next, L.end);
    progress++;
    return true;
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return loop_next(a, b); }
void GOMP_loop_end_nowait(void) { if (++L.gen >= (in_team ? team : 1)) { loop_users = 0; } }
void GOMP_loop_end(void) { if (++L.gen >= (in_team ? team : 1)) loop_users = 0; GOMP_barrier(); }
void GOMP_parallel_loop_nonmonotonic_dynamic(fn_t fn, void *data, unsigned nt, long s, long e, long i, long c, unsigned flags) {
    loop_users = 1; L = {s, e, i, c > 0 ? c : 1, 0};
    GOMP_parallel(fn, data, nt, flags); loop_users = 0;
}
void GOMP_parallel_loop_dynamic(fn_t fn, void *data, unsigned nt, long s, long e, long i, long c, unsigned flags) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, nt, s, e, i, c, flags); }
void GOMP_parallel_loop_nonmonotonic_guided(fn_t fn, void *data, unsigned nt, long s, long e, long i, long c, unsigned flags) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, nt, s, e, i, c, flags); }

// ---------------------------------------------------------------- compiler hooks
#define PC ((uintptr_t)__builtin_return_address(0))
static inline void maybe_yield() { if (cw && C.preempt && rnd() % C.preempt == 0) yield_(false); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#ifdef VARIANT_R
#define ACC(p, n, w) acc(p, n, w, PC)
#else
#define ACC(p, n, w) maybe_yield()
#endif
#define RW(N) \
void __tsan_read##N(void *p) { ACC(p, N, false); } \
void __tsan_write##N(void *p) { ACC(p, N, true); } \
void __tsan_unaligned_read##N(void *p) { ACC(p, N, false); } \
void __tsan_unaligned_write##N(void *p) { ACC(p, N, true); } \
void __tsan_volatile_read##N(void *p) { vol(p, false); } \
void __tsan_volatile_write##N(void *p) { vol(p, true); } \
void __tsan_unaligned_volatile_read##N(void *p) { vol(p, false); } \
void __tsan_unaligned_volatile_write##N(void *p) { vol(p, true); }
static inline void vol(void *p, bool wr) {
    if (!cw) return;
    if (wr) progress++;
    // the switch comes before the access, so that another member's update can be seen by it
    if (!wr || (rnd() & 3) == 0) yield_(false);
    if (race_on) {
        Task *t = cw->cur;
        if (wr) { vjoin(syncvc[(uintptr_t)p], t->vc); newseg(t); }
        else { auto it = syncvc.find((uintptr_t)p); if (it != syncvc.end()) vjoin(t->vc, it->second); }
    }
}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { ACC(p, n, false); }
void __tsan_write_range(void *p, size_t n) { ACC(p, n, true); }
static inline void rmw(volatile void *p, bool isCas = false) {
    if (!cw) return;
    if (!isCas) progress++;
    if (rnd() & 1) yield_(false);
    if (race_on) { Task *t = cw->cur; VC &v = syncvc[(uintptr_t)p]; vjoin(t->vc, v); vjoin(v, t->vc); newseg(t); }
}
static inline void ald(const volatile void *p) {
    if (!cw) return;
    yield_(false);
    if (race_on) { auto it = syncvc.find((uintptr_t)p); if (it != syncvc.end()) vjoin(cw->cur->vc, it->second); }
}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { ald(p); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { rmw(p); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { rmw(p); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { rmw(p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { rmw(p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { rmw(p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { rmw(p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { rmw(p); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { rmw(p); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { rmw(p, true); if (*p == *e) { *p = v; progress++; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { rmw(p, true); if (*p == *e) { *p = v; progress++; return 1; } *e = *p; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { rmw(p, true); T o = *p; if (o == e) { *p = v; progress++; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern C
#endif // !VARIANT_T
