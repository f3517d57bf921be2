// VARIANT_AWARE
// C28: settings against a model; the tuning script against what is asked of it; results under tuning against results under the same settings made directly.
#include "run.h"
#include <sys/mman.h>
#include <climits>
#include <algorithm>
extern "C" { void GOMP_parallel(void (*)(void *), void *, unsigned, unsigned); int omp_get_thread_num(void); int omp_get_max_threads(void); }
static std::string fmt(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const int PAR[5] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
static const char *PN[5] = {"tuning", "nb", "ib", "panel threads", "Householder mode"};
static const int DEF[5] = {PlasmaEnabled, 256, 64, 1, PlasmaFlatHouseholder};
static const int ODD[] = {0, -1, 1, 2, 3, 255, 256, INT_MAX, INT_MIN, -256, PlasmaEnabled, PlasmaDisabled, PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaInplaceOutplace, PlasmaNumPanelThreads, PlasmaHouseholderMode, PlasmaFlatHouseholder, PlasmaTreeHouseholder, PlasmaInplace, PlasmaOutplace, PlasmaNoTrans, PlasmaUpper};
static int odd(Rng &r) { return r.p(0.8) ? ODD[r.range(0, sizeof ODD / sizeof *ODD - 1)] : r.range(-5000, 5000); }
static bool valid(int p, int v) { return p == 0 ? v == PlasmaEnabled || v == PlasmaDisabled : p == 4 ? v == PlasmaFlatHouseholder || v == PlasmaTreeHouseholder : v > 0; }
struct Fn { std::function<void()> f; };
static void tramp(void *p) { if (omp_get_thread_num() == 0) ((Fn*)p)->f(); }
// ------------------------------------------------------------------ histories of settings
static void history(Rng r) {
    unsetenv("PLASMA_TUNING_FILENAME");
    while (plasma_finalize() == PlasmaSuccess) {}
    bool init = false; int mod[5]; std::copy(DEF, DEF + 5, mod);
    VompConfig v = {r.range(2, 4), r.next() | 1, r.range(0, 5), 0}; vomp_configure(&v);   // (a region of one thread is no parallel region)
    int L = r.range(4, 60); std::string hist, e, key;
    for (int s = 0; s < L && e.empty(); s++) {
        int u = r.range(0, 19), p = r.range(0, 4), x = odd(r), rc; bool in = r.p(0.15);
        auto doit = [&](std::function<int()> f) { int q = 0; if (!in) return f(); Fn fn{[&] { q = f(); }}; GOMP_parallel(tramp, &fn, 0, 0); return q; };
        hist += in ? " |" : " ";
        if (u < 3) {
            rc = doit([] { return plasma_init(); }); hist += "init";
            bool ok = !init && !in;
            if ((rc == PlasmaSuccess) != ok) { e = fmt("plasma_init returns %d", rc); key = "init"; }
            if (ok) { init = true; std::copy(DEF, DEF + 5, mod); }
        } else if (u < 4) {
            rc = doit([] { return plasma_finalize(); }); hist += "finalize"; bool ok = init && !in;
            if (ok ? rc != PlasmaSuccess : !init ? rc != PlasmaErrorNotInitialized : rc != PlasmaErrorEnvironment) { e = fmt("plasma_finalize returns %d", rc); key = "finalize"; }
            if (ok) init = false;
        } else if (u < 15) {
            if (u < 10) x = p == 0 ? r.pick({(int)PlasmaEnabled, (int)PlasmaDisabled}) : p == 4 ? r.pick({(int)PlasmaFlatHouseholder, (int)PlasmaTreeHouseholder}) : r.p(0.8) ? r.range(1, 600) : r.pick({1, INT_MAX, 1 << 20});
            rc = doit([&] { return plasma_set((plasma_enum_t)PAR[p], x); }); hist += fmt("set(%s,%d)", PN[p], x);
            int want = !init ? PlasmaErrorNotInitialized : in ? PlasmaErrorEnvironment : valid(p, x) ? PlasmaSuccess : PlasmaErrorIllegalValue;
            if (rc != want) { e = fmt("plasma_set returns %d instead of %d", rc, want); key = std::string("set ") + PN[p]; }
            if (want == PlasmaSuccess) mod[p] = x;
        } else if (u < 17) {
            int q = odd(r); if (std::find(PAR, PAR + 5, q) != PAR + 5) q = -77;
            int y = 4711, rc2; rc = doit([&] { return plasma_set((plasma_enum_t)q, x); }); rc2 = doit([&] { return plasma_get((plasma_enum_t)q, &y); }); hist += fmt("unknown(%d)", q);
            if (rc == PlasmaSuccess || rc2 == PlasmaSuccess || y != 4711) { e = fmt("unknown parameter: set returns %d, get %d", rc, rc2); key = "unknown parameter"; }
        } else if (init) {
            // a call, valid or not, leaves the settings alone
            double a[4] = {1, 2, 3, 4}, b[4] = {1, 0, 0, 1}, c[4] = {0, 0, 0, 0}; int bad = u == 17;
            Cfg g; bool sane = mod[1] <= 4096;
            if (sane) {
                rc = plasma_dgemm(bad ? PlasmaUpper : PlasmaNoTrans, PlasmaNoTrans, 2, 2, 2, 1, a, 2, b, 2, 0, c, 2); hist += "gemm";
                if (bad ? rc != -1 : rc != 0 || memcmp(a, c, sizeof a)) { e = fmt("gemm returns %d", rc); key = "gemm"; }
            }
        }
        for (int q = 0; q < 5 && e.empty(); q++) {
            int y = 4711; bool inr = r.p(0.1); Fn fn{[&] { rc = plasma_get((plasma_enum_t)PAR[q], &y); }}; rc = 99;
            if (inr) GOMP_parallel(tramp, &fn, 0, 0); else fn.f();
            ST.evals++;
            if (!init ? rc != PlasmaErrorNotInitialized || y != 4711 : rc != PlasmaSuccess || y != mod[q]) { e = fmt("plasma_get(%s) returns %d and %d instead of %d", PN[q], rc, y, init ? mod[q] : 4711); key = std::string("get ") + PN[q]; }
        }
    }
    plasma_finalize();
    std::string d = "settings:" + (hist.size() > 220 ? "..." + hist.substr(hist.size() - 220) : hist);
    if (!e.empty()) report("conf", "settings", "conf:" + key, e, d);
    note_case(d + std::to_string(r.next()), true);
}
// ------------------------------------------------------------------ the tuning script
static int fdS = -1, fdL = -1;
static void script(const std::string &s) { if (fdS < 0) { fdS = memfd_create("tuning", 0); fdL = memfd_create("log", 0); } if (ftruncate(fdS, 0) || lseek(fdS, 0, SEEK_SET) || write(fdS, s.data(), s.size()) != (ssize_t)s.size()) abort(); if (ftruncate(fdL, 0)) abort(); setenv("PLASMA_TUNING_FILENAME", fmt("/proc/self/fd/%d", fdS).c_str(), 1); }
static std::vector<std::string> log() { std::vector<std::string> v; std::string s; char b[4096]; ssize_t n; lseek(fdL, 0, SEEK_SET); while ((n = read(fdL, b, sizeof b)) > 0) s.append(b, n); size_t p = 0, e; while ((e = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, e - p)); p = e + 1; } if (ftruncate(fdL, 0)) abort(); return v; }
// the shipped script, each function wrapped to record its arguments and to return the wanted value; what is missing is recorded
static std::string wrap(int nb, int ib, int pt) {
    const char *repo = getenv("VERIF_REPO");
    return fmt("local V = {_nb=%d, _ib=%d, _max_panel_threads=%d}\n", nb, ib, pt) + fmt("local P = '/proc/self/fd/%d'\n", fdL) +
        "local before = {} for k in pairs(_G) do before[k] = true end\n"
        "dofile('" + std::string(repo ? repo : "/repo") + "/tuning/default.lua')\n"
        "local function put(s) local f = io.open(P, 'a') f:write(s, '\\n') f:close() end\n"
        "for k, f in pairs(_G) do if type(f) == 'function' and not before[k] then\n"
        "  local v = 1 for s, x in pairs(V) do if #k > #s and k:sub(-#s) == s then v = x end end\n"
        "  _G[k] = function(...) local t = {...} for i = 1, #t do t[i] = tostring(t[i]) end local o = f(...) put(k .. ' ' .. table.concat(t, ' ') .. ' ' .. math.type(o)) return v end\n"
        "end end\n"
        "setmetatable(_G, {__index = function(_, k) put('missing ' .. tostring(k)) return nil end})\n";
}
// values which depend on the function asked and on the dimensions it is told of; the functions in the list keep nb and ib
static std::string varying(int nb, int ib, int maxnb, bool bigib, const char *fixed) {
    return fmt("local NB, IB, M, BIG, FIXED = %d, %d, %d, %s, '%s'\n", nb, ib, maxnb, bigib ? "true" : "false", fixed) +
        "local function h(s) local x = 5381 for i = 1, #s do x = (x * 33 + s:byte(i)) & 0xffffff end return x end\n"
        "setmetatable(_G, {__index = function(_, k)\n"
        "  local b, what = k:match('^([^_]*)_(.*)$')\n"
        "  if FIXED == '*' or (FIXED ~= '' and b == FIXED) then return function() return what == 'nb' and NB or what == 'ib' and IB or 1 end end\n"
        "  return function(...) local x = h(b .. table.concat({...}, ',') .. tostring(NB)) local nb = 1 + x % M\n"
        "    if what == 'nb' then return nb elseif what == 'ib' then return 1 + (x // 7) % (BIG and nb * 2 or nb) else return 1 + (x // 11) % 4 end end\n"
        "end})\n";
}
static const char *BAD[] = {
    "", "this is not lua (", "error('no')", "return 5",
    "setmetatable(_G, {__index = function(_, k) return function() error('broken ' .. k) end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return 0 end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return -7 end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return 0/0 end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return 1e300 end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return 2^32 + 3 end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return 'many' end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return {} end end})",
    "setmetatable(_G, {__index = function(_, k) return function() return nil end end})",
    "setmetatable(_G, {__index = function(_, k) return 'not a function' end})",
};
// what each operation of the harness asks the script for (routine by routine, from the routines' documentation of tuning)
#include "conf_table.inc"
static void tuned(const OpDef &d, uint64_t cs) {
    Rng q(cs ^ 8181);
    RunOpt o; o.schedseed = mix(cs, 77); o.fill = 0xCB; o.arm = false; o.junkmode = 1;
    unsetenv("PLASMA_TUNING_FILENAME");
    CaseRun a; run_case(d, cs, o, a); Cfg g = a.c->cfg; std::string desc = a.c->desc;
    for (auto &v : a.c->viols) { report("conf", d.name, d.name + ":conf-direct", "with the settings made directly: " + v.msg, desc); a.c->viols.clear(); return; }
    ST.evals += 3;
    int kind = q.range(0, 4);
    if (kind == 4) {   // a script which must not be asked, for tuning is disabled
        if (fdL < 0) script("");
        script(wrap(2 * g.nb + 3, g.ib + 1, g.mtpf % 4 + 1));
        RunOpt p = o; p.finalize = false; CaseRun r; run_case(d, cs, p, r); ST.n["disabled"]++;
        int y[5]; for (int k = 0; k < 5; k++) plasma_get((plasma_enum_t)PAR[k], &y[k]);
        plasma_finalize(); r.c->viols.clear();
        auto l = log();
        if (!l.empty()) report("conf", d.name, d.name + ":conf-disabled", "tuning is disabled, but the script is asked for [" + l[0] + "]", desc);
        else if (y[0] != PlasmaDisabled || y[1] != g.nb || y[2] != g.ib || y[3] != g.mtpf) report("conf", d.name, d.name + ":conf-disabled", fmt("tuning is disabled, but after the call nb=%d ib=%d panel threads=%d", y[1], y[2], y[3]), desc);
        else if (r.hash != a.hash) report("conf", d.name, d.name + ":conf-disabled", "tuning is disabled, but the script changes the result", desc);
        return;
    }
    if (kind == 0) {   // a script that is missing or broken
        int b = q.range(0, 1 + sizeof BAD / sizeof *BAD - 1); bool none = b == sizeof BAD / sizeof *BAD;
        script(none ? "" : BAD[b]); if (none) setenv("PLASMA_TUNING_FILENAME", q.p(0.5) ? "/nonexistent/tuning.lua" : "/", 1);
        RunOpt p = o; p.tune = 1; p.finalize = false; CaseRun r; run_case(d, cs, p, r);
        int y[5]; for (int k = 0; k < 5; k++) plasma_get((plasma_enum_t)PAR[k], &y[k]);
        if (y[1] != g.nb || y[2] != g.ib || y[3] != g.mtpf) report("conf", d.name, d.name + ":conf-bad", fmt("script %d sets nb=%d ib=%d panel threads=%d", b, y[1], y[2], y[3]), desc);
        else if (r.hash != a.hash) report("conf", d.name, d.name + ":conf-bad", fmt("a broken script (%d) changes the result", b), desc);
        // many times, and the library still works
        if (q.p(0.3)) { double x = 3, y1 = 5, z = 0; for (int k = 0; k < 400; k++) { z = 0; plasma_dgemm(PlasmaNoTrans, PlasmaNoTrans, 1, 1, 1, 1, &x, 1, &y1, 1, 0, &z, 1); } if (z != 15) report("conf", d.name, "conf-bad-repeat", "wrong product after 400 calls with a broken script", desc); }
        plasma_finalize(); ST.tags.insert(fmt("broken:%d", b)); r.c->viols.clear();
        return;
    }
    if (kind == 1 && d.name != "chain" && !(d.flags & F_LAYOUT)) {   // each routine with values of its own
        bool fixall = d.flags & (F_GB | F_PB) || d.name == "langb" || d.name.compare(0, 2, "gb") == 0; const char *fx = fixall ? "*" : d.flags & F_HE ? "hetrf" : "";
        script(varying(g.nb, g.ib, 2 * g.nb + 3, q.p(0.2), fx));
        RunOpt p = o; p.tune = 1; CaseRun r; run_case(d, cs, p, r); ST.n["varying"]++; ST.evals++;
        for (auto &v : r.c->viols) { report("conf", d.name, d.name + ":conf-varying", "with a script whose values depend on the routine and the dimensions: " + v.msg, desc); break; }
        r.c->viols.clear(); return;
    }
    if (fdL < 0) script("");
    script(wrap(g.nb, g.ib, g.mtpf));
    std::set<std::string> asked; bool ran = false;
    {   // first with the same values, to learn what is asked
        RunOpt p = o; p.tune = 1; CaseRun r; uint64_t kc = kernel_calls(); run_case(d, cs, p, r); ran = kernel_calls() > kc; r.c->viols.clear();
        auto l = log();
        for (auto &s : l) {
            if (s.compare(0, 8, "missing ") == 0) { report("conf", d.name, "conf-missing:" + s.substr(8), "the tuning script has no function " + s.substr(8), desc); continue; }
            std::string nm = s.substr(0, s.find(' ')); asked.insert(nm); ST.n["script-calls"]++; ST.tags.insert("asked:" + nm);
            char ty[8] = {0}, res[16] = {0}; int th = -1; int dims[8], nd = 0; { std::vector<std::string> w; size_t i = 0; while (i < s.size()) { size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size(); w.push_back(s.substr(i, e - i)); i = e + 1; }
                if (w.size() >= 4) { snprintf(ty, 8, "%s", w[1].c_str()); th = atoi(w[2].c_str()); for (size_t k = 3; k + 1 < w.size() && nd < 8; k++) dims[nd++] = atoi(w[k].c_str()); snprintf(res, 16, "%s", w.back().c_str()); } }
            char P = toupper(d.prec); bool mixed = d.flags & F_MIX; bool tyok = ty[0] == P || (mixed && (ty[0] == (P == 'Z' ? 'C' : 'S') ));
            if (!tyok || ty[1]) report("conf", d.name, d.name + ":conf-type", nm + " is asked for type " + ty, desc);
            if (th != g.threads) report("conf", d.name, d.name + ":conf-threads", nm + fmt(" is told of %d threads", th), desc);
            if (strcmp(res, "integer")) report("conf", d.name, "conf-default:" + nm, nm + " of the shipped script does not return an integer", desc);
            for (int k = 0; k < nd; k++) if (dims[k] < 0) report("conf", d.name, d.name + ":conf-dim", nm + fmt(" is told of dimension %d", dims[k]), desc);
            if (getenv("VDEBUG")) fprintf(stderr, "ASK %s | %s\n", desc.c_str(), s.c_str());
        }
        if (r.hash != a.hash) report("conf", d.name, d.name + ":conf-tuned", "the result under tuning differs from that with the same settings made directly", desc);
    }
    if (d.name != "chain") {
        std::string got; for (auto &s : asked) got += (got.empty() ? "" : ",") + s;
        auto it = TABLE.find(d.name);
        if (getenv("VDEBUG")) fprintf(stderr, "TABLE {\"%s\", \"%s\"},\n", d.name.c_str(), got.c_str());
        if (it == TABLE.end()) ST.n["no-table"]++;
        else if (!(asked.empty() ? !ran : it->second.count(got) > 0) && !(asked.empty() && it->second.count(""))) { std::string w; for (auto &x : it->second) w += (w.empty() ? "" : "] or [") + x; report("conf", d.name, d.name + ":conf-asked", "asks the script for [" + got + "] instead of [" + w + "]", desc); }
    }
    // then the values asked for are set to something else before the call
    bool anb = false, aib = false, apt = false; for (auto &s : asked) { anb |= s.size() > 3 && s.substr(s.size() - 3) == "_nb"; aib |= s.size() > 3 && s.substr(s.size() - 3) == "_ib"; apt |= s.find("_max_panel_threads") != std::string::npos; }
    if (!anb && !aib && !apt) return;
    RunOpt p = o; p.tune = 1; p.finalize = false; p.nb0 = anb ? q.pick({1, g.nb + 1, g.nb * 2, 256, 3}) : 0; p.ib0 = aib ? q.pick({1, g.ib + 1, 64}) : 0; p.pt0 = apt ? q.pick({1, 2, 3, 4}) : 0;
    CaseRun r; run_case(d, cs, p, r); r.c->viols.clear();
    int y[5]; for (int k = 0; k < 5; k++) plasma_get((plasma_enum_t)PAR[k], &y[k]);
    plasma_finalize();
    if (r.hash != a.hash) report("conf", d.name, d.name + ":conf-tuned", fmt("nb=%d ib=%d panel threads=%d before the call, tuned to the given values: the result differs from that with the settings made directly", p.nb0, p.ib0, p.pt0), desc);
    if (y[0] != PlasmaEnabled || y[1] != g.nb || y[2] != g.ib || y[3] != g.mtpf || y[4] != (g.tree ? PlasmaTreeHouseholder : PlasmaFlatHouseholder)) report("conf", d.name, d.name + ":conf-after", fmt("after the call nb=%d ib=%d panel threads=%d", y[1], y[2], y[3]), desc);
}
int mode_conf() {
    auto v = select_ops();
    if (G.casei >= 0) { G.start = G.casei; G.count = 1; G.shard = 0; G.nshards = 1; }
    for (long i = G.start; i < G.start + G.count; i++) {
        if (i % G.nshards != G.shard) continue;
        uint64_t cs = mix(mix(G.seed, 0xC04F), i);
        if (cs % 3 == 0) { start_case("-settings", i); history(Rng(cs)); continue; }
        const OpDef &d = *v[(cs >> 8) % v.size()];
        start_case((std::string(1, d.prec) + d.name).c_str(), i);
        tuned(d, cs); KArg kk[32]; karg_reports(kk, 32);
    }
    return 0;
}
