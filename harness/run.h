// Running one case of a registered operation; shared by the modes in main.cc and the special monitors.
#pragma once
#include "core.h"
#include <unistd.h>
struct Args {
    std::string mode, prop, only, prec = "zcds"; uint64_t seed = 1; long start = 0, count = 0; int shard = 0, nshards = 1;
    long casei = -1; int flags = 0; double want = 0; bool zero = false; long param = 0; std::string file, kinds, xonly;
    int junkmode = -1; bool big = false;
};
extern Args G;
extern FILE *OUT;
struct Stats {
    uint64_t cases = 0, evals = 0, kernel = 0, extra = 0, skipped = 0; std::set<std::string> tags; std::set<uint64_t> orders; std::map<std::string, uint64_t> n;
    std::set<uint64_t> distinct; int samples = 0;
};
extern Stats ST;
static inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 12345); r.next(); return r.next(); }
// every case run: its description, and whether it did anything (kernels called, entries judged)
void note_case(const std::string &desc, bool nontrivial);
std::string jesc(const std::string &s);
// one violation record: kind is the monitor that fired, what the routine, key identifies it for known-findings
void report(const char *kind, const std::string &what, const std::string &key, const std::string &msg, const std::string &desc);
void start_case(const char *what, long i);   // records what is running, for crash attribution
struct RunOpt { int junkmode = 1; bool zerod = false; int want = 0; int fill = 0xCB; uint64_t schedseed = 1; bool keepcfg = false; int threads = 0, strat = -1; bool arm = true; bool init = true; bool finalize = true; bool race = false; int preempt = -1; int mtpf = 0; bool check = true; int tune = 0, nb0 = 0, ib0 = 0, pt0 = 0; };
struct CaseRun { std::unique_ptr<Ctx> c; std::unique_ptr<OpBase> op; long live = 0; std::string leaksites; long badfree = 0; uint64_t hash = 0; };
void pick_schedule(Cfg &g, uint64_t schedseed, const RunOpt &o, int flags);
void lib_init(const Cfg &g, const RunOpt *o = nullptr);
void run_case(const OpDef &d, uint64_t cseed, const RunOpt &o, CaseRun &r);
int lua_states();
std::vector<const OpDef*> select_ops();
// special monitors
int mode_args(); int mode_seq(); int mode_layout(); int mode_tree(); int mode_conf();
