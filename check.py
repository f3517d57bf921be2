#!/usr/bin/env python3
"""Runs one property's check:  check.py PROPERTY quick|thorough      (exit 0 held, 1 violation, 3 no answer)
                               check.py --setup                      builds everything
                               check.py --replay FILE                runs one recorded violation again"""
import sys, os, re, json, time, subprocess, collections, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vbuild
from plan import PLAN, SPECIAL
NSH = 8
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")

def ops_files():
    return [f[:-3] for f in sorted(os.listdir(vbuild.HARN)) if f.startswith("ops_") and f.endswith(".cc")]
def hset(v):
    h = ["vomp_t.cc" if v == "t" else "vomp.cc", "mem.cc", "wraps.cc", "main.cc"] + [f for f in sorted(os.listdir(vbuild.HARN)) if f.startswith("sp_") and f.endswith(".cc")]
    return h + ["%s.cc:PREC_%s" % (o, p) for o in ops_files() for p in "ZCDS"]

def env():
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:symbolize=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", LC_ALL="C")
    e.pop("OMP_NUM_THREADS", None); e.pop("PLASMA_TUNING_FILENAME", None)
    return e

# ------------------------------------------------------------------ naming
PREC = re.compile(r"(plasma_(?:core_)?(?:omp_)?p?)(?:[zcds]{1,2}(?=(?:ge|gb|po|pb|he|sy|tr|tb|un|or|la|lan|lag|le|pa|st|heg|parf|amax|desc|gt|m|zamax|amax)))")
def norm(f):
    """function name without its precision"""
    f = re.sub(r"\.(_omp_fn\.\d+|constprop.*|part.*|isra.*|lto_priv.*|cold)", "", f)
    f = re.sub(r"^plasma_(core_)?(omp_)?(p?)(dz|sc|zc|ds|[zcds])(?=[a-z])", r"plasma_\1\2\3?", f)
    return f
def symbols(exe, pcs):
    pcs = sorted(set(pcs))
    if not pcs: return {}
    r = subprocess.run(["addr2line", "-f", "-C", "-e", exe] + [hex(int(p, 16) - 1) for p in pcs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split("\n")
    return {p: norm(r[2 * i]) if 2 * i < len(r) else p for i, p in enumerate(pcs)}

ASAN = re.compile(r"(?:ERROR: AddressSanitizer:? (\S+))|(?:runtime error: (.*))")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+)(?: (\S+))?")
def crash_key(what, rc, err):
    kind = "signal %d" % -rc if rc < 0 else "exit %d" % rc
    fun = ""
    m = ASAN.search(err)
    if m:
        kind = "asan " + m.group(1) if m.group(1) else "ub " + re.sub(r"-?\b0?x?[0-9a-f]*\d[0-9a-f]*\b", "N", m.group(2))[:60]
        for f in FRAME.finditer(err[m.start():]):
            loc = f.group(2) or ""
            if "/.cache/src/" in loc: fun = norm(f.group(1)); break
    return "crash:%s:%s%s" % (what, kind, ":" + fun if fun else "")

# ------------------------------------------------------------------ running
def run_shard(exe, args, count, s, seed, tag, limit):
    """one shard, restarted behind a case that crashes"""
    res = dict(viol=[], stats=[], samples=[], hashes=set(), incon=[], crashes=0, done=False)
    cur = "/tmp/vcur-%d-%s-%d" % (os.getpid(), tag, s)
    start, end = 0, count
    t_end = time.time() + limit
    while start < end:
        if time.time() > t_end: res["incon"].append("time limit of the run reached at case %d of %d" % (start, end)); break
        cmd = [exe] + args + ["--seed", str(seed), "--start", str(start), "--count", str(end - start), "--shard", str(s), "--nshards", str(NSH), "--cur", cur]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=max(5, t_end - time.time()), cwd="/tmp")
            rc, out, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, out, err = None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")
        ended = False
        for l in out.split("\n"):
            if l.startswith("@@V "):
                try: res["viol"].append(json.loads(l[4:]))
                except ValueError: res["incon"].append("unreadable record")
            elif l.startswith("@@S "): res["stats"].append(json.loads(l[4:])); ended = True
            elif l.startswith("@@C "): res["samples"].append(l[4:])
            elif l.startswith("@@H"): res["hashes"].update(l.split()[1:])
        if rc == 0 and ended: res["done"] = True; break
        try: c = json.loads(open(cur, "rb").read().split(b"\0")[0] or b"{}")
        except (OSError, ValueError): c = {}
        if rc is None:
            res["incon"].append("time limit of the run reached at case %s" % c.get("case")); break
        if rc == 3 or "case" not in c:
            res["incon"].append("harness failure: exit %s: %s" % (rc, err[-300:])); break
        kind = "hang" if rc == 77 else "crash"
        err2 = "\n".join(x for x in err.split("\n") if not x.startswith("PLASMA ERROR"))
        v = dict(kind=kind, what=c["what"][1:] if not c["what"].startswith("=") else c["what"][1:], case=c["case"], desc=c["what"], msg=(err2.strip()[-1500:] or "exit %d" % rc))
        v["key"] = "hang:" + v["what"] if rc == 77 else crash_key(v["what"], rc, err2)
        if rc == 77 and "members only spin" not in err2:   # a time limit: only a second failure counts
            q = subprocess.run([exe] + args + ["--seed", str(seed), "--case", str(c["case"])], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), cwd="/tmp")
            if q.returncode != 77: res["incon"].append("case %d reached its time limit once" % c["case"]); v = None
        if v: res["viol"].append(v)
        res["crashes"] += 1
        if res["crashes"] >= 6: res["incon"].append("shard stopped after 6 crashes"); break
        start = c["case"] + 1
    try: os.remove(cur)
    except OSError: pass
    return res

PCK = re.compile(r"0x[0-9a-f]{5,}")
def symbolize(viol, exe):
    pcs = set()
    for v in viol: pcs.update(PCK.findall(v["key"]))
    sy = symbols(exe, pcs)
    for v in viol:
        if v["kind"] == "race":
            a, b = v["key"].split("@")[1:3]
            v["key"] = "race:%s@%s" % tuple(sorted([sy.get(a, a), sy.get(b, b)])) + ":" + v["what"]
        elif PCK.search(v["key"]):
            v["key"] = " ".join(dict.fromkeys(PCK.sub(lambda m: sy.get(m.group(0), "?"), v["key"]).split()))
            if v["kind"].startswith(("oom", "leak")): v["key"] += ":" + v["what"]
        v["msg"] = PCK.sub(lambda m: m.group(0) + ("(" + sy[m.group(0)] + ")" if m.group(0) in sy else ""), v["msg"])

def known():
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", l.strip())
            if m: ks.append((m.group(1), m.group(2), m.group(3)))
    return ks

def setup():
    ex, st = vbuild.build(["n", "a", "r", "t"], hset)
    print("built", st)

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    runs = plan["runs"](tier)
    variants = sorted({r["variant"] for r in runs})
    exes, bst = vbuild.build(variants, hset)
    viol, stats, samples, incon, hashes, done = [], collections.Counter(), [], [], set(), 0
    nn, tags, orders = collections.Counter(), set(), 0
    limit = 780 if tier == "quick" else 14000
    for ri, r in enumerate(runs):
        exe = exes[r["variant"]]
        left = limit - (time.time() - t0)
        with ThreadPoolExecutor(NSH) as ex:
            rs = list(ex.map(lambda s: run_shard(exe, r["args"], r["count"], s, seed + 1000 * r.get("seedoff", 0), "%s-%d" % (prop, ri), left), range(NSH)))
        vs = []
        for x in rs:
            vs += x["viol"]; samples += x["samples"]; incon += x["incon"]; hashes |= {"%d:%s" % (ri, h) for h in x["hashes"]}; done += x["done"]
            for s in x["stats"]:
                for k, v in s.items():
                    if isinstance(v, int): stats[k] += v
                nn.update(s["n"]); tags.update(s["tags"])
        symbolize(vs, exe)
        for v in vs:
            v["run"] = dict(variant=r["variant"], args=r["args"], seed=seed + 1000 * r.get("seedoff", 0))
            if r.get("kinds") and not re.match(r["kinds"] + r"$", v["kind"]): continue
            if r.get("nokinds") and re.match(r["nokinds"] + r"$", v["kind"]): continue
            viol.append(v)
    ks = [(k, d) for p, k, d in known() if p == prop]
    seen, new = {}, collections.OrderedDict()
    for v in viol:
        hit = next(((k, d) for k, d in ks if re.fullmatch(k, v["key"])), None)
        if hit: seen.setdefault(hit, []).append(v)
        else: new.setdefault(v["key"], []).append(v)
    for (k, d) in ks:
        # listed findings are reported on every run, met this time or not
        print("KNOWN-FINDING: property=%s %s%s" % (prop, d, "" if (k, d) in seen else " (not met in this run)"))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for k, vv in list(new.items())[:20]:
        v = vv[0]
        path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(path, "w") as f: json.dump(dict(v, property=prop, key=k, times=len(vv)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s [%s, %d times] %s" % (k, v["kind"], len(vv), v["msg"][:400].replace("\n", " | ")))
        print("   case %s: %s" % (v["case"], v["desc"][:300]))
    for x in incon[:10]: print("inconclusive:", x)
    cov = dict(evaluations=stats["cases"], distinct_nontrivial=len(hashes), rule=plan["rule"], samples=samples[:12],
               observed=dict(values_judged=stats["evals"], kernel_calls=stats["kernel_calls"], tasks=stats["tasks"], dependences=stats["deps"], parallel_regions=stats["regions"],
                             schedule_points=stats["yields"], panel_barriers=stats["barriers"], distinct_task_orders=stats["orders"], race_accesses=stats["race_accesses"], race_pairs_compared=stats["race_pairs"], counters=dict(nn)),
               shape_and_option_classes=len(tags), classes_sample=sorted(tags)[:: max(1, len(tags) // 25)][:25], runs=[dict(variant=r["variant"], args=" ".join(r["args"]), cases=r["count"]) for r in runs], inconclusive=incon[:10])
    ev = dict(property=prop, tier=tier, seed=seed, level=plan["level"], coverage=cov, assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct, %d values judged, %d kernel calls, %d tasks, %d orders, %.1fs, %d violations" % (prop, tier, stats["cases"], len(hashes), stats["evals"], stats["kernel_calls"], stats["tasks"], stats["orders"], time.time() - t0, len(new)))
    if new: return 1
    if incon: return 3
    if len(hashes) < 2: print("nothing was observed"); return 3
    return 0

def replay(path):
    v = json.load(open(path))
    exes, _ = vbuild.build([v["run"]["variant"]], hset)
    cmd = [exes[v["run"]["variant"]]] + v["run"]["args"] + ["--seed", str(v["run"]["seed"]), "--case", str(v["case"])]
    print(" ".join(cmd))
    return subprocess.run(cmd, env=env()).returncode

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup": setup(); sys.exit(0)
        if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except vbuild.BuildError as x:
        print("build failed:", str(x)[:3000]); sys.exit(4)
