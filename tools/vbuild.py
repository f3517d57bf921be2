#!/usr/bin/env python3
"""Builds PLASMA from /repo's working tree, outside /repo, in the instrumented variants the checks
use, together with the harness of /verif/harness.

  * The sources git sees in /repo (tracked or new, not ignored) are mirrored to .cache/src and the
    s/d/c/ds precisions are generated there by /repo's own tools/codegen.py and tools/subs.py.
  * The file lists are read from /repo/CMakeLists.txt.
  * Objects are content addressed (.cache/obj): source text + all headers + flags.  Nothing is ever
    looked up by name or time stamp, so a stale object cannot be linked.

Variants (see DESIGN.md):
  n  -O2, pattern-initialized locals; translation units that use volatile or atomics carry
     volatile/atomic hooks (yield points); linked with the controlled task runtime (vomp)
  a  AddressSanitizer + UndefinedBehaviorSanitizer, vomp
  r  every memory access hooked (-fsanitize=thread instrumentation, own runtime), vomp
  t  the objects of n with libgomp's real threads and injected delays
"""
import contextlib, fcntl, hashlib, json, os, re, runpy, shlex, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SRC = os.path.join(CACHE, "src")
OBJ = os.path.join(CACHE, "obj")
BIN = os.path.join(CACHE, "bin")
GEN = os.path.join(CACHE, "gen")
HARN = os.path.join(VERIF, "harness")
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")

INC = ["-I/usr/include/x86_64-linux-gnu/openblas-pthread", "-I/usr/include/lua5.4"]
DEFS = ["-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS", "-DPLASMA_VERIF=1"]
BASE = ["gcc", "-std=gnu99", "-fopenmp", "-fPIC", "-fno-common", "-w"]
NFLAGS = ["-O2", "-g1", "-ftrivial-auto-var-init=pattern"]
HOOKS = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]
AFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
          "-fno-sanitize=vptr"]
RFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer"] + HOOKS
NPROC = os.cpu_count() or 4
VOLATILE = re.compile(rb"volatile|__sync_|__atomic_|sched_yield|omp\s+flush|omp\s+atomic|barrier")

SPIN = re.compile(rb"while\s*\([^;{}]*\)\s*(;|\{\s*\})(?!\s*\\)")

class BuildError(Exception):
    pass

def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None

def write(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = "%s.%d.tmp" % (p, os.getpid())
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, p)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(b"%d:" % len(p)); h.update(p)
    return h.hexdigest()[:32]

# ------------------------------------------------------------------ precision generation
def _gen_one(job):
    template, precs, srcdir = job
    os.chdir(srcdir)
    import importlib
    g = _gen_one.__dict__.get("mod")
    if g is None:
        argv, sys.argv = sys.argv, ["codegen.py"]
        sys.path.insert(0, os.path.join(srcdir, "tools"))
        try:
            g = runpy.run_path(os.path.join(srcdir, "tools/codegen.py"), run_name="codegen_mod")
        finally:
            sys.argv = argv
        _gen_one.mod = g
    try:
        s = g["SourceFile"](template)
        out = []
        for (o, p) in zip(*s.get_filenames(list(precs))):
            out.append((o, s._substitute(s._text, p)))
        return template, out, ""
    except BaseException as e:  # includes SystemExit of the project's script
        return template, None, repr(e)

def mirror():
    """Mirrors /repo to SRC and generates the precisions.  Returns {relative path: bytes}."""
    files = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached",
                            "--others", "--exclude-standard"], check=True,
                           stdout=subprocess.PIPE).stdout.decode().split("\0")
    want = {}
    for f in files:
        if f and os.path.isfile(os.path.join(REPO, f)) and \
           f.split("/")[0] in ("include", "compute", "core_blas", "control", "tools", "CMakeLists.txt", "tuning", "test"):
            want[f] = read(os.path.join(REPO, f))
    # tools must be on disk for the generator
    stage = os.path.join(CACHE, "stage")
    for f, d in want.items():
        if read(os.path.join(stage, f)) != d:
            write(os.path.join(stage, f), d)
    for root, _, names in os.walk(stage):
        for n in names:
            rel = os.path.relpath(os.path.join(root, n), stage)
            if rel not in want:
                os.remove(os.path.join(root, n))
    # which calls does the project's script make?
    calls = []
    real, argv, cwd = os.system, sys.argv, os.getcwd()
    os.system = lambda c: calls.append(c) or 0
    sys.argv = ["generate_precisions.py"]
    os.chdir(stage)
    try:
        runpy.run_path("tools/generate_precisions.py", run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise BuildError("generate_precisions.py failed")
    finally:
        os.system, sys.argv = real, argv
        os.chdir(cwd)
    letters = {}
    for c in calls:
        w = shlex.split(c)[2:]
        for t in w[2:]:
            if t.startswith("test/"):
                continue
            m = letters.setdefault(t, [])
            if w[1] not in m:
                m.append(w[1])
    tools = digest(want.get("tools/codegen.py", b""), want.get("tools/subs.py", b""))
    out, todo = {}, []
    keys = {}
    for t, ps in letters.items():
        if t not in want:
            continue
        k = digest(tools, t, " ".join(ps), want[t])
        keys[t] = k
        c = read(os.path.join(GEN, k + ".json"))
        if c is not None:
            for o, txt in json.loads(c):
                out[o] = txt.encode()
        else:
            todo.append((t, tuple(ps), stage))
    if todo:
        with mp.get_context("fork").Pool(min(NPROC, len(todo))) as pool:
            for t, res, err in pool.imap_unordered(_gen_one, todo, chunksize=2):
                if res is None:
                    raise BuildError("precision generation of %s failed: %s" % (t, err))
                res = [(o, re.sub(r"@generated from[^\n]*", "@generated", txt)) for o, txt in res]
                write(os.path.join(GEN, keys[t] + ".json"), json.dumps(res).encode())
                for o, txt in res:
                    out[o] = txt.encode()
    for o, d in out.items():
        want.setdefault(o, d)
    if "include/plasma_config.hin" in want:
        cfg = want["include/plasma_config.hin"].decode()
        cfg = re.sub(r"#cmakedefine\s+(\w+)", lambda m: "#define PLASMA_USE_LUA"
                     if m.group(1) == "PLASMA_USE_LUA" else "/* #undef %s */" % m.group(1), cfg)
        want["include/plasma_config.h"] = cfg.encode()
    for f, d in want.items():
        if read(os.path.join(SRC, f)) != d:
            write(os.path.join(SRC, f), d)
    for root, _, names in os.walk(SRC):
        for n in names:
            rel = os.path.relpath(os.path.join(root, n), SRC)
            if rel not in want:
                os.remove(os.path.join(root, n))
    return want

def source_list(want):
    txt = re.sub(r"#[^\n]*", "", want["CMakeLists.txt"].decode())
    res = []
    for m in re.finditer(r"add_library\s*\(\s*(plasma|plasma_core_blas)\s+SHARED\s+([^)]*)\)", txt):
        res += [w for w in m.group(2).split() if w.endswith(".c")]
    if len(res) < 50:
        raise BuildError("could not read the file lists of CMakeLists.txt")
    res = list(dict.fromkeys(res))
    for f in res:
        if f not in want:
            raise BuildError("source %s is missing" % f)
    return res

def flags_for(variant, text):
    if variant == "n":
        return NFLAGS + (HOOKS if VOLATILE.search(text) else [])
    if variant == "a" and SPIN.search(text):   # busy waiting needs the yield hooks, which exclude ASan
        return NFLAGS + HOOKS
    return {"a": AFLAGS, "r": RFLAGS}[variant]

def run_jobs(jobs, nproc=NPROC):
    """jobs: (cmd, out).  Compiles to a temporary and renames."""
    def one(j):
        cmd, out = j[:2]
        tmp = "%s.%d.tmp.o" % (out, os.getpid())
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0 and len(j) > 2:
            cmd = ["objcopy", "--redefine-syms=" + j[2], tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")
        os.replace(tmp, out)
        return ""
    with ThreadPoolExecutor(nproc) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("compilation failed:\n" + errs[0][:4000])

def lib_jobs(want, variant):
    os.makedirs(OBJ, exist_ok=True)
    hdr = digest(*[x for f in sorted(want) if f.endswith(".h") and f.startswith("include/")
                   for x in (f, want[f])])
    objs, jobs = [], []
    # calls the library makes to kernels and to the allocator go to the monitors (X -> __wrap_X);
    # the harness' own calls do not
    names = (read(os.path.join(HARN, "wraps.txt")) or b"").decode().split()
    ren = "".join("%s __wrap_%s\n" % (n, n) for n in names)
    syms = os.path.join(CACHE, "redefine-%s.txt" % digest(ren))
    write(syms, ren.encode())
    hdr += digest(ren)
    for f in source_list(want):
        fl = flags_for(variant, want[f])
        k = digest(hdr, " ".join(BASE + fl + DEFS), f, want[f])
        o = os.path.join(OBJ, "%s-%s.o" % (variant, k))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((BASE + fl + DEFS + INC + ["-I" + SRC + "/include", "-c", os.path.join(SRC, f)], o, syms))
    return objs, jobs

CXX = ["g++", "-std=gnu++17", "-fPIC", "-w", "-g1", "-fno-strict-aliasing", "-fcx-limited-range"]

def harness_jobs(want, hset, variant):
    """hset: harness .cc names.  Harness objects are uninstrumented; some know the variant."""
    hdr = digest(*[x for f in sorted(want) if f.endswith(".h") and f.startswith("include/")
                   for x in (f, want[f])])
    hh = digest(*[x for f in sorted(os.listdir(HARN)) if f.endswith((".h", ".hh", ".inc"))
                  for x in (f, read(os.path.join(HARN, f)))])
    objs, jobs = [], []
    for h in hset:
        defs = []
        name = h
        if ":" in h:  # file.cc:DEF=VAL
            name, d = h.split(":", 1)
            defs = ["-D" + x for x in d.split(",")]
        txt = read(os.path.join(HARN, name))
        opt = ["-O2"] if b"HARNESS_O2" in txt else ["-O1"]
        if b"VARIANT_AWARE" in txt:
            defs = defs + ["-DVARIANT_" + variant.upper()]
        k = digest(hdr, hh, " ".join(CXX + opt + defs), name, txt)
        o = os.path.join(OBJ, "h-%s.o" % k)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((CXX + opt + defs + INC + ["-I" + SRC + "/include", "-I" + HARN, "-c",
                         os.path.join(HARN, name)], o))
    # dedupe
    return objs, list({o: (c, o) for c, o in jobs}.values())

@contextlib.contextmanager
def locked():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

LIBS = ["-L/usr/lib/x86_64-linux-gnu/openblas-pthread", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread",
        "-llapacke", "-lopenblas", "-llua5.4", "-lm", "-lpthread", "-ldl"]

def build(variants, hset_of):
    """Builds the given variants; hset_of(variant) -> harness file list.  Returns {variant: exe}."""
    t0 = time.time()
    with locked():
        want = mirror()
        jobs, plan = [], {}
        for v in variants:
            lv = "n" if v == "t" else v
            lo, lj = lib_jobs(want, lv)
            ho, hj = harness_jobs(want, hset_of(v), v)
            plan[v] = (lo, ho)
            jobs += hj + lj
        jobs = list({j[1]: j for j in jobs}.values())
        if jobs:
            run_jobs(jobs)
        exes = {}
        os.makedirs(BIN, exist_ok=True)
        ljobs = []
        for v, (lo, ho) in plan.items():
            extra = {"n": [], "t": ["-fopenmp"], "a": ["-fsanitize=address,undefined"], "r": ["-rdynamic"]}[v]
            k = digest(v, *(lo + ho), " ".join(extra + LIBS))
            exe = os.path.join(BIN, "%s-%s" % (v, k))
            exes[v] = exe
            if not os.path.exists(exe):
                rsp = exe + ".rsp"
                write(rsp, "\n".join(ho + lo).encode())
                ljobs.append((["g++", "-no-pie" if v in ("r", "n") else "-pie"] + extra + ["@" + rsp] + LIBS, exe))
        if ljobs:
            run_jobs(ljobs, 4)
    return exes, {"compiled": len(jobs), "build_s": round(time.time() - t0, 1)}

if __name__ == "__main__":
    t = time.time()
    want = mirror()
    print("mirror", round(time.time() - t, 1), len(want), len(source_list(want)))
    for v in sys.argv[1:]:
        t = time.time()
        lo, lj = lib_jobs(want, v)
        run_jobs(lj)
        print(v, len(lj), round(time.time() - t, 1))
