"""What each property's check runs.  Every run is (variant, harness arguments, number of cases)."""
F = dict(BLAS3=1, ELEM=2, NORM=4, LU=8, GB=16, PO=32, PB=64, QR=128, LS=256, INV=512, HE=1024, SVD=2048, EV=4096, MIX=8192, LAYOUT=1 << 17, SEQ=1 << 18)
FRAMEK = r"(frame.*|karg|junk)"
SPECIAL = {}
PLAN = {}

def run(variant, count, *args, **kw):
    d = dict(variant=variant, count=count, args=[str(a) for a in args]); d.update(kw); return d

def P(pid, rule, runs, level="exploration", assumptions=()):
    PLAN[pid] = dict(rule=rule, runs=runs, level=level, assumptions=list(assumptions))

GEN = ("Seeded random calls in all four precisions: option combinations, shapes around multiples of the tile size (1..64), tile and inner block sizes, panel threads, "
       "reduction trees, leading dimensions with padding, junk (NaN, huge, inf) in everything the documentation leaves unreferenced, 1-8 threads, six scheduling strategies. ")
NT = "A case counts when its description (operation, options, shape, configuration, schedule) is new and kernels ran or a result was produced. "

def numeric(pid, flags, quick, thorough, rule, extra=None):
    def runs(t):
        n = quick if t == "quick" else thorough
        r = [run("n", n, "--mode", "num", "--flags", flags, nokinds=FRAMEK),
             run("n", n // 5, "--mode", "cfg", "--flags", flags, nokinds=FRAMEK, seedoff=1),
             run("n", n // 10, "--mode", "num", "--zero", "--flags", flags, nokinds=FRAMEK, seedoff=7),
             run("n", n // 150, "--mode", "num", "--huge", "1", "--flags", flags, nokinds=FRAMEK, seedoff=11)]
        if extra: r += extra(t, n)
        return r
    P(pid, GEN + rule + " " + NT, runs)

numeric("C01", F["BLAS3"], 120000, 1440000, "Oracle: the defining expression in extended precision, entry by entry within (k+8) eps of the sum of absolute products; exact for small integer data.")
numeric("C02", F["ELEM"], 150000, 1800000, "Oracle: the exact (copies, fills, swaps) or correctly rounded up to a few ulps (sums, scalings) entry.")
numeric("C03", F["NORM"], 150000, 1800000, "Oracle: the norm in extended precision; includes zero tiles, values near overflow and underflow for the scaled Frobenius norm.")
numeric("C04", F["LU"], 60000, 720000, "Oracle: |PA-LU| <= c n eps |L||U| entry by entry, pivots in range, multipliers at most one in pivoting magnitude, solution residual <= c n eps |L||U||X|. Includes ties, permuted, sparse, graded, subnormal matrices.")
numeric("C05", F["GB"], 60000, 720000, "Oracle: product of the factors left in the band array, panel by panel with their interchanges, against A; pivots inside the band; solution residual.")

numeric("C06", F["PO"], 100000, 1200000, "Oracle: |A-LL'| <= c n eps |L||L|' entry by entry (the factor's stored triangle only), solution residual against |L||L'||X|; graded, scaled, subnormal-range and exactly factorable integer matrices.")
numeric("C07", F["PB"], 100000, 1200000, "Oracle: product of the band factor against the band of A, entry by entry; solution residual; bandwidths from 0 to n+.")
numeric("C08", F["QR"], 60000, 720000, "Oracle: Q formed from the returned reflectors has orthonormal columns, |A-QR| and |op(Q)C - result| column-wise within c eps, triangular factor in its place; both reduction schemes.")
numeric("C09", F["LS"], 60000, 720000, "Oracle: the optimality conditions - the residual is orthogonal to the range of op(A) and the solution of an underdetermined system lies in the range of op(A)' - relative to norms, full-rank problems.")
numeric("C10", F["INV"], 50000, 600000, "Oracle: |XA-I| or |AX-I| within the stable bound of the method; lauum and trtri against the defining product entry by entry.")
numeric("C11", F["HE"], 30000, 360000, "Oracle: |PAP'-LTL'| reconstructed from the factor, the band matrix and both pivot vectors, normwise within c n eps growth; pivots in range; solution residual of hetrs and hesv. Includes zero panels, rank-deficient panels, ties, n below and around the tile size.")
numeric("C12", F["SVD"], 30000, 360000, "Oracle: values non-increasing, non-negative and within c eps norm(A) of those of a one-sided Jacobi computation in extended precision; vectors orthonormal and reproducing A.")
numeric("C13", F["EV"], 200000, 2400000, "Oracle: Sturm counts and bisection in extended precision with exact decoupling; the list returned with its multiplicities equals the wanted stretch of the spectrum within c n eps norm; vectors orthonormal with residual c n eps norm. Includes zero and negligible couplings, repeated and clustered values, bounds that are eigenvalues.")
numeric("C14", F["MIX"], 40000, 480000, "Oracle: the residual of every column within the documented criterion (plus rounding of the residual) when iter is 0..30 and within the bound of the full precision solver when it is -31; iter = 0 only with a solution that is a single precision vector; entries beyond the range of single precision, all underflowing, or singular after rounding must show the fallback, diagonally dominant systems the refinement; breakdown of the fallback is reported with its position.",
        extra=lambda t, n: [run("n", n // 5, "--mode", "num", "--flags", F["MIX"], "--want", "1", nokinds=FRAMEK, seedoff=3)])

P("C15", GEN + "Descriptors of every kind and storage class (general, triangular in both halves, band, symmetric band), views of views with offsets anywhere in the matrix, element types of all sizes, dimensions up to 2^31. Oracles: every tile address, tile size and leading dimension against a model which enumerates the storage; tiles pairwise disjoint and inside the allocation; conversions to and from tiles reproduce every entry addressed and touch no other byte; the tile and view element oracle is built from the definition only. " + NT,
  lambda t: [run("n", 300000 if t == "quick" else 3600000, "--mode", "num", "--flags", F["LAYOUT"]), run("a", 80000 if t == "quick" else 960000, "--mode", "num", "--flags", F["LAYOUT"], seedoff=1),
             run("n", 40000 if t == "quick" else 480000, "--mode", "num", "--zero", "--flags", F["LAYOUT"], seedoff=2)] + WIDE(t, "--flags", F["LAYOUT"]))
P("C20", GEN + "Random programs of asynchronous calls (20 kinds of routines and the conversions) on views of shared tile matrices, LAPACK arrays and band matrices, on one or two sequences, without a taskwait between them. Oracle: the same calls one at a time on fresh copies, bit for bit (scheduler with virtual threads, and a few with the system's own OpenMP runtime and injected delays); with a failure injected (indefinite matrix, zero column, illegal descriptor, wrong precision) the sequence reports it, calls after it on that sequence change nothing, calls on the other sequence are not affected, and (memory monitor) no task that starts after the failure was recorded writes into a tile matrix of the sequence. " + NT,
  lambda t: [run("n", 24000 if t == "quick" else 600000, "--mode", "num", "--flags", F["SEQ"]), run("n", 24000 if t == "quick" else 600000, "--mode", "num", "--want", "1", "--flags", F["SEQ"], seedoff=1),
             run("r", 3000 if t == "quick" else 80000, "--mode", "race", "--flags", F["SEQ"], nokinds=r"karg", seedoff=2),
             run("r", 5000 if t == "quick" else 100000, "--mode", "race", "--want", "1", "--flags", F["SEQ"], nokinds=r"karg", seedoff=4), run("n", 3000 if t == "quick" else 80000, "--mode", "det", "--flags", F["SEQ"], seedoff=3),
             run("t", 160 if t == "quick" else 8000, "--mode", "num", "--flags", F["SEQ"], seedoff=5), run("t", 160 if t == "quick" else 8000, "--mode", "num", "--want", "1", "--flags", F["SEQ"], seedoff=6)])
P("C30", "Reduction operation lists generated for tile grids : all grids up to 14x14 with up to 16 cores exhaustively, then random ones up to 2000 rows, every generator, up to 1024 cores, directly and through the entry point inside a parallel region, plus grids whose size in elements is near the limits. Judged by a state machine over the tiles: every tile below the diagonal annihilated exactly once, by a triangular pivot of an unfinished row, in the state its kernel expects; the diagonal ends triangular; nothing is read or written outside the list. " + NT,
  lambda t: [run("n", 120000 if t == "quick" else 1440000, "--mode", "tree"), run("a", 24000 if t == "quick" else 288000, "--mode", "tree", seedoff=1)])

P("C17", GEN + "Calls of every routine, synchronous (with LAPACK arrays) and asynchronous (with descriptors), in which one or more arguments are outside their domain: every option with the values of all other options, 0, negative and huge numbers; dimensions, bandwidths and leading dimensions just outside and far outside; descriptors broken in 14 ways. Oracle: the argument domains written from the documentation give the position of the first offender; all buffers and descriptors must keep their bytes; then a valid multiplication must be right. " + NT,
  lambda t: [run("n", 120000 if t == "quick" else 1440000, "--mode", "num", "--flags", 1 << 20), run("a", 40000 if t == "quick" else 480000, "--mode", "num", "--flags", 1 << 20, seedoff=1)])

ALLF = 0
# element offsets beyond 32 bits (the small real gemm kernels of OpenBLAS themselves fail there: not gesdd, which hands U and VT to them)
def WIDE(t, *args):
    r = [run("n", 20000 if t == "quick" else 240000, "--mode", "num", "--wide", *(() if "--xonly" in args else ("--xonly", "gesdd")), *args, seedoff=8)]
    if not args: r.append(run("n", 1000 if t == "quick" else 12000, "--mode", "num", "--wide", "--only", "gesdd", "--prec", "cz", seedoff=9))
    return r
def allops(t, q, th): return q if t == "quick" else th

P("C16", GEN + "Every call is repeated with four contents of everything unreferenced (padding, opposite triangle, outside the band, output with zero beta): results must be the same bits, non-output memory and guard zones around every buffer the same bytes. " + NT,
  lambda t: [run("n", allops(t, 40000, 480000), "--mode", "junk"), run("n", allops(t, 150, 1800), "--mode", "junk", "--huge", "1", seedoff=12), run("n", allops(t, 40000, 480000), "--mode", "num", kinds=r"(frame.*|crash)", seedoff=2)] + WIDE(t, "--xonly", "gesdd"))
P("C18", GEN + "Dimensions are zero with probability 0.4 each. Oracle: the call returns success, writes nothing but what its definition demands, and right-hand sides, norms and scalings of empty sums are those of the definition. " + NT,
  lambda t: [run("n", allops(t, 150000, 1800000), "--mode", "num", "--zero", nokinds=r"karg")])
P("C19", GEN + "Operations that can break down get matrices with an exact breakdown at a known position (zero columns and rows, triangular with a zero, second breakdown later, indefinite minors). Oracle: the documented positive position, and the documented state of the outputs. " + NT,
  lambda t: [run("n", allops(t, 100000, 1200000), "--mode", "num", "--want", "1", nokinds=FRAMEK), run("n", allops(t, 400, 4800), "--mode", "num", "--want", "1", "--huge", "1", nokinds=FRAMEK, seedoff=12)])
P("C21", GEN + "Every load and store of PLASMA's own code and the operand regions of every BLAS/LAPACK kernel it calls are recorded with the happens-before clocks of the task runtime; two conflicting accesses unordered by dependences, taskwaits, barriers or creation are a race whatever order they ran in. " + NT,
  lambda t: [run("r", allops(t, 24000, 288000), "--mode", "race", nokinds=r"karg"), run("r", allops(t, 100, 1200), "--mode", "race", "--huge", "1", nokinds=r"karg", seedoff=12)])
P("C22", GEN + "Each case runs 5 times under different seeds, strategies, thread counts (at least the number of panel ranks) and preemption, some with the system's own OpenMP runtime and injected delays; all output bits must agree. " + NT,
  lambda t: [run("n", allops(t, 30000, 360000), "--mode", "det", *([] if t == "quick" else ["--param", "9"])), run("n", allops(t, 150, 1800), "--mode", "det", "--huge", "1", seedoff=12), run("t", allops(t, 160, 8000), "--mode", "det", seedoff=5)])
P("C23", GEN + "Panel threads up to 8 with 1 to 8 threads, with and without numerical breakdown. The scheduler reports a deadlock when every member of the team waits or only spins. " + NT,
  lambda t: [run("n", allops(t, 100000, 1200000), "--mode", "hang", kinds=r"(hang|crash)"), run("n", allops(t, 12000, 144000), "--mode", "hang", "--want", "1", "--flags", F["SEQ"], kinds=r"(hang|crash)", seedoff=3), run("n", allops(t, 300, 3600), "--mode", "hang", "--huge", "1", kinds=r"(hang|crash)", seedoff=12)])
P("C24", GEN + "AddressSanitizer and UndefinedBehaviorSanitizer builds of PLASMA with exactly sized buffers; and a monitor at the kernel interface which checks every BLAS/LAPACK operand region against the buffer or tile it lies in. Further calls use leading dimensions near 2^31, in address space of which only the pages of the columns themselves are accessible. " + NT,
  lambda t: [run("a", allops(t, 24000, 288000), "--mode", "num", kinds=r"(crash|karg)"), run("a", allops(t, 6000, 72000), "--mode", "num", "--want", "0.7", kinds=r"(crash|karg)", seedoff=3),
             run("a", allops(t, 6000, 72000), "--mode", "num", "--zero", kinds=r"(crash|karg)", seedoff=4), run("n", allops(t, 40000, 480000), "--mode", "num", kinds=r"(crash|karg)", seedoff=5), run("a", allops(t, 150, 1800), "--mode", "num", "--huge", "1", kinds=r"(crash|karg)", seedoff=12)] + WIDE(t))
P("C25", GEN + "Allocations made by PLASMA are tabled from plasma_init to plasma_finalize; at the end none may be left, none released twice; Lua states are counted. Half of the runs break down numerically. " + NT,
  lambda t: [run("n", allops(t, 60000, 720000), "--mode", "leak"), run("n", allops(t, 30000, 360000), "--mode", "leak", "--want", "1", seedoff=6)])
P("C26", GEN + "The k-th allocation PLASMA makes fails (first, last and random k, in a child process): the call must return PlasmaErrorOutOfMemory without crash or hang, leave no memory behind, and the next call must work. " + NT,
  lambda t: [run("n", allops(t, 12000, 144000), "--mode", "oom", *([] if t == "quick" else ["--param", "16"]))], level="fault_enumeration")
P("C27", GEN + "Each case runs 4 times with fresh heap memory and stack filled with different bytes (0, all ones = NaN, large, small numbers): results must be the same bits and correct. " + NT,
  lambda t: [run("n", allops(t, 30000, 360000), "--mode", "fill")])
P("C28", GEN + "A third of the cases are histories of init, finalize, set, get and calls (inside and outside parallel regions, unknown parameters, illegal values) judged by a model of the settings. In the others the library reads a tuning script written for the case: the functions it asks for, with type, threads and dimensions, are logged by the script and compared with the routine's list, every function asked must be in the shipped script; the result must have the bits of the run with the same settings made directly, whatever was set before; scripts which are missing, broken or give illegal values change nothing; with values depending on routine and dimensions (inner blocks larger than tiles included) the numerical oracle must still hold. " + NT,
  lambda t: [run("n", allops(t, 20000, 400000), "--mode", "conf"), run("a", allops(t, 4000, 80000), "--mode", "conf", seedoff=1),
             run("n", allops(t, 6000, 120000), "--mode", "cfg", nokinds=FRAMEK, seedoff=2)])
P("C29", GEN + "The call is made alone in a fresh process, and after 2-6 other calls (failed, invalid, broken down, with finalize and init in between): same bits. " + NT,
  lambda t: [run("n", allops(t, 24000, 288000), "--mode", "hist")])
