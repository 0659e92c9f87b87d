"""Which engine decides which property, and what the evidence says about it."""
S = [("sched", 1.0)]
ENGINES = {"S01": S, "S02": S, "S03": S, "S04": S, "S05": S, "H01": [("hist", 1.0)], "H02": [("hist", 1.0)], "H03": [("calls", 1.0)], "H04": [("carry", 1.0)], "D01": [("stage", 1.0)], "D02": [("stage", 1.0)], "E01": [("stage", 1.0)], "E02": [("refuse", 1.0)], "K01": [("stage", 1.0)], "T01": [("conc", 1.0)], "M01": [("leak", 1.0)], "R01": [("rand", 0.7), ("sched", 0.3)]}
SECONDS = {"quick": 75, "thorough": 600}
LONGER = {"T01": 130, "H03": 100, "E02": 90, "M01": 90}     # quick checks whose runs are slow
LEVEL = {}

REAL = ["NaMaster C library (src/*.c), recompiled with instrumentation",
        "SWIG wrapper (pymaster/namaster_wrap.c)", "pymaster Python code",
        "GSL, CFITSIO, FFTW, HEALPix C, healpy, ducc0, numpy"]
SIM_OMP = "OpenMP runtime: libgomp's interface implemented on fibers inside one OS thread under a seeded scheduler"
SIM_MEM = "allocator of the library and of numpy's arrays: seeded contents, guard zones, poisoned and quarantined frees, injected failures"
SIM_GSL = "GSL's allocator: seeded contents, injected failures"
SIM_DISK = "CFITSIO's stdio: in-memory disk with short, torn and failed reads and writes, full disk, kills"
SIM_THR = "caller threads: real Python threads, one runnable at a time, chosen by the seed at Python-level scheduling points"

D_SCHED = ("hash of the whole switch sequence (scheduling step, thread switched to) together with the case and the "
           "number of threads; only runs with at least one preemption or forced switch count")
R_SCHED = ("seeded cases (spins, masks, band limits, binnings with bands in any order and prefactors of their own, approximations) drawn from VERIF_SEED; each is computed on one simulated thread, "
           "then with other memory contents, then under seeded schedules of 2 to 100 simulated threads with preemptions at memory accesses")

META = dict(min_runs={}, rule={}, distinct={}, real={}, stub={}, assume={})
for p in ("S01", "S02", "S03", "S04", "S05"):
    META["rule"][p] = R_SCHED
    META["distinct"][p] = D_SCHED
    META["real"][p] = REAL
    META["stub"][p] = [SIM_OMP, SIM_MEM, SIM_GSL]
    META["min_runs"][p] = 50
    META["assume"][p] = [
        "preemption happens at memory accesses compiled by gcc -fsanitize=thread (sequentially consistent memory: reorderings by a weaker memory model are not simulated)",
        "code inside GSL, FFTW and other libraries runs without preemption"]

TECH = {}
NOTE = {}
for p in ("S01", "S02", "S03", "S04", "S05"):
    TECH[p] = "deterministic simulation: seeded OpenMP schedules, team sizes and memory contents, compared with one thread"
    NOTE[p] = ("Seeded search, not exhaustive: thousands of schedules per run with preemption at single memory accesses, biased to code locations where "
               "threads were seen to touch the same memory; oracle is the same code on one thread with zeroed memory. Trusts that reference: wrong numbers common to both are not seen.")

# ------------------------------------------------------------------- the others
def _p(pid, tech, note, rule, distinct, stub, assume, min_runs=30):
    TECH[pid] = "deterministic simulation: " + tech
    NOTE[pid] = note
    META["rule"][pid] = rule
    META["distinct"][pid] = distinct
    META["real"][pid] = REAL
    META["stub"][pid] = stub
    META["min_runs"][pid] = min_runs
    META["assume"][pid] = assume


A_MEM = META["assume"]["S01"]
A_FRESH = ["a fresh object on one thread is the reference: an error it shares with the history is not seen (H01 also has an independent numpy model of a curved-sky workspace)"]
A_SMALL = ["worlds are small (nside 1-4, band limits below 12, for some saves and loads up to 150, flat maps up to 12x12, up to 5 fields): sizes are drawn to reach every code path, not real survey sizes"]

_p("R01", "seeded draws repeated amid other draws, concurrent callers, team sizes and schedules",
   "Seeded search. Each seeded call is compared bitwise-tolerantly with the same call in a fresh process on one thread; different seeds must differ.",
   "seeded programs of seeded realisations mixed with numpy/healpy/random draws, unseeded and refused realisations, settings, environment variables and files, HEALPix and rectangular pixels, on one or several caller "
   "threads and OpenMP teams; non-trivial when something happens before or beside a seeded call",
   "hash of the program, its caller interleaving and OpenMP schedule", [SIM_OMP, SIM_MEM, SIM_GSL, SIM_THR], A_MEM)
_p("D01", "seeded storage faults at every kind of point of seeded saves, on a simulated disk",
   "Seeded search over (object, state, fault point): full disk at a byte, I/O error or short write at the n-th write, failure to open or close, small stdio buffers. "
   "Every save that returned is loaded after the faults and every answer compared with the saved object's; CFITSIO's own code is real.",
   "seeded histories of computing, changing, saving and loading all four kinds of workspace; a dry run counts the writes of each save, then the fault is aimed at one, and in sweeps one file is saved up to 30 times with a fault at another place each time; "
   "non-trivial when the fault was met", "hash of the history, the fault's kind and its place",
   [SIM_DISK, SIM_OMP, SIM_MEM], A_FRESH+A_SMALL+["the disk loses nothing that fclose reported written (no power-loss model: NaMaster never calls fsync and promises nothing there)"])
_p("D02", "seeded kills, cuts at a byte, wrong files and read faults before or during loads, on a simulated disk",
   "Seeded search. What loads without raising must answer every question as the saved object did; the object asked to load must then raise or answer as its state says; the next intact load must work.",
   "seeded histories: a save is killed at a write (torn or not), a file is cut at a byte (near inner boundaries, in sweeps of up to 50 cuts), swapped for another kind of object's, or reading meets errors, short reads or failing opens; "
   "non-trivial when the damage or fault was met", "hash of the history, the damage and its place", [SIM_DISK, SIM_OMP, SIM_MEM], A_FRESH+A_SMALL)
_p("H01", "seeded histories of one or two workspaces against fresh objects and an executable reference model",
   "Seeded search over operation sequences. Two oracles: a workspace built directly in the model's state, and an independent numpy model of couple/decouple/windows.",
   "seeded sequences of compute, update_beams, update_bins, update_coupling_matrix, save, load (with and without the unbinned matrix, plain and .gz files), questions and refused calls, on fields of one or two band limits; "
   "every answer is checked; non-trivial when the workspace changed at least once before a question", "hash of the world and operation sequence", [SIM_OMP, SIM_MEM, SIM_DISK], A_FRESH+A_SMALL)
_p("H02", "seeded histories of flat-sky and covariance workspaces against fresh objects",
   "Seeded search over operation sequences; oracle: an object built directly in the model's state.",
   "seeded sequences of compute, save, load (restricted to spin 0 or not), questions and refused calls on flat-sky, covariance and flat-sky covariance workspaces, on fields of one or two band limits",
   "hash of the world and operation sequence", [SIM_OMP, SIM_MEM, SIM_DISK], A_FRESH+A_SMALL)
_p("H03", "seeded call histories over shared objects, each answer compared with fresh objects",
   "Seeded search over call orders, with garbage collection and default settings changed in between; arrays the caller passed and results handed out are compared bytewise at the end.",
   "seeded requests over a shared pool of fields, their copies, binnings and workspaces (in the order drawn, shuffled and reversed), with up to four worlds of other resolutions or parts of the sky in the same process, some under seeded OpenMP schedules; non-trivial when two requests share an object",
   "hash of the world and the request sequence", [SIM_OMP, SIM_MEM, SIM_DISK], A_FRESH+A_SMALL)
_p("H04", "seeded histories whose numbers arrive in arrays of seeded layouts that the caller overwrites after each call",
   "Seeded search over histories, layouts and what the caller does with its arrays afterwards; oracle: the same history with plain arrays nobody touches.",
   "seeded requests on a shared pool and seeded operations on live workspaces; every array argument is carried by a strided, reversed, Fortran-ordered, byte-swapped, unaligned, read-only, "
   "narrower (single or half precision, integer, boolean), embedded array or a list, which is checked, then overwritten with NaN or other numbers or kept after each call; non-trivial: every run",
   "hash of the world, the history, the layouts and the caller's treatment of its arrays", [SIM_OMP, SIM_MEM, SIM_DISK],
   ["a history with plain arrays on one thread is the reference"]+A_SMALL+["long double and complex arrays and subclasses of ndarray are not drawn; integers, booleans and half precision carry reals only where these are whole numbers"])
_p("E01", "seeded allocation failures (library, GSL, numpy) inside seeded histories",
   "Seeded search over (operation, allocation, length of the shortage). The recorded finding (failure inside a parallel region of several threads) is matched by that circumstance only.",
   "seeded histories; a dry run counts the allocations of an operation, then one or a run of them fails; afterwards everything is asked, the operation repeated; non-trivial when an allocation failed",
   "hash of the history and the failing allocation", [SIM_OMP, SIM_MEM, SIM_GSL], A_FRESH+A_SMALL+["allocations inside FFTW, CFITSIO, HEALPix C, ducc0 and the Python interpreter do not fail"])
_p("E02", "seeded histories of impossible requests among possible ones, on one and many threads",
   "Seeded search over a catalogue of about 100 kinds of impossible request with seeded particulars; each must raise the same exception as on fresh objects, everything else is compared with fresh objects.",
   "seeded sequences mixing impossible and possible requests over a shared pool, under one thread with arbitrary memory contents and under seeded schedules; non-trivial when at least one impossible request was made",
   "hash of the world, the request sequence and the schedule's seed", [SIM_OMP, SIM_MEM, SIM_GSL, SIM_DISK], A_FRESH+A_SMALL)
_p("T01", "several caller threads, one runnable at a time, switched by the seed at single bytecodes",
   "Seeded search over interleavings of real Python threads (switch points: every bytecode of pymaster's Python code and wherever the wrapper gives up the GIL; half of the switches of the pair runs follow a store other threads may see).",
   "seeded programs for 2 to 4 caller threads over shared fields, binnings and workspaces or with workspaces of their own, with refused requests among them, each under ten schedules; pairs of requests that meet in the same object and code, 20 to 60 times over, "
   "one suspended at a drawn step while the other acts, on fields that were asked before or not; non-trivial when the callers were switched at least once inside a request",
   "hash of the program and of the sequence of switches", [SIM_THR, SIM_OMP, SIM_MEM, SIM_DISK], A_FRESH+A_SMALL+["C code runs without another caller running unless the wrapper releases the GIL; where it does, callers are switched at the release and the re-acquisition"])
_p("K01", "an asynchronous exception delivered at a seeded point of seeded operations",
   "Seeded search over (operation, Python-level point). Signals are delivered by CPython between bytecodes, so C code is never cut.",
   "seeded histories; a dry run counts the points of an operation, then KeyboardInterrupt is raised at one; afterwards every object is asked everything, then the operation repeated; non-trivial when it was delivered",
   "hash of the history and the point", [SIM_THR, SIM_OMP, SIM_MEM, SIM_DISK], A_FRESH+A_SMALL)
_p("M01", "seeded histories repeated and discarded, with everything that is held counted at the seams",
   "Seeded search over histories and OpenMP schedules. What the C library, GSL, FFTW and numpy hold, transform plans, open files and Python objects are counted after each of seven "
   "repetitions; growth that continues is a violation, a bounded cache is not.",
   "seeded requests on a shared pool and seeded operations on live workspaces of all kinds, repeated seven times in one process; calls that raise are left out; everything is discarded "
   "in a seeded order after each repetition", "hash of the world, the history and the schedule", [SIM_OMP, SIM_MEM, SIM_GSL, SIM_DISK],
   A_SMALL+["memory that CFITSIO, HEALPix C, healpy, ducc0 and FFTW's planner hold internally is not counted (open files, plans and FFTW arrays are)",
            "calls that raise may leak: the library leaves its C code with longjmp"])
