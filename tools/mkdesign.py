import json,subprocess,os
V='/verif'
head='''# Deterministic simulation of NaMaster

NaMaster is a Python package (`pymaster`) over a C library (`src/`). What varies between two runs of the same
script is: the OpenMP schedule and team size, the contents of fresh memory, which allocation fails, what the disk
does under CFITSIO, when Ctrl-C arrives, how several Python threads interleave, and what was called before on the
same objects. All of that is put behind seams and driven by one seed. The properties (properties.jsonl) are the
guarantees that quantify over these things. What NaMaster computes as a pure function of its input (P01-P09) is
listed too, because it is what the package is for, but this family of technique has nothing to vary there: those are
`not_applicable`.

## The simulator

One process per simulated run (forked from a warm parent), everything inside it under seeded control:

| source of nondeterminism | seam | where |
|---|---|---|
| OpenMP threads, `critical`, `barrier`, dynamic `for` | libgomp's interface implemented on fibers of one OS thread; every memory access of the library (compiled with `gcc -fsanitize=thread`, callbacks are ours) is a preemption point | `sim/simrt.c` |
| memory contents, overruns, use after free, failing allocations | `malloc` family of the library, of GSL and of FFTW's arrays redirected with `objcopy`: seeded fill, guard zones, quarantine, n-th allocation fails; numpy's arrays through numpy's allocator hook | `sim/simrt.c`, `sim/npfill.c` |
| disk | CFITSIO's stdio redirected to an in-memory disk: capacity, short / torn / failing reads and writes, failing open / close, kill at a write, unflushed stdio buffers lost at a kill; file calls of the library itself (`fopen`, `rename`, `remove`, `stat`) and of Python (`open`, `os.replace`, `os.path.*`...) on its names go there too, with a slow clock for file times | `sim/simrt.c`, `sim/pyfs.py` |
| caller threads, Ctrl-C | real Python threads, one runnable at a time; `sys.monitoring` gives the switch points (every bytecode of pymaster, and where the wrapper gives up the GIL) and the interrupt points (bytecodes at which CPython delivers signals) | `sim/thr.py` |
| random numbers | numpy / `random` / FFTW seeds set per run; R01 varies them on purpose | `sim/rand.py` |
| clock | none is read by the code (only `seed=-1` realisations use `time()`; nothing is promised for them) | - |

No hook was added to /repo: the seams are link-time. `sim/build.py` compiles /repo's current `src/*.c` and
`pymaster/namaster_wrap.c` with instrumentation into `build/sim-<hash of contents and flags>/`; pymaster's Python
files are copied beside it. No check reads line numbers, function names or source text: they look at results,
exceptions, memory events (guard zones, freed memory, aborts, signals, deadlocks, step caps), and counts only.

Time in a simulated run is the number of memory accesses and scheduling points executed (the step counter); a run
that exceeds a cap relative to the one-thread reference counts as a hang.

One seed is one execution: `sim/run.py selftest` runs every engine's tasks twice, with another `PYTHONHASHSEED` and
other worker counts, and compares digests. Work is dealt out by task number (seed = f(VERIF_SEED, property, task)), so
the number of workers changes only how many tasks fit in the time.

Every violation is minimised (delta debugging over the requests, the schedule's preemptions and the faults), written to
`replays/<property>-<hash>.json`, and confirmed in a fresh process by `sim/run.py replay FILE` before the VIOLATION
line is printed.

### Files

| file | what |
|---|---|
| `sim/simrt.c` | fibers and scheduler, allocator, disk, counters |
| `sim/npfill.c` | numpy's allocator: seeded contents, failures, count of live arrays |
| `sim/build.py`, `simlib.py`, `harness.py`, `run.py`, `registry.py` | build, control of a run, forks / minimisation / known findings, command line, what decides which property |
| `sim/ops.py` | worlds: seeded descriptions of fields (masks, spins, templates, purification, beams, anisotropic weights, catalogues, HEALPix and rectangular pixels), binnings, workspaces; the questions that can be asked of them; comparison of answers |
| `sim/workloads.py` | the cases of S01-S05 |
| `sim/hist.py` | model of live workspaces: operations, the state each should leave, how to build a fresh object in that state, old file formats |
| `sim/bad.py` | catalogue of impossible requests |
| `sim/sched.py`, `rand.py`, `calls.py`, `refuse.py`, `conc.py`, `stage.py`, `leak.py`, `carry.py` | the engines |
| `tools/` | generate properties.jsonl, MANIFEST.json, known_findings.json's list of fixes |

### Schedules

A configuration is a team size (2 to 100), a strategy and a seed: random preemption with a given mean distance between
switches; priorities with a few change points (PCT); one thread stalled; adversarial assignment of the chunks of dynamic loops
(all to one thread, reversed, round robin, bursts); preemption concentrated on *hot* instructions: the addresses at which two
threads were seen to touch the same memory, one writing, in an earlier run of the same case. Barriers,
`single`, `critical`, `atomic`, `ordered`, locks, sections, tasks (run at once, or later by any thread of the team, as the seed decides), task groups and task loops, and nested regions are simulated with libgomp's semantics, whether today's code uses them or not; a state where no fiber can run
is a deadlock and reported. Atomic read-modify-writes are not split; everything else is.

### Reference and oracles

* *one thread, zeroed memory* - the same build run with a team of one (S*, R01).
* *fresh objects* - the same question asked in a fresh process of objects built directly in the state the model
  (`hist.py`, `stage.py`: a small state machine of what each object should now be) says the object is in.
* *independent model* - numpy code for couple/decouple/windows/binning of a curved-sky workspace (H01), which does not
  share the library's code.
* *memory oracle* - writes or reads outside a block, of freed memory, double free, crash, hang (step cap relative to the
  reference run), abort, files left open on the simulated disk.
* *conservation* (M01) - counts of everything held, over repetitions of the same history.
* answers are compared with a tolerance (1e-9 of the largest element, 1e-7 where a matrix inversion is involved): a
  refactoring that reorders a sum is no alarm. Exceptions are compared by type with what fresh objects raise.

## Properties

**S01-S05** (`sim/sched.py`): a seeded case of the routine is computed on one thread, with other memory contents, then under
8-20 seeded schedules; the number of processors reported is drawn apart from the number of threads, and bandpower tables come in any row order and with prefactors of their own. Bounds: band limits mostly below 40, maps below 32x32. The tests run one schedule on zeroed memory.
A race needs a particular interleaving; an uninitialised read needs memory that is not zero; neither is in reach of a test.

**R01** (`sim/rand.py`, 30% `sched.py`): seeded realisations amid other draws (numpy, healpy, `random`, unseeded and refused realisations),
on HEALPix and rectangular pixels, on several caller threads and OpenMP schedules, with other environment variables (`GSL_RNG_TYPE`, `GSL_RNG_SEED` and such), compared with the same call in a fresh process on one thread; different seeds must differ.

**H01, H02** (`sim/hist.py`): seeded operation histories of live workspaces (compute, update_beams / bins / coupling_matrix, save, load
with and without the unbinned matrix or restricted to spin 0, files of older versions, files with compressed names (`.fits.gz`), files read again after the object or the file was changed, questions,
refused calls). The same live objects are given fields of a second world with another band limit in a third of the histories. After every
operation the model says which state the object is in; every answer is compared with an object built directly in it.

**H03** (`sim/calls.py`): seeded requests over a shared pool of fields, binnings and workspaces in three orders (drawn, shuffled, reversed),
with default settings changed and garbage collected in between, each answer compared with fresh objects; half of the histories alternate between
two to four worlds of other resolutions, pixelisations or parts of the sky in one process (as a survey analysis does), some thrown away midway; arrays of the caller and
results handed out earlier are compared bytewise at the end. Requests also go to copies (`copy`, `deepcopy`) of fields.

**E02** (`sim/refuse.py`, catalogue `sim/bad.py`): about 100 kinds of impossible request with seeded particulars, swept systematically
over every world and mixed among possible ones, on one and several OpenMP threads; each must raise, nothing else may change. Among them: maps given transposed, covariances whose spectra are mixed up or of which several are bad, and copies (`copy`, `deepcopy`, `pickle`) of objects that own C structures.

**T01** (`sim/conc.py`): the histories of H01/H02/H03 and impossible requests issued by 2-4 caller threads at once, one runnable at a time; up
to ten interleavings per program, preferring switches inside the code first executed by two threads ("hot") and first-use windows
("cold" fields shared by all threads). Half of the programs are *pairs*: two requests that meet in the same object (often the same
function, asked something else), run 20-60 times over in one process, one suspended at a drawn step - every second time right after a store to
an attribute or element - while the other runs or is suspended in its turn, with fields that were or were not asked before, and with callers that work at different resolutions. Each call must give what it gives alone; an error must be raised in its own thread only.

**D01, D02, E01, K01** (`sim/stage.py`): the same histories with a fault aimed at a seeded point: a dry run of the operation counts
the chances (writes, reads, bytes, allocations, Python-level points) and the seed chooses among them, favouring first and last ones.
Then everything is asked, the operation repeated without the fault, and asked again.
D01: full disk at a byte, I/O error once or lasting, short write, failing open or close, small stdio buffers; a save that returned is
loaded back and compared in full; one that raised must not leave a file that loads as something else. D02: kill at a write (torn or not, unflushed buffers lost), cut at a byte (favouring the boundaries of FITS blocks and sections),
wrong kind of file, a file of an older version, read errors and short reads; what loads must answer as the saved object did. Besides, *sweeps* save, cut or read one file 5-50 times, each time with another fault
(every multiple of a FITS block is a likely cut), and what loads is also saved again and compared with the bytes that the intact file gives. A quarter of the curved worlds of D01/D02 have files larger than CFITSIO's buffers, some a single matrix that is.
E01: the n-th allocation (library, GSL, numpy), or a run of them, fails. K01: KeyboardInterrupt at any Python line or return from C.

**M01** (`sim/leak.py`): a seeded history (requests on a shared pool and operations on live workspaces of every kind, files included) is run seven
times in one process; everything is discarded in a seeded order after each; blocks and bytes of the library, GSL blocks, FFTW arrays and
plans, numpy arrays, Python objects and open files are counted. Growth from the third to the fifth *and* from the fifth to the seventh
repetition is a violation: a cache with a bound is not. 40% of the tasks run under OpenMP schedules. Calls that raise are left out.

**H04** (`sim/carry.py`): a seeded history is run once with plain arrays, then again with every array the caller passes lent in a seeded
carrier: strided, reversed or Fortran order, the other byte order (as FITS readers return), unaligned, read-only, a view inside a larger array, a
list, a narrower type that holds the same numbers (single precision; integers, booleans where the numbers are whole, as binary masks are); after each call the caller overwrites what it lent (NaN or other numbers) or keeps it.
Answers must be those of the plain history; what was lent and what was handed out earlier must stay as it was. The nondeterminism
here is what the caller's memory does after and around the call; tests pass fresh contiguous arrays and do not touch them again.

Costs: %(secs)s s on 8 cores per quick check, 90-130 s for E02, M01, H03, T01 (10 000-40 000 simulated runs; E02, H03, T01 2 000-8 000), 600 s thorough.

Coverage reached (gcov on a separate build, all properties together, one quick run each): every line of the C library except functions that
are not exposed to Python and the rescaling branch of the Wigner recursion (needs l in the hundreds); E01 failed 545 of the 556
distinct allocation sites of the library at least once; E02 reaches almost every `raise`, `report_error` and `asserting`.

### Not applicable

P01-P09 - pure functions of their input: no schedule, I/O, fault or history takes part. (P08's "never reads outside its
tables" is covered where a table is shared or sized by the caller: S01, E02.)

## Genuine defects

Repaired, each a `fix:` commit (the property's check passes on the repaired tree and reports the old tree):

%(fixed)s

Recorded, not repaired (`known_findings.json`; matched by the circumstance, so anything else is still reported):

%(found)s

*E01-team-oom* would need every allocation inside a parallel region to be hoisted or its failure carried to the end of
the region in a dozen places: not a small patch. The check demands everything of E01 except in runs where the failing allocation was
made inside a region of several threads and unwound it. *D01-ffwend-loss* is CFITSIO's own: its `ffwend` restores
the status it was called with when that was zero, so an error met while it makes room is lost; only a one-off error exactly there shows.

## False alarms met and corrected

What the checks reported at some time on a tree that was right, and what was changed:

* flat covariances between fields of different `lx` with the same number of pixels: accepted by the library by design of its test
  (compares pixel numbers only); the world generator no longer mixes them.
* covariance files cut inside the sections that `force_spin0_only` does not read load without error and are complete for what they are asked: the model now
  treats what was read, not what the file should hold.
* nested parallel regions: libgomp runs them on one thread by default; so does the simulator now.
* a file of the wrong kind that happens to have every section another kind needs: exact content in the sense of the file; D02 compares with the
  content of the file, not the class that wrote it.
* exceptions swallowed by design (`except: pass` style sub-requests of a question) counted as changes: the questions are now split.
* allocation failures that hit the harness's own comparison code: the injection window now opens only around the library call.
* step caps for requests that are rejected quickly on one thread: no cap for rejected cases.
* `"x.fits[0]"`: CFITSIO itself leaves the file open when extended syntax opens another HDU; not generated.
* a binning with duplicated bands gives an exactly or nearly singular matrix depending on rounding: excluded from comparisons.
* "wrong shapes" that are right for n = l = 1; rectangular maps given as HEALPix ones of the same size when the mask's coefficients were
  not yet needed: both legitimately accepted.
* the model of a curved workspace took a refused band limit to be above that of every world; with a second, larger world it was a legitimate one.
* growth in the leak counts because of exceptions that the world swallowed: refused steps are left out of repetitions.

## Planted bugs

`seeded/<id>/`; every one builds, passes the stable tests, and its demonstration tells it apart. "found" is the time the quick check (8 cores)
took to report it when last tried.

| id | needs | found |
|---|---|---|
%(bugs)s

Beside these, some hundred ad-hoc mutants were tried while building; those missed at first led to: dense faults, boundary cuts,
files of older versions, `hot` switches, `cold` fields, pair runs with switches after stores, the catalogue sweeps, bigger worlds for D01/D02, questions about
results handed out earlier, aged saves.

## Observations that are no violations of the listed properties

* `nmt_bins_flat_search_fast` gives multipoles in gaps between flat bands to a neighbour (P02).
* flat apodization uses dy = lx/nx, and tables much larger than the patch when the scale is; flat purification uses frequencies 2 pi/nx, 2 pi/ny (P05, P09).
* `NmtField._purify` uses `ainfo_mask` for the spin-2 coefficients: purification with `lmax_mask != lmax` raises.
* `nmt_covar_workspace_write_fits` sets `cw->lmax_mask = cw->lmax` in the object it saves (nothing reads it afterwards).
* NaN inputs propagate silently. `NmtFieldCatalog` (positions only) and `NmtFieldCatalogClustering` lack `nmaps`.
* covariance of coupled spectra with bands that share multipoles and have different `f_ell`: the last band wins (it used to be the schedule's choice, see S02 above).
* flat-sky workspaces accept bins with the same number of bands and other edges.
* products of matrix dimensions are `int` in `nmt_io.c` and `nmt_covar_flat.c`; they overflow above 2^31 elements, beyond what is simulated.
* refused calls leak (the library leaves C by longjmp; SWIG's output arrays are not freed): M01 promises only for calls that return.
'''
k=json.load(open(V+'/known_findings.json'))
fixed='\n'.join('* '+f.split(' ',1)[1] for f in k['fixed'])
found='\n'.join('* **%s** (%s): %s. Where: %s'%(f['id'],f['property'],f['what'],f['where']) for f in k['findings'])
times=json.load(open('/verif/tools/times.json')) if os.path.exists('/verif/tools/times.json') else {}
rows=[]
for b in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%b))
    rows.append('| %s | %s | %s |'%(b,m['needs'].replace('|','/'),times.get(b,'within 40 s')))
import re
secs=re.search(r'"quick": (\d+)',open(V+'/sim/registry.py').read()).group(1)
out=head
for a,b in (('secs',secs),('fixed',fixed),('found',found),('bugs','\n'.join(rows))): out=out.replace('%%(%s)s'%a,b)
open(V+'/DESIGN.md','w').write(out)
