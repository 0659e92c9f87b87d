"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


UT = ("The stable tests run the parallel code under whatever schedule one machine happens to produce, with one team "
      "size and freshly mapped (zeroed) memory; ")

prop("S01", "Curved-sky mode coupling is independent of threads and schedule",
     "The mode-coupling matrices, binned coupling and everything derived from a curved-sky workspace (for every spin pair, "
     "purification choice, anisotropic mask, Toeplitz approximation, E/B coupling flag, normalisation and band-limit) are the "
     "values a single thread computes, to rounding. "
     "This holds for every number of threads, every interleaving of them and whatever the memory they are given contains. "
     "The computation always finishes.",
     ["schedules", "configurations", "inputs"],
     "all thread counts, team sizes, chunk assignments and preemption points inside the parallel regions; all prior memory contents; spins, purification, Toeplitz, anisotropic, TEB, lmax != lmax_mask, binnings",
     UT + "test_master.py (the only tests of these routines' numbers) cannot even load its benchmarks here, and nothing compares two schedules.",
     ["src/nmt_master.c", "src/utils.c", "src/nmt_bins.c", "pymaster/workspaces.py"],
     [("per-thread Wigner-3j buffers and row ownership in the parallel region", "src/nmt_master.c: nmt_compute_master_coefficients"),
      ("anisotropic variant of the same", "src/nmt_master.c: nmt_compute_coupling_matrix_anisotropic"),
      ("parallel filling and Toeplitz completion", "src/nmt_master.c: populate_toeplitz, nmt_compute_coupling_matrix"),
      ("log-factorial table shared by threads", "src/utils.c: drc3jj and callers")],
     observe=["get_coupling_matrix", "get_bandpower_windows", "couple_cell", "decouple_cell"])

prop("S02", "Curved-sky covariance is independent of threads and schedule",
     "Covariance coupling coefficients and the Gaussian covariance matrices computed from them are the values a single "
     "thread computes, to rounding, for every thread count, every interleaving and whatever the memory contains, "
     "for every spin combination, coupled or decoupled output, Toeplitz approximation or spin-0-only mode; the computation always finishes.",
     ["schedules", "configurations", "inputs"],
     "all thread counts, team sizes and preemption points; memory contents; spin combinations 0/2, Toeplitz, spin0_only, coupled",
     UT + "test_covar.py needs benchmark files that are absent, so nothing stable exercises the curved-sky covariance at all.",
     ["src/nmt_covar.c", "src/nmt_master.c", "pymaster/covariance.py"],
     [("row ownership of the covariance matrix elements", "src/nmt_covar.c: nmt_compute_gaussian_covariance, nmt_compute_gaussian_covariance_coupled"),
      ("coefficients from the shared mode-coupling calculator", "src/nmt_covar.c: nmt_covar_workspace_init")],
     observe=["gaussian_covariance"])

prop("S03", "Flat-sky fields and spectra are independent of threads and schedule",
     "Flat-sky fields (with templates, beams, purification), coupled power spectra, coupling matrices, deprojection bias, "
     "and coupled/decoupled theory spectra are the values a single thread computes, to rounding. This holds for every thread "
     "count, every interleaving and whatever the memory contains, and the computation always finishes.",
     ["schedules", "configurations", "inputs"],
     "all thread counts, team sizes and preemption points; memory contents; map sizes, spins, templates, purification, ell cuts",
     UT + "the races of these reductions (bin counts, per-ell sums, per-row matrix updates) show up only when two threads meet inside one update.",
     ["src/flatsky_utils.c", "src/nmt_field_flat.c", "src/nmt_master_flat.c", "pymaster/field.py", "pymaster/workspaces.py"],
     [("thread-private accumulators merged in a critical section or by rows", "src/nmt_master_flat.c: nmt_compute_coupling_matrix_flat, nmt_compute_coupled_cell_flat"),
      ("row-partitioned FFT products and derivative weights", "src/flatsky_utils.c"),
      ("purification over rows", "src/nmt_field_flat.c: nmt_purify_flat, walm_x_lpower")],
     observe=["NmtFieldFlat.get_maps", "compute_coupled_cell_flat", "NmtWorkspaceFlat.couple_cell", "NmtWorkspaceFlat.decouple_cell", "deprojection_bias_flat"])

prop("S04", "Flat-sky covariance is independent of threads and schedule",
     "Flat-sky covariance workspaces and the covariance matrices computed from them are the values a single thread computes, "
     "to rounding, for every thread count, every interleaving and whatever the memory contains; the computation always finishes.",
     ["schedules", "configurations", "inputs"],
     "all thread counts, team sizes and preemption points; memory contents; spins, ell cuts, binnings",
     UT + "one benchmark case at one schedule cannot settle a reduction over all modes of two masks.",
     ["src/nmt_covar_flat.c", "src/flatsky_utils.c", "pymaster/covariance.py"],
     [("per-thread mode-coupling sums merged across threads", "src/nmt_covar_flat.c: nmt_covar_workspace_flat_init"),
      ("row ownership of the covariance", "src/nmt_covar_flat.c: nmt_compute_gaussian_covariance_flat")],
     observe=["gaussian_covariance_flat", "NmtCovarianceWorkspaceFlat.write_to"])

prop("S05", "Mask apodization is independent of threads and schedule",
     "Apodized masks (every scheme, curved and flat sky) are the values a single thread computes, for every thread count, "
     "every interleaving and whatever the memory contains; the computation always finishes and leaves the input mask unchanged.",
     ["schedules", "configurations", "inputs"],
     "all thread counts, dynamic chunk assignments, preemption points; memory contents; masks, apodization sizes and schemes",
     UT + "overlapping discs make threads write the same pixels, which only some interleavings expose.",
     ["src/nmt_mask.c", "src/nmt_mask_flat.c", "src/healpix_extra.c", "pymaster/utils.py"],
     [("pixels are only ever set to the same value by several threads, output is written to a separate array", "src/nmt_mask.c: apodize_mask_CX, apodize_mask_smooth; src/nmt_mask_flat.c")],
     observe=["mask_apodization", "mask_apodization_flat"])

prop("R01", "Seeded random realisations are reproducible",
     "A Gaussian realisation requested with an explicit seed is the same maps every time: for every number of threads, every "
     "interleaving, whatever was drawn or computed before it and whatever other threads of the caller draw meanwhile. "
     "Different seeds give different maps.",
     ["schedules", "histories", "configurations"],
     "all thread counts and preemption points inside the generator; all preceding uses of random numbers in the process; concurrent callers",
     "Tests draw once per process and look at spectra averaged over the map; they never ask for the same seed twice under another thread count or after other draws.",
     ["src/flatsky_utils.c", "src/utils.c", "pymaster/utils.py"],
     [("seed handling of the flat-sky generator", "src/flatsky_utils.c: fs_synalm"),
      ("random number state", "src/utils.c: init_rng, rng_gauss"),
      ("seed handling of the curved-sky generator", "pymaster/utils.py: synfast_spherical")],
     observe=["synfast_flat", "synfast_spherical"])

prop("D01", "A save that reports success is a complete, faithful file",
     "When saving any workspace (curved or flat; power spectrum or covariance) returns normally, the file holds everything "
     "needed: loading it gives an object that answers every request like the one saved. "
     "When the storage fails at any point of the save - full disk, I/O error, short write, failure to open, at the final flush or at close - "
     "the save raises instead of reporting success, leaves no file open, and leaves nothing behind that loads as something else. The object being saved still answers as before.",
     ["fault_sequences", "crash_points", "configurations"],
     "every write, flush, open and close operation of a save as failure point, transient and sticky; capacities; all workspace kinds and configurations",
     "Tests save to a healthy disk only, and only one configuration per kind.",
     ["src/nmt_io.c", "pymaster/workspaces.py", "pymaster/covariance.py"],
     [("status checks after each FITS call", "src/nmt_io.c: check_fits, nmt_workspace_write_fits, nmt_workspace_flat_write_fits, nmt_covar_workspace_write_fits, nmt_covar_workspace_flat_write_fits")],
     observe=["write_to", "from_file", "read_from"])

prop("D02", "Loading never yields a wrong object: it returns exact content or raises",
     "Loading a workspace from a file that a killed save left behind, that was cut short at any byte, that belongs to "
     "another kind of object, or whose reading meets an I/O error or short read at any point, either raises an exception or gives exactly the saved content. "
     "It never crashes the process, hangs, or yields an object with missing, partial or undefined content, and after the failure "
     "the object that was asked to load and later loads of intact files behave normally.",
     ["crash_points", "fault_sequences", "histories"],
     "every prefix of the save's write sequence (with torn last write) as crash point, every truncation length, every read operation as failure point; all workspace kinds",
     "Tests check one nonexistent file name; they never load a damaged file or inject a read error.",
     ["src/nmt_io.c", "pymaster/workspaces.py", "pymaster/covariance.py"],
     [("status checks after each FITS call on the read path", "src/nmt_io.c: nmt_*_read_fits, nmt_*_fromhdus"),
      ("object state is replaced only by a successful load", "pymaster/workspaces.py: read_from; pymaster/covariance.py: read_from")],
     observe=["from_file", "read_from"])

prop("H01", "A curved-sky workspace answers like a fresh one after any history",
     "After any sequence of operations on a curved-sky workspace - computing, replacing its beams, its binning or its coupling matrix, saving and "
     "reloading (with or without the unbinned matrix), reading results, and calls that failed - every answer it gives equals that of a workspace built "
     "directly in its current state. A call that raises either changes nothing or, when recomputing or reloading, leaves the workspace empty so that every further question raises; answers do not depend on which other answers were asked before.",
     ["histories", "fault_sequences", "configurations"],
     "all operation sequences over several live workspaces, including failing operations and saves/loads in between; spins, normalisations, TEB, Toeplitz, anisotropic",
     "Tests use each updating call once, on a freshly built workspace, in one order.",
     ["pymaster/workspaces.py", "src/nmt_master.c", "src/nmt_io.c", "src/nmt_bins.c"],
     [("binned matrix recomputed from the unbinned one, beams and bins on every update", "src/nmt_master.c: nmt_workspace_update_beams, nmt_workspace_update_binning, nmt_update_coupling_matrix, bin_coupling_matrix"),
      ("the workspace owns copies of beams and bins", "src/nmt_master.c: nmt_copy_bins / nmt_compute_coupling_matrix"),
      ("has_unbinned guard", "pymaster/workspaces.py: check_unbinned")],
     state=[("workspace", "unbinned matrix, binned matrix and its LU, beams, bins, norm type and w2", "src/namaster.h: nmt_workspace")],
     observe=["get_coupling_matrix", "couple_cell", "decouple_cell", "get_bandpower_windows", "write_to"])

prop("H02", "Covariance and flat-sky workspaces answer like fresh ones after any history",
     "After any sequence of computing (repeatedly, from different fields), saving, reloading (with or without restricting to spin 0) and failed calls on a flat-sky "
     "workspace or on a covariance workspace, every answer equals that of a workspace built directly in its current state, and a call that raises either changes nothing or leaves the object empty so that every further question raises.",
     ["histories", "fault_sequences", "configurations"],
     "all operation sequences over several live objects of the three kinds, including failing operations and saves/loads in between",
     "Tests use each object for one computation.",
     ["pymaster/covariance.py", "pymaster/workspaces.py", "src/nmt_covar.c", "src/nmt_covar_flat.c", "src/nmt_master_flat.c", "src/nmt_io.c"],
     [("old state freed and replaced on recomputation", "pymaster/covariance.py: compute_coupling_coefficients, read_from; pymaster/workspaces.py: NmtWorkspaceFlat"),
      ("ordering constraints enforced by exceptions", "pymaster/covariance.py, pymaster/workspaces.py")],
     observe=["gaussian_covariance", "gaussian_covariance_flat", "couple_cell", "decouple_cell"])

prop("H03", "Shared inputs are never changed and results do not depend on call order",
     "Fields, binning schemes, workspaces and the caller's arrays can be shared by any number of computations: no computation changes the "
     "answers any of them gives, or the caller's arrays, and each result is the same whichever other computations ran before. "
     "Quantities computed on first use (mask harmonic coefficients) equal those of a fresh object whenever they are first requested, and "
     "changing the process-wide default numbers of iterations or tolerance affects only objects created, and calls made, afterwards without "
     "setting them explicitly. (Choosing the harmonic-transform back end is a process-wide switch and exempt.)",
     ["histories", "programs"],
     "all sequences of library calls over a shared pool of fields (maps, catalogs, anisotropic, purified, lite), bins and workspaces; default settings changed in between; garbage collection of intermediate objects",
     "Tests build fresh objects for each assertion.",
     ["pymaster/field.py", "pymaster/workspaces.py", "pymaster/utils.py", "pymaster/bins.py", "pymaster/covariance.py", "src/nmt_field_flat.c", "src/nmt_bins.c"],
     [("private copies of caller arrays", "pymaster/field.py: NmtField.__init__"),
      ("lazily computed and cached mask alms", "pymaster/field.py: get_mask_alms, get_anisotropic_mask_alms"),
      ("process-wide defaults captured at construction", "pymaster/utils.py: NmtParams")],
     observe=["get_maps", "get_alms", "get_mask_alms", "compute_coupled_cell", "deprojection_bias", "bin_cell"])

prop("H04", "Answers depend on the numbers passed, not on the arrays that carry them",
     "A call that accepts an array gives the same answer whichever array holds the same numbers: contiguous or strided, reversed, in Fortran order, in either byte order, unaligned, read-only, part of a larger "
     "array, a narrower type that holds them exactly, or (for maps and templates) a list of arrays. Objects keep their own copy of what they were made from: the caller may overwrite, reuse or free the arrays after any "
     "call returned, and no later answer, nor any result handed out before, changes. No call writes to the arrays it is given.",
     ["inputs", "histories", "configurations"],
     "all calls that take arrays and all histories of calls, with the arrays of every call in any layout and overwritten or freed at any time after it",
     "Tests pass fresh contiguous native arrays and never touch them again; files read by astropy or CFITSIO give byte-swapped ones, simulation loops reuse their buffers.",
     ["pymaster/numpy.i", "pymaster/namaster_wrap.c", "pymaster/namaster.i", "pymaster/field.py", "pymaster/bins.py", "pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/utils.py"],
     [("conversion of arguments to contiguous native arrays", "pymaster/numpy.i: obj_to_array_contiguous_allow_conversion"),
      ("private copies of mask, maps, templates, beam", "pymaster/field.py"),
      ("copies made by the C constructors", "src/nmt_bins.c, src/nmt_field_flat.c, src/nmt_master.c")],
     observe=["every answer of fields, binnings and workspaces", "the caller's arrays before they are overwritten"])

prop("E01", "Running out of memory surfaces as an exception and leaves the process usable",
     "When a memory allocation of the library fails at any point of any operation, the operation raises a Python exception; it never crashes the process, corrupts memory, "
     "hangs or returns a wrong result. Once memory is available again, repeating the operation with the same or fresh objects gives the normal "
     "result, and objects that existed before the failure still answer as before.",
     ["fault_sequences", "histories", "inputs"],
     "every allocation (library and GSL) of every operation as failure point; retries afterwards",
     "Tests never make an allocation fail.",
     ["src/utils.c", "src/nmt_master.c", "src/nmt_master_flat.c", "src/nmt_field_flat.c", "src/nmt_covar.c", "src/nmt_covar_flat.c", "src/nmt_mask.c", "src/nmt_io.c", "src/flatsky_utils.c", "src/healpix_extra.c"],
     [("checked allocation", "src/utils.c: my_malloc, my_calloc, dftw_malloc"),
      ("errors reported by longjmp to the Python boundary", "src/utils.c: report_error; pymaster/namaster.i")],
     observe=["every public operation"])

prop("E02", "Invalid requests raise an exception whichever thread detects them",
     "A request the library cannot carry out - inconsistent sizes, out-of-range scales, unsupported combinations, unreadable files with names of any length, singular matrices - raises a Python exception. "
     "It never terminates or corrupts the process, also when the problem is detected by a worker thread, "
     "and objects and later calls behave as if the request had not been made.",
     ["inputs", "schedules", "histories"],
     "invalid requests of every public operation, thread counts and schedules, interleaved with valid ones",
     "Tests check selected invalid calls on a fresh process and not what happens afterwards, nor errors detected inside parallel regions.",
     ["src/utils.c", "src/utils.h", "pymaster/namaster.i", "src/nmt_mask.c", "src/nmt_master.c", "src/healpix_extra.c", "src/nmt_io.c"],
     [("errors reported by longjmp to the Python boundary", "src/utils.c: report_error; src/utils.h: try/finally; pymaster/namaster.i: %exception")],
     observe=["every public operation"])

prop("T01", "Concurrent callers get the results of calling one after another",
     "Several Python threads may use the library at once, sharing fields, binning schemes and workspaces they only read: each call gives the result it gives "
     "when the threads run one after another, whatever the interleaving. An error in one thread is raised in that thread only and never shows up in another.",
     ["schedules", "histories"],
     "all interleavings (at Python call boundaries and between bytecodes) of 2-4 caller threads running mixed workloads over shared objects",
     "No test uses more than one Python thread.",
     ["pymaster/field.py", "pymaster/utils.py", "pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/namaster.i", "src/utils.c"],
     [("library calls hold the interpreter lock", "pymaster/namaster_wrap.c"),
      ("lazily filled caches", "pymaster/field.py: get_mask_alms"),
      ("process-wide error state", "src/utils.c: nmt_exception_status, nmt_error_message")],
     observe=["every public operation"])

prop("K01", "Interrupting a call leaves every object safe and usable",
     "When a call is interrupted by an asynchronous exception (Ctrl-C) at any point, the exception reaches the caller and every object involved either answers as before the call, "
     "as after it, or raises; it never answers with something else, and using, recomputing or discarding it never crashes the process. "
     "Repeating the interrupted call then succeeds and gives the normal result.",
     ["crash_points", "histories"],
     "every interruption point between the Python-level steps of every operation; follow-up use, recomputation and garbage collection",
     "Tests never interrupt a call.",
     ["pymaster/workspaces.py", "pymaster/covariance.py", "pymaster/field.py", "pymaster/bins.py", "pymaster/utils.py"],
     [("C objects released and replaced one step at a time", "pymaster/workspaces.py: read_from, compute_coupling_matrix, __del__; pymaster/covariance.py")],
     observe=["every public operation"])

prop("M01", "Repeating calls and discarding what they made holds nothing more",
     "After any sequence of calls that return normally - creating fields, binnings and workspaces, computing again into the same object, saving, loading, updating, asking - and after "
     "discarding everything they made in any order, the library holds what it held when the same sequence had been run and discarded before: no more memory "
     "(of the C library, GSL, FFTW or arrays), transform plans, Python objects or open files. Loops of any length over realisations therefore run in bounded memory, for every number of threads and interleaving.",
     ["histories", "schedules", "configurations"],
     "all sequences of successful calls on all kinds of object, any order of discarding, any number of threads",
     "Tests make each object once and never look at what is left; a leak shows only after thousands of realisations, when the process is killed.",
     ["src/*.c (every *_free)", "pymaster/*.py (__del__, replacement of C objects)", "pymaster/namaster.i"],
     [("every kind of C object has a free function that releases its parts", "src/nmt_master.c, nmt_covar.c, nmt_covar_flat.c, nmt_master_flat.c, nmt_field_flat.c, nmt_bins.c, nmt_bins_flat.c"),
      ("thread-private buffers released inside parallel regions", "src/nmt_master.c, nmt_master_flat.c, nmt_covar_flat.c, nmt_mask.c, nmt_mask_flat.c"),
      ("C objects replaced when computing or reading again", "pymaster/workspaces.py, pymaster/covariance.py")],
     observe=["allocator of the library, GSL, FFTW and numpy at the seam; the simulated disk's open files; Python's garbage collector"])

# ---- pure-function guarantees: stated, not claimed by this family
T = "The benchmark tests compare a handful of cases, most of which cannot run here because the benchmark files are absent."
prop("P01", "The estimated bandpowers are unbiased",
     "Averaged over realisations, decoupled bandpowers of masked fields equal the underlying spectra convolved with the reported bandpower window functions, for every mask, spin, purification and binning.",
     ["inputs"], "masks, spins, purification, binnings, beams", T,
     ["src/nmt_master.c", "pymaster/workspaces.py"], [("mode-coupling matrix", "src/nmt_master.c: nmt_compute_master_coefficients")])
prop("P02", "Binning conserves weighted averages and its pieces are consistent",
     "Bandpowers are the normalised weighted averages of the multipoles assigned to them; unbinning assigns constants; effective multipoles are the weighted means.",
     ["inputs"], "all binnings, weights, f_ell", "Tests check two binnings.",
     ["src/nmt_bins.c", "src/nmt_bins_flat.c", "pymaster/bins.py"], [("weights normalised per band", "src/nmt_bins.c: nmt_bins_create")])
prop("P03", "Gaussian covariances equal the scatter of simulations",
     "The predicted covariance matches the ensemble covariance of decoupled bandpowers within the accuracy of the narrow-kernel approximation.",
     ["inputs"], "masks, spectra, spins", T,
     ["src/nmt_covar.c", "src/nmt_covar_flat.c"], [("covariance coupling coefficients", "src/nmt_covar.c: nmt_covar_workspace_init")])
prop("P04", "Template deprojection removes exactly the contaminant subspace",
     "Deprojected maps do not change when any linear combination of the templates is added to the input, and the deprojection bias equals the expectation value removed.",
     ["inputs"], "templates, masks, spins, collinear templates", T,
     ["pymaster/field.py", "src/nmt_field_flat.c", "pymaster/workspaces.py"], [("pseudo-inverse of the template overlaps", "pymaster/field.py: NmtField.__init__")])
prop("P05", "Purification removes the ambiguous modes",
     "Purified B modes of a pure-E signal vanish up to pixel accuracy for every differentiable mask, and vice versa.",
     ["inputs"], "masks, apodization", T, ["pymaster/field.py", "src/nmt_field_flat.c"], [("spin-raised mask derivatives", "pymaster/field.py: _purify")])
prop("P06", "Harmonic transforms are inverse to each other for every pixelisation",
     "Spherical harmonic synthesis followed by analysis recovers band-limited coefficients, for HEALPix and rectangular pixelisations and both transform back ends.",
     ["inputs"], "pixelisations, spins, back ends", "Tests check two resolutions.", ["pymaster/utils.py"], [("ring geometry", "pymaster/utils.py: _SHTInfo")])
prop("P07", "Catalog fields subtract the exact shot and mask noise",
     "Power spectra of catalog-based fields have no contribution from the discreteness of the sources or randoms, for every weighting.",
     ["inputs"], "catalogs, weights, randoms", T, ["pymaster/field.py"], [("analytic noise Nf, Nw", "pymaster/field.py: NmtFieldCatalog")])
prop("P08", "Wigner 3j symbols are exact to rounding",
     "The recursion returns the 3j symbols of every admissible argument to rounding error and never reads outside its tables.",
     ["inputs"], "l1, l2, m up to thousands", "Tests check a few dozen symbols.", ["src/utils.c"], [("drc3jj recursion", "src/utils.c: drc3jj")])
prop("P09", "Fourier-space weighting of flat maps respects the geometry",
     "Flat-sky spectra are invariant under exchange of the axes together with the map, parity flips and translations of a periodic map.",
     ["inputs"], "map sizes and shapes", T, ["src/flatsky_utils.c", "src/nmt_master_flat.c"], [("frequency grids", "src/flatsky_utils.c")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
