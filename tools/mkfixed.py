import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],stdout=subprocess.PIPE).stdout.decode().splitlines()
m={
"report errors met when closing":("D01","a full disk or I/O error met only at the final flush/close of write_to was reported as success, leaving a truncated file"),
"do not use uninitialised Wigner":("S01","purified coupling coefficients read Wigner symbols below l=2 that were never computed: results depended on memory contents"),
"allocate enough space for the Wigner":("E02","lmax_mask < lmax overran the per-thread Wigner buffers (heap corruption)"),
"precompute all the log-factorials":("S01","log-factorial table was too short for lmax_mask > lmax: out-of-bounds reads"),
"initialise the covariance of coupled":("S02","gaussian_covariance(coupled=True) accumulated into uninitialised memory"),
"reserve enough space for the pixels":("S05","apodization with a large radius overran the pixel list; error raised on a worker thread killed the process"),
"make seeded flat-sky realizations":("R01","synfast_flat(seed=) depended on the number of threads"),
"make seeded curved-sky realizations":("R01","synfast_spherical(seed=) depended on global numpy/healpy state and on concurrent callers"),
"recover the FKP":("H01","update_beams/update_bins/update_coupling_matrix on a reloaded FKP workspace used an undefined normalisation"),
"forget a C object before":("K01","KeyboardInterrupt between freeing a C object and clearing the pointer: double free"),
"refuse to update a workspace":("H01","update_beams/update_bins on a workspace loaded without its unbinned matrix: segmentation fault"),
"stop reading a FITS file":("D02","a failed read of BEAMS/PCL_MASKS and others was forgotten, sizes that were never read were used, read errors were taken for old formats"),
"do not overflow the error message":("E02","error messages longer than 256 characters (long file names) overflowed a static buffer"),
"raise an exception when GSL":("E02","singular coupling matrices or GSL allocation failures aborted the Python process"),
"reject flat-sky workspaces":("E02","compute_full_master_flat with a workspace of other spins (or T-E-B) overran its arrays"),
"leave a workspace as it was":("E01","an allocation failure in update_bins/update_beams/update_coupling_matrix left a half-updated workspace with dangling pointers"),
"keep full precision in the header":("H02","a flat-sky workspace read back from disk had map sizes off by a rounding error, so that modes at the edge of a bin moved to another"),
"check the memory allocated by the Python wrapper":("E01","pointer arrays allocated by the Python wrapper were not checked: segmentation fault when memory runs out"),
"reject negative bandpower indices":("E02","negative bandpower, map or template indices read outside the arrays"),
"save bandpowers that share multipoles":("H02","bandpowers sharing a multipole were silently changed when a workspace was saved and loaded"),
"report a full disk met when":("D01","a full disk met when CFITSIO flushes its last buffers was reported as success"),
"close FITS files when reading":("D01","files stayed open after saving or loading failed: descriptors ran out and the space of a removed partial file was not freed"),
"reject empty flat-sky maps":("E02","flat-sky fields, realizations and apodization with zero or negative map sizes crashed the process"),
"reject negative spins in coupling":("E02","a coupling matrix of fields with a negative spin read outside its Wigner tables and crashed the process"),
"reject missing file names":("E02","read_from(None) crashed the process"),
"whose multipoles cannot be counted":("E02","flat-sky patches of infinite, vanishing or extremely anisotropic size never finished"),
"refuse to copy objects that own":("E02","copy.copy of a binning scheme, flat-sky field or workspace gave an object sharing memory that was then freed twice"),
"covariance of multipoles shared by":("S02","coupled covariance of bandpowers that share multipoles with different prefactors depended on the thread schedule (two threads wrote the same element)"),
"reject a missing apodization type":("E02","mask_apodization_flat with apotype=None crashed the process"),
"free everything that a covariance":("M01","computing and discarding a covariance workspace left its tables of row pointers and of log-factorials allocated"),
"convert arrays of foreign byte order":("H04","arrays in the other byte order (as FITS readers return them) or unaligned were silently misread by most functions"),
"keep a copy of the beam":("H04","a field kept the caller's beam array: overwriting it later changed the field"),
"remove the partial file":("D01","a save that failed (and said so) left a full-length file with a hole when the error had passed by the time the file was closed; it loaded without complaint"),
"reject patches of different size":("E02","flat-sky covariances accepted fields on patches of different physical size and gave meaningless coefficients"),
"reject negative multipoles":("E02","negative multipoles in a binning scheme made bin_cell/unbin_cell access memory before their arrays"),
}
fx=[]
for l in reversed(log):
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[v for q,v in m.items() if q in s]
    assert len(k)==1,s
    fx.append("fixed: property=%s %s %s"%(k[0][0],h,k[0][1]))
p="/verif/known_findings.json"
d=json.load(open(p)); d["fixed"]=fx
json.dump(d,open(p,"w"),indent=1); print("\n".join(fx))
