"""Histories of changes to live workspaces, checked against (a) a workspace
built directly in the current state and (b) an independent model of what a
curved-sky workspace computes."""
import gc
import time

import numpy as np

import calls
import ops
import simlib as S
import workloads as W
from harness import Result, Rnd, ddmin, sub
from sched import REF, cmp_out, draw_cfg

ASK = ops.ASK
MUT = ("comp", "load", "beams", "bins", "mcm")


# ------------------------------------------------------------ drawing histories
def gen_case(rng, pid):
    if pid == "H01":
        spec = ops.gen_world(rng, curved=True, flat=False, cov=rng.random() < 0.3)
        kinds = ["W"]
    else:
        fl = rng.random() < 0.55
        spec = ops.gen_world(rng, curved=not fl, flat=fl, cov=True)
        for _ in range(20):
            if spec["C"] or spec["FC"] or spec["FW"]:
                break
            spec = ops.gen_world(rng, curved=not fl, flat=fl, cov=True)
        kinds = [k for k, t in (("C", "C"), ("V", "FW"), ("D", "FC")) if spec[t]]
        if not kinds:
            return gen_case(rng, pid)
    n = rng.randint(5, 26)
    objs = {k: ["%s%d" % (k.lower(), i) for i in range(rng.randint(1, 2))] for k in kinds}
    some_gz(rng, spec, kinds)
    h = []
    pbad = rng.choice([0.0, 0.1, 0.3])
    if rng.random() < 0.3:
        # the same objects used with another resolution as well
        spec["also"] = [ops.gen_sibling(rng, spec, True)]
    now = {}
    full, saved = {}, set()     # what probably is there
    for _ in range(n):
        k = rng.choice(kinds)
        ob = rng.choice(objs[k])
        op = gen_op(rng, spec, k, ob, pbad)
        for _ in range(8):
            # most operations need something to work on
            if (op[0] not in ("comp", "new") if not full.get(ob) else op[0] == "load" and op[2] not in saved) and (
                    op[0] != "load" or op[2] not in saved) and rng.random() < 0.9:
                op = gen_op(rng, spec, k, ob, pbad)
        if op[0] in ("comp", "load", "new"):
            full[ob] = op[0] != "new"
        if op[0] == "save":
            saved.add(op[2])
        if "also" in spec:
            if op[0] == "comp":
                now[op[1]] = rng.random() < 0.5
            if now.get(op[1]) != (rng.random() < 0.1):
                op = moved(op, spec, rng)
        h.append(op)
    if rng.random() < 0.25:
        h += reread(rng, spec, rng.choice(kinds))
    return spec, h


def reread(rng, spec, k):
    """A file is read again after the object, the file or both were changed."""
    def draw(ob, kinds):
        while True:
            o = gen_op(rng, spec, k, ob, 0.)
            if o[0] in kinds:
                return o
    a, b = [k.lower()+str(i) for i in rng.choice([(0, 1), (1, 0), (0, 0)])]
    f = "%sf0" % k
    change = ("beams", "bins", "mcm") if k == "W" else ("comp",)
    full = 1 if k == "W" else int(k == "C" and rng.random() < 0.2)
    load = ["load", a, f, full]
    ask = ["ask", a, "couple" if k == "W" else "all"]
    h = [draw(a, ("comp",)), ["save", a, f], load]
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            h.append(draw(a, change))
        if rng.random() < 0.7:
            h += [["load", b, f, full], draw(b, change), ["save", b, f]]
        h += [load, ask]
    return h


def moved(op, spec, rng):
    """This operation with the objects of the other world."""
    if op[0] == "comp" and op[1][0] == "w":
        a, b, bn = op[2:5]
        kw = op[5] if "Fbad" in op else ops.gen_kw(rng, spec["also"][0], a, b)
        return op[:2]+[a+"'", b+"'", bn+"'", kw]
    if op[0] in ("comp", "bins"):
        return op[:2]+[op[2]+"'"]
    return op


def world_of(name):
    """Which world this name belongs to, and what it is called there."""
    return (1, name[:-1]) if str(name)[-1:] == "'" else (0, name)


def gen_op(rng, spec, k, ob, pbad):
    bad = rng.random() < pbad
    files = ["%sf%d" % (k, i) for i in range(2)]
    x = rng.random()
    if k == "W":
        F, B = list(spec["F"]), list(spec["B"])
        if x < 0.2:
            a, b = rng.choice(F), rng.choice(F)
            if spec["W"] and rng.random() < 0.5:
                d = spec["W"][rng.choice(list(spec["W"]))]
                a, b = d["f1"], d["f2"]
            kw = ops.gen_kw(rng, spec, a, b)
            bn = rng.choice(B)
            if bad:
                c = rng.randint(0, 4)
                if c == 0:
                    bn = "Bbad"
                elif c == 1:
                    kw = dict(kw, normalization="nonsense")
                elif c == 2:
                    kw = dict(kw, l_toeplitz=spec["lmax"]+3, l_exact=1, dl_band=1)
                elif c == 3:
                    kw = dict(kw, is_teb=True)
                else:
                    a = "Fbad"
            return ["comp", ob, a, b, bn, kw]
        if x < 0.3:
            return ["beams", ob, rng.randint(0, 2), rng.randint(0, 2),
                    rng.choice(["short1", "short2", "type"]) if bad else "ok"]
        if x < 0.4:
            return ["bins", ob, rng.choice(["Bbad", "none"]) if bad else rng.choice(B)]
        if x < 0.49:
            return ["mcm", ob, rng.randint(0, 2), rng.choice(["short", "notsquare"]) if bad else "ok"]
        if x < 0.61:
            return ["save", ob, "nodir" if bad else rng.choice(files)]+([1] if rng.random() < 0.15 else [])
        if x < 0.74:
            return ["load", ob, rng.choice(["missing", "text", "cut"]) if bad else rng.choice(files),
                    int(rng.random() < 0.7)]
        if x < 0.78:
            return ["new", ob]
        w = ASK + (["covar"] if spec["C"] else [])
        return ["askbad" if bad else "ask", ob, rng.choice(w[:5] if bad else w)]
    tab = {"C": "C", "V": "FW", "D": "FC"}[k]
    if x < 0.35:
        return ["comp", ob, "bad%d" % rng.randint(0, 3) if bad else rng.choice(list(spec[tab]))]
    if x < 0.5:
        return ["save", ob, "nodir" if bad else rng.choice(files)]+([1] if k == "C" and rng.random() < 0.15 else [])
    if x < 0.72:
        return ["load", ob, rng.choice(["missing", "text", "cut"]) if bad else rng.choice(files),
                int(k == "C" and rng.random() < 0.3)]
    if x < 0.76:
        return ["new", ob]
    return ["ask", ob, "all"]


# ------------------------------------------------------------------- execution
class Live:
    """The live objects of one simulated run."""

    def __init__(self, spec, world=None):
        self.w0 = self.w = world or ops.World(spec)
        self.w1 = None
        self.x = {}
        self.late = []
        self.k = {}     # world of what the objects hold
        self.kf = {}    # and the files

    def world(self, k):
        if k and not self.w1:
            self.w1 = ops.World(self.w0.spec["also"][0])
        return self.w1 if k else self.w0

    def obj(self, n):
        if n not in self.x:
            self.x[n] = self.bare(n)
        return self.x[n]

    @staticmethod
    def bare(n):
        nmt = S.nmt
        return {"w": nmt.NmtWorkspace, "c": nmt.NmtCovarianceWorkspace, "v": nmt.NmtWorkspaceFlat,
                "d": nmt.NmtCovarianceWorkspaceFlat}[n[0]]()

    def fld(self, n):
        if n == "Fbad":     # other harmonic resolution
            w = self.w
            return S.nmt.NmtField(w.arr("mask", 0, 0), None, spin=0, lmax=w.spec["lmax"]-1, lmax_mask=w.spec["lmax_mask"])
        return self.w.o(n)

    def bins(self, n):
        if n == "Bbad":
            # no workspace here has this many multipoles
            return S.nmt.NmtBin.from_lmax_linear(max(s["lmax"] for s in [self.w0.spec]+self.w0.spec.get("also", []))+2, 2)
        if n == "none":
            b = S.nmt.NmtBin.from_lmax_linear(self.w.spec["lmax"], 2)
            b.bin = None
            return b
        return self.w.o(n)

    def path(self, f):
        return {"missing": "/simdisk/no.fits", "nodir": "/nonexistent-dir/x.fits"}.get(
            f, self.w.path(f+(".fits.gz" if f in self.w0.spec.get("gz", ()) else ".fits")))

    def do(self, op):
        self.scribble()
        k = self.k.get(op[1], 0)
        if op[0] in ("comp", "bins"):
            k, _ = world_of(op[2])
            op = op[:2]+[world_of(x)[1] if isinstance(x, str) else x for x in op[2:]]
        self.w = self.world(k)
        try:
            r = "ok", ops.freeze(getattr(self, "o_"+op[0])(*op[1:]) or {})
            if op[0] == "comp":
                self.k[op[1]] = k
            if op[0] == "save":
                self.kf[op[2]] = k
            if op[0] == "load":
                self.k[op[1]] = self.kf.get(op[2], 0)
            return r
        except Exception as e:
            return "exc", type(e).__name__, str(e)[:160]
        finally:
            self.w = self.w0

    def o_new(self, n):
        self.x[n] = self.bare(n)
        gc.collect()

    def o_comp(self, n, *a):
        x, w = self.obj(n), self.w
        if n[0] == "w":
            x.compute_coupling_matrix(self.fld(a[0]), self.fld(a[1]), self.bins(a[2]), **a[3])
            return
        spec = w.spec
        if a[0].startswith("bad"):
            self.badcomp(n, x, int(a[0][3:]))
            return
        if n[0] == "c":
            d = spec["C"][a[0]]
            f = [w.o(t) for t in d["f"]]
            x.compute_coupling_coefficients(f[0], f[1], flb1=f[2], flb2=f[3], **d["kw"])
        elif n[0] == "v":
            d = spec["FW"][a[0]]
            x.compute_coupling_matrix(w.o(d["f1"]), w.o(d["f2"]), w.o(d["b"]),
                                      ell_cut_x=d["cx"], ell_cut_y=d["cy"], is_teb=d["teb"])
        else:
            d = spec["FC"][a[0]]
            f = [w.o(t) for t in d["f"]]
            x.compute_coupling_coefficients(f[0], f[1], w.o(d["b"]), f[2], f[3])

    def badcomp(self, n, x, k):
        """Computations no tree may accept."""
        w, nmt = self.w, S.nmt
        s = w.spec
        if n[0] == "c":
            m = w.arr("mask", 0, 0)
            f = nmt.NmtField(m, None, spin=0, lmax=s["lmax"], lmax_mask=s["lmax_mask"])
            if k == 0:
                g = nmt.NmtField(m, None, spin=0, lmax=s["lmax"]-1, lmax_mask=s["lmax_mask"])
                x.compute_coupling_coefficients(f, g)
            elif k == 1:
                x.compute_coupling_coefficients(f, f, l_toeplitz=s["lmax"]+1, l_exact=1, dl_band=1)
            elif k == 2:
                g = nmt.NmtField(m, None, spin=2, lmax=s["lmax"], lmax_mask=s["lmax_mask"],
                                 mask_22=w.arr("m22", 0, 0), mask_12=w.arr("m12", 0, 0))
                x.compute_coupling_coefficients(g, g)
            else:
                g = nmt.NmtFieldCatalog(w.arr("pos", 0, False), w.arr("wgt", 0), None, s["lmax"],
                                        lmax_mask=s["lmax_mask"], spin=0)
                x.compute_coupling_coefficients(g, g)
            return
        f = nmt.NmtFieldFlat(s["lx"], s["ly"], w.arr("fmask", 0), None, spin=0)
        m2 = np.ones((s["ny"]+1, s["nx"]))
        g = nmt.NmtFieldFlat(s["lx"], s["ly"], m2, None, spin=0)
        p = nmt.NmtFieldFlat(s["lx"]*1.5, s["ly"], w.arr("fmask", 0), None, spin=2)
        b = w.o(list(s["FB"])[0])
        if n[0] == "v":
            if k == 0:
                x.compute_coupling_matrix(f, g, b)
            elif k == 1:
                x.compute_coupling_matrix(p, f, b, is_teb=True)
            elif k == 2:
                x.compute_coupling_matrix(f, p, b)
            else:
                x.compute_coupling_matrix(f, f, b, is_teb=True)
        else:
            if k in (0, 1):
                x.compute_coupling_coefficients(f, p if k else g, b)
            elif k == 2:
                x.compute_coupling_coefficients(f, f, b, g, f)
            else:
                b2 = nmt.NmtBinFlat(np.array([1., 5.]), np.array([5., 9.]))
                b3 = nmt.NmtBinFlat(np.array([1., 5., 9.]), np.array([5., 9., 13.]))
                x.compute_coupling_coefficients(f, f, b2, bin_b=b3)

    def o_beams(self, n, i, j, how):
        x = self.obj(n)
        b1, b2 = self.w.arr("beam", 10+i), self.w.arr("beam", 20+j)
        if how == "short1":
            b1 = b1[:-1]
        if how == "short2":
            b2 = b2[:2]
        x.update_beams(b1, 1.0 if how == "type" else b2)

    def o_bins(self, n, b):
        self.obj(n).update_bins(self.bins(b))

    def o_mcm(self, n, k, how):
        x = self.obj(n)
        nr = (x.wsp.lmax+1)*x.wsp.ncls
        m = W.lend(mcm_array(self.w.spec, k, nr))
        if how == "short":
            m = m[:-1, :-1]
        if how == "notsquare":
            m = m[:, :-1]
        x.update_coupling_matrix(m)
        if m.flags.writeable:
            self.late.append(m)

    def scribble(self):
        """What the caller does with its arrays after a call is no concern."""
        for c in self.late:
            c[:] = 1e300
        self.late = []

    def o_save(self, n, f, aged=0):
        self.obj(n).write_to(self.path(f))
        if aged and n[0] in "wc":
            p = self.path(f)
            S.disk_put(p, old_format(S.disk_get(p)))

    def o_load(self, n, f, flag):
        x = self.obj(n)
        if f == "text":
            S.disk_put(self.w.path("text.fits"), b"SIMPLE  =  this is no FITS file"+b" "*4000)
        if f == "cut":
            src = None
            for c in ("%sf0" % n[0].upper(), "%sf1" % n[0].upper()):
                src = src or plain(S.disk_get(self.path(c)))
            src = src or b"XX"
            flag = int(n[0] == "w")     # the half that is left may do for less
            S.disk_put(self.w.path("cut.fits"), src[:max(1, len(src)//2880//2*2880-100)])
        if n[0] == "w":
            x.read_from(self.path(f), read_unbinned_MCM=bool(flag))
        elif n[0] == "c":
            x.read_from(self.path(f), force_spin0_only=bool(flag))
        else:
            x.read_from(self.path(f))

    def o_ask(self, n, what):
        x = self.obj(n)
        if n[0] == "w":
            if what == "covar":
                return wcovar(self.w, x)
            return self.w.ask_wsp(x, what)
        return ask_all(self.w, n, x)

    def o_askbad(self, n, what):
        x, w = self.obj(n), self.w
        k = x.wsp.ncls
        cl = w.cls(k)
        if what in ("mcm", "win"):
            x.couple_cell(cl[:, :-1])
        elif what == "couple":
            x.couple_cell(np.vstack([cl, cl]))
        elif what == "decouple":
            x.decouple_cell(cl[:, :-1])
        else:
            x.decouple_cell(cl, cl_noise=cl[:, :-2])


def plain(d):
    """The FITS file in these bytes."""
    import gzip
    return gzip.decompress(d) if d and d[:2] == b"\x1f\x8b" else d


def some_gz(rng, spec, kinds):
    """Files with these names are written compressed."""
    if rng.random() < 0.25:
        spec["gz"] = [k+f for k in kinds for f in ("f0", "f1") if rng.random() < 0.6]


def old_format(d):
    """This workspace file as earlier versions of NaMaster wrote its bands, or
    this covariance file as they wrote it: for all spins, without saying so."""
    import gzip
    import io

    from astropy.io import fits
    out = []
    with fits.open(io.BytesIO(plain(d)), memmap=False) as hs:
        for h in hs:
            if h.header.get("SPIN0_ONLY") == 0:
                del h.header["SPIN0_ONLY"]
            if h.name != "BANDPOWERS":
                out.append(h.copy())
                continue
            nb, t = h.header["N_BANDS"], np.array(h.data)
            band = [t[t["BAND"] == i] for i in range(nb)]

            def table(name, cols):
                return fits.BinTableHDU.from_columns(
                    [fits.Column(name=c, format=k, array=a) for c, k, a in cols], name=name)
            q = table("BINS_SUMMARY", [("NELLS", "J", [len(b) for b in band])])
            q.header["N_BANDS"], q.header["ELL_MAX"] = nb, h.header["ELL_MAX"]
            out.append(q)
            for i, b in enumerate(band):
                out.append(table("BINS_BAND_%d" % (i+1), [("ELLS", "J", b["ELLS"]), ("WEIGHTS", "D", b["WEIGHTS"]),
                                                           ("F_ELL", "D", b["F_ELL"])]))
        f = io.BytesIO()
        fits.HDUList(out).writeto(f)
    return f.getvalue() if plain(d) is d else gzip.compress(f.getvalue(), mtime=0)


def mcm_array(spec, k, nr):
    r = np.random.default_rng(sub(spec["ds"], "mcm", k, nr))
    return 0.8*np.eye(nr)+r.random((nr, nr))*0.3/nr


def wcovar(w, x):
    """Covariance that uses this workspace (spin-0 and 2 combinations)."""
    c = w.o(list(w.spec["C"])[0])
    n = x.wsp.ncls
    sp = {1: (0, 0), 2: (0, 2), 4: (2, 2)}.get(n)
    if sp is None:
        raise ValueError("no covariance for T-E-B")
    nm = [2 if s else 1 for s in sp]
    cl = [w.cls(nm[i]*nm[j], (i, j)) for i in (0, 1) for j in (0, 1)]
    return dict(cov=S.nmt.gaussian_covariance(c, *sp, *sp, *cl, x, x))


def ask_all(w, n, x):
    if n[0] == "c":
        x.wsp.lmax     # raises when there is nothing
        return w.cov_ans(x)
    if n[0] == "d":
        x.wsp.bin
        return w.fcov_ans(x)
    return W.flat_wsp_answers(x, w.spec)


def asks(n, spec):
    return (ASK + (["covar"] if spec["C"] else [])) if n[0] == "w" else ["all"]


def run_history(spec, h, cfg, timeout=120):
    def job():
        gc.freeze()
        lv = Live(spec)
        out = []
        for op in h:
            o = lv.do(op)
            pr = None
            if o[0] == "exc" and op[0] in MUT:
                pr = [lv.do(["ask", op[1], q]) for q in asks(op[1], spec)]
            out.append((o, pr))
        fin = {n: [lv.do(["ask", n, q]) for q in asks(n, spec)] for n in sorted(lv.x)}
        return out, fin, lv.w0.changed_arrays()+(lv.w1.changed_arrays() if lv.w1 else [])
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


# ---------------------------------------------------------------------- oracle
class Oracle:
    """Answers of objects built directly in a given state."""

    def __init__(self, spec):
        self.spec = spec
        self.c = {}
        self.runs = 0

    def _run(self, key, job):
        if key not in self.c:
            S.disk_new()
            S.configure(**REF)
            self.c[key] = S.run_forked(job, 90)
            self.runs += 1
        return self.c[key]

    def answers(self, n, st):
        """{question: outcome} in state st; or an Outcome that is not ok."""
        k = world_of(st["base"][0] if n[0] == "w" else st["name"])[0]
        spec = self.spec["also"][0] if k else self.spec

        def job():
            lv = Live(spec)
            w, nmt = lv.w, S.nmt
            if n[0] == "w":
                a, b, bn = [world_of(z)[1] for z in st["base"][:3]]
                kw, bins = st["base"][3], world_of(st["bins"])[1]
                fa, fb = lv.fld(a), lv.fld(b)
                bm = np.array(fa.beam)*np.array(fb.beam)
                x = nmt.NmtWorkspace()
                x.compute_coupling_matrix(fa, fb, lv.bins(bins), **kw)
                M0 = x.get_coupling_matrix()
                w2 = None
                if kw.get("normalization") == "FKP":
                    w2 = fkp(w, a, b, fa, fb)
                if st["beams"]:
                    bm = w.arr("beam", 10+st["beams"][0])*w.arr("beam", 20+st["beams"][1])
                    da, db = spec["F"][a], spec["F"][b]
                    if "clus" not in (da["kind"], db["kind"]):
                        fa = w.field(da, beam=np.sqrt(bm))
                        fb = fa if a == b else w.field(db, beam=np.sqrt(bm))
                        x = nmt.NmtWorkspace.from_fields(fa, fb, lv.bins(bins), **kw)
                    else:
                        x.update_beams(bm, np.ones_like(bm))
                if st["mcm"] is not None:
                    M0 = mcm_array(spec, st["mcm"], len(M0))
                    x.update_coupling_matrix(M0)
                fresh = {q: lv.do_on(x, q) for q in asks(n, spec)}
                mod = model(w, M0, bm, spec["B"][bins], x.wsp.ncls, w2)
                return fresh, mod
            x = lv.bare(n)
            lv.x[n] = x
            if n[0] == "c" and st["only0"]:
                d = spec["C"][world_of(st["name"])[1]]
                f = [w.o(t) for t in d["f"]]
                x.compute_coupling_coefficients(f[0], f[1], flb1=f[2], flb2=f[3], **dict(d["kw"], spin0_only=True))
            else:
                lv.o_comp(n, world_of(st["name"])[1])
            return {"all": lv.do(["ask", n, "all"])}, None
        return self._run((n[0], repr(sorted((k, repr(v)) for k, v in st.items() if k != "unb"))), job)

    def comp(self, n, args):
        """Outcome of computing this on a new object."""
        spec = self.spec

        def job():
            lv = Live(spec)
            return lv.do(["comp", n]+args)
        return self._run(("comp", n[0], repr(args)), job)


def _do_on(self, x, q):
    self.x["w?"] = x
    return self.do(["ask", "w?", q])


Live.do_on = _do_on


def fkp(w, a, b, fa, fb):
    if fa.is_catalog or fb.is_catalog:
        return fa.Nw
    f = w.spec["F"]
    if f[a]["kind"] in ("map", "monly") and f[b]["kind"] in ("map", "monly"):
        return float(np.mean(fa.get_mask()*fb.get_mask()))
    return fa.minfo.si.dot_map(fa.get_mask(), fb.get_mask())/(4*np.pi)


def model(w, M, beam, b, n, w2):
    """What a workspace with this coupling matrix, these beams and these bins
    has to answer; written from the definitions, without the library."""
    L = w.spec["lmax"]+1
    edges = b["edges"]
    nb = len(edges)
    ells = np.concatenate([np.arange(a, e) for a, e in edges])
    wt = np.ones(len(ells))
    if b["wt"]:
        wt = 0.5+np.random.default_rng(b["ws"]).random(len(ells))
    f = W.ell_prefactor(b, ells)
    if f is None:
        f = np.ones(len(ells))
    P = np.zeros((nb, L))      # binning
    U = np.zeros((L, nb))      # un-binning
    i = 0
    for k, (a, e) in enumerate(edges):
        j = slice(i, i+e-a)
        P[k, a:e] = wt[j]/wt[j].sum()*f[j]
        U[a:e, k] = 1/f[j]
        i += e-a
    I = np.eye(n)
    Mb = M*np.repeat(np.asarray(beam)[:L], n)[None, :]
    PM = np.kron(P, I) @ Mb
    if w2 is None:
        B = PM @ np.kron(U, I)
    else:
        B = w2*np.eye(n*nb)
    out = dict(mcm=dict(mcm=M))
    cl = w.cls(n)
    out["couple"] = dict(coupled=(Mb @ cl.T.flatten()).reshape(L, n).T)
    if np.linalg.cond(B) < 1e8:
        out["win"] = dict(win=np.linalg.solve(B, PM).reshape(nb, n, L, n).transpose(1, 0, 3, 2))

        def dec(c):
            return np.linalg.solve(B, np.kron(P, I) @ c.T.flatten()).reshape(nb, n).T
        out["decouple"] = dict(decoupled=dec(cl))
        out["decouple_bn"] = dict(decoupled_bn=dec(cl-w.cls(n, 1)-w.cls(n, 2)))
    return out


def advance(spec, st, files, op, orc):
    """(has to succeed, state if it does, violation while finding out)."""
    n = op[1]
    old = st.get(n)
    new = old
    must = False
    if op[0] == "new":
        return True, None, None
    if op[0] == "comp":
        r = orc.comp(n, op[2:])
        if r.status != "ok":
            return False, None, ("single "+r.status, "comp", "computing %s on a new object: %s %s" % (
                op[2:], r.detail[:200], r.rep.get("ev_text", "")))
        must = r.value[0] == "ok"
        if n[0] == "w":
            new = dict(base=op[2:], beams=None, bins=op[4], mcm=None, unb=True)
        else:
            if str(op[2]).startswith("bad"):
                must = False
            k, name = world_of(op[2])
            new = dict(name=op[2], only0=int(n[0] == "c" and must and bool(
                calls.spec_of(spec, k)["C"][name]["kw"].get("spin0_only"))))
    elif op[0] == "beams":
        must = bool(old and old["unb"] and op[4] == "ok")
        if must:
            new = dict(old, beams=[op[2], op[3]])
    elif op[0] == "bins":
        must = bool(old and old["unb"] and world_of(op[2])[1] not in ("Bbad", "none")
                    and world_of(op[2])[0] == world_of(old["bins"])[0])
        if must:
            new = dict(old, bins=op[2])
    elif op[0] == "mcm":
        must = bool(old and old["unb"] and op[3] == "ok")
        if must:
            new = dict(old, mcm=op[2])
    elif op[0] == "save":
        must = bool(old and old.get("unb", True) and op[2] != "nodir")
    elif op[0] == "load":
        must = op[2] in files
        if must:
            new = dict(files[op[2]])
            if n[0] == "w":
                new["unb"] = bool(op[3])
            elif n[0] == "c":
                new["only0"] = int(bool(new["only0"] or op[3]))
    return must, new, None


def allowed(n, q, state):
    """Whether an object in this state may answer at all."""
    return not (state is None or (n[0] == "w" and not state["unb"] and q not in ("decouple", "decouple_bn", "covar")))


def answers_as(spec, orc, n, q, got, state):
    """None if `got` is what an object in this state answers, else
    (kind, message)."""
    if not allowed(n, q, state):
        if got[0] == "ok":
            return "answered", "%s answers '%s' although it is %s" % (
                n, q, "empty" if state is None else "loaded without its unbinned matrix")
        return None
    ref = orc.answers(n, state)
    if ref.status != "ok":
        return "single "+ref.status, "building the object directly: %s %s" % (
            ref.detail[:200], ref.rep.get("ev_text", ""))
    d = ops.differ(ref.value[0][q], got)
    if d is not None:
        return d[0], "%s, asked '%s', %s (directly built: %s)" % (n, q, d[1], state)
    mod = ref.value[1]
    if mod and q in mod and got[0] == "ok":
        d = cmp_out(mod[q], got[1], 1e-7)
        if d is not None:
            return "model", "%s: answer '%s' %s (independent model, state %s)" % (n, d[0], d[1], state)
    return None


def judge(spec, h, o, orc):
    """(kind, what, message) of the first violation, or None."""
    if o.status != "ok":
        if o.status == "event":
            return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
        return o.status, "", "history ended with %s %s" % (o.status, o.detail[:300])
    out, fin, arrs = o.value
    st = {}
    files = {}

    def check(n, q, got, state, i, op):
        d = answers_as(spec, orc, n, q, got, state)
        return d and (d[0], q, "step %d %s: %s" % (i, op, d[1]))

    def settle(n, pr, old, i, op, may_empty):
        """State after a call that raised."""
        qs = asks(n, spec)
        bad = None
        for q, g in zip(qs, pr):
            bad = bad or check(n, q, g, old, i, op)
        if bad is None:
            return old, None
        if may_empty and all(g[0] == "exc" for g in pr):
            return None, None
        return old, ("after failure",)+bad[1:2]+(
            "the call raised, and now %s is neither as before nor empty: %s" % (n, bad[2]),)

    for i, (op, (got, pr)) in enumerate(zip(h, out)):
        n = op[1]
        old = st.get(n)
        ok = got[0] == "ok"
        if op[0] == "new":
            st[n] = None
            continue
        if op[0] == "ask":
            v = check(n, op[2], got, old, i, op)
            if v:
                return v
            continue
        must, new, died = advance(spec, st, files, op, orc)
        if died:
            return died
        if must and not ok:
            return "raises", op[0], "step %d %s raised %s (%s), state %s" % (i, op, got[1], got[2], old)
        if not must and ok:
            return "accepted", op[0], "step %d %s returned normally although it cannot be done (state %s)" % (i, op, old)
        if ok:
            if op[0] == "save":
                files[op[2]] = dict(old)
            st[n] = new
        elif op[0] in MUT:
            st[n], v = settle(n, pr, old, i, op, op[0] in ("comp", "load"))
            if v:
                return v
    for n in sorted(fin):
        for q, g in zip(asks(n, spec), fin[n]):
            v = check(n, q, g, st.get(n), len(h), ["final"])
            if v:
                return v
    if arrs:
        return "input changed", arrs[0], "the caller's array %s was modified" % arrs[0]
    return None


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    spec, h = gen_case(rng, pid)
    orc = Oracle(spec)
    for n in range(3):
        if n and time.monotonic() > deadline:
            break
        if n:
            h = gen_more(rng, spec, h)
        cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
        if rng.random() < 0.2:
            cfg = dict(draw_cfg(rng, 2e5), record=0, step_cap=0)
        o = run_history(spec, h, cfg)
        res.evals += 1
        res.fault(o.rep)
        res.distinct.add(sub(spec["ds"], repr(h)))
        r0 = orc.runs
        k = judge(spec, h, o, orc)
        res.evals += orc.runs-r0
        res.count["operations"] += len(h)
        for op in h:
            res.count["op_"+op[0]] += 1
        if o.status == "ok":
            res.count["failed_calls"] += sum(1 for x in o.value[0] if x[0][0] == "exc")
        if k is not None:
            res.violation(dict(kind=k[0], what=k[1]), k[2],
                          dict(property=pid, engine="hist", spec=spec, hist=h, cfg=cfg))
            break
    if i < 4:
        res.samples.append(dict(world=spec, history=h[:14], schedule=cfg))
    return res


def gen_more(rng, spec, h):
    """Another history over the same objects: reorder, repeat, interleave."""
    h = list(h)
    for _ in range(rng.randint(1, 4)):
        a, b = rng.randrange(len(h)), rng.randrange(len(h))
        c = rng.randint(0, 2)
        if c == 0:
            h[a], h[b] = h[b], h[a]
        elif c == 1:
            h.insert(b, h[a])
        elif len(h) > 3:
            del h[a]
    return h


def replay(rd):
    o = run_history(rd["spec"], rd["hist"], rd["cfg"])
    return judge(rd["spec"], rd["hist"], o, Oracle(rd["spec"]))


def minimise(rd, sig, deadline):
    orc = Oracle(rd["spec"])

    def bad(h, cfg=None):
        o = run_history(rd["spec"], h, cfg or rd["cfg"])
        k = judge(rd["spec"], h, o, orc)
        return k is not None and k[0] == sig["kind"]
    if not bad(rd["hist"]):
        return rd
    cfg = rd["cfg"]
    if bad(rd["hist"], REF):
        cfg = REF
    return dict(rd, hist=ddmin(rd["hist"], lambda x: bad(x, cfg), deadline), cfg=cfg)
