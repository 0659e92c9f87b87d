"""A pool of shared objects and everything a user can ask of the library.

A World is derived from a JSON spec; objects are built when first needed. A
request is a JSON list; World.do(request) gives ("ok", {name: array}) or
("exc", type, message). The same request on a fresh World is its reference."""
import copy
import gc
import pickle

import numpy as np

import simlib as S
import workloads as W
from harness import sub


# ---------------------------------------------------------------- generation
KINDS = ["s0", "s2", "s1", "pure", "pure2", "ani", "tmp0", "tmp2", "tmp2p", "lite",
         "monly0", "monly2", "cat0", "cat2", "catm", "clus", "car0", "car2", "same", "litep"]


def gen_world(rng, flat=None, curved=None, cov=True, large=False, must=None):
    """Which objects exist and how they are configured."""
    if curved is None:
        curved = rng.random() < 0.75
    if flat is None:
        flat = (not curved) or rng.random() < 0.35
    w = dict(ds=rng.getrandbits(40), sht="ducc", F={}, B={}, W={}, C={},
             FF={}, FB={}, FW={}, FC={})
    if curved:
        gen_curved(rng, w, cov, large, must)
    if flat:
        gen_flat(rng, w, cov)
    return w


def gen_curved(rng, w, cov, large=False, must=None):
    w["nside"] = rng.choice([2, 2, 2, 4])
    w["lmax"] = rng.randint(4, 5 if w["nside"] == 2 else 9)
    if large:
        w["nside"] = 16
        w["lmax"] = rng.randint(29, 44)
    w["lmax_mask"] = rng.choice([w["lmax"], w["lmax"], w["lmax"]+2, 3*w["nside"]-1])
    healpy = rng.random() < 0.1 and not must
    if healpy:
        w["sht"] = "healpy"
    kinds = ["s0", "s2"] + rng.sample(KINDS, rng.randint(3, 5))
    if must:
        kinds = ["s0", "s2", must] + rng.sample(KINDS, rng.randint(0, 2))
    n = 0
    for k in kinds:
        if healpy and k.startswith(("car", "cat", "clus")):
            continue
        f = dict(kind="map", spin=0, mk=rng.randint(0, 2), mask=rng.randint(0, 2),
                 beam=rng.random() < 0.4, pe=False, pb=False, ani=False, nt=0,
                 lite=False, moi=False, ni=rng.choice([None, None, 0, 1, 2]),
                 nm=rng.choice([None, None, 0, 2]), tol=rng.choice([None, None, 1e-6]))
        if k in ("s2", "pure", "pure2", "ani", "tmp2", "tmp2p", "monly2", "cat2", "car2", "litep"):
            f["spin"] = 2
        if k == "s1":
            f["spin"] = rng.choice([1, 1, 3])
        if k in ("pure", "tmp2p", "litep"):
            f["pb"] = True
            f["pe"] = rng.random() < 0.3
        if k == "pure2":
            f["pe"] = True
        if k == "ani":
            f["ani"] = True
        if k.startswith("tmp"):
            f["nt"] = rng.randint(1, 3)
            f["moi"] = rng.random() < 0.2
        if k.startswith("lite"):
            f["lite"] = True
            f["nt"] = rng.randint(0, 1)
        if k.startswith("monly"):
            f["kind"] = "monly"
        if k.startswith("cat"):
            f["kind"] = "cat"
            f["posonly"] = k == "catm"
            f["spin"] = {"cat0": 0, "cat2": 2, "catm": rng.choice([0, 2])}[k]
            f["fw"] = rng.random() < 0.3
            f["lonlat"] = rng.random() < 0.3
        if k == "clus":
            f["kind"] = "clus"
            f["lonlat"] = rng.random() < 0.3
        if k.startswith("car"):
            f["kind"] = "car"
            f["flip"] = [rng.random() < 0.5, rng.random() < 0.5]
            f["part"] = gen_part(rng)
            f["ra"] = rng.choice([0, 0, 0, 40, 123.5])
            if rng.random() < 0.3:
                f["nt"] = 1
        w["F"]["F%d" % n] = f
        n += 1
    names = list(w["F"])
    if any(f["pe"] or f["pb"] for f in w["F"].values()) and rng.random() < 0.9:
        w["lmax_mask"] = w["lmax"]
    for i in range(2):
        w["B"]["B%d" % i] = W.gen_bins(rng, 2, w["lmax"])
    full = [f for f in names]
    for i in range(rng.randint(1, 3)):
        a, b = rng.choice(full), rng.choice(full)
        w["W"]["W%d" % i] = dict(f1=a, f2=b, b=rng.choice(list(w["B"])), kw=gen_kw(rng, w, a, b))
    if cov:
        pix = [f for f in names if w["F"][f]["kind"] in ("map", "monly") and not w["F"][f]["ani"]]
        for i in range(rng.randint(0, 2)):
            w["C"]["C%d" % i] = dict(f=[rng.choice(pix) for _ in range(4)],
                                     kw=dict(spin0_only=rng.random() < 0.2, **gen_toep(rng, w, 0.3)))


def gen_part(rng):
    """The whole sky (0), three quarters of each ring (1), or bands of the same
    shape in the north and south (2, 3)."""
    return rng.choice([0, 0, 0, 1, 1, 2, 3])


def gen_toep(rng, w, p):
    if rng.random() >= p or w["lmax"] < 5:
        return {}
    return dict(zip(("l_toeplitz", "l_exact", "dl_band"), W.gen_toep(rng, w["lmax"])))


def gen_kw(rng, w, a, b):
    fa, fb = w["F"][a], w["F"][b]
    kw = dict(normalization=rng.choice(["MASTER", "MASTER", "FKP"]))
    if (fa["spin"] == 0) and fb["spin"] and not fb["ani"] and rng.random() < 0.3:
        kw["is_teb"] = True
    if not (fa["pe"] or fa["pb"] or fb["pe"] or fb["pb"] or fa["ani"] or fb["ani"]):
        kw.update(gen_toep(rng, w, 0.25))
    return kw


def gen_flat(rng, w, cov):
    w["nx"], w["ny"] = rng.randint(6, 12), rng.randint(6, 12)
    w["lx"], w["ly"] = 0.1*rng.randint(5, 20), 0.1*rng.randint(5, 20)
    w["nb"] = rng.randint(1, 4)
    w["bgap"] = False
    lmx = np.pi*min(w["nx"]/w["lx"], w["ny"]/w["ly"])
    for i in range(rng.randint(2, 4)):
        f = W.gen_flat_field(rng, rng.choice([0, 0, 2, 2, 2, 1]), maps=rng.random() < 0.85)
        f["lite"] = f["maps"] and rng.random() < 0.2
        w["FF"]["P%d" % i] = f
    w["FB"]["Q0"] = dict(nb=rng.randint(1, 4), bgap=rng.random() < 0.3)
    w["FB"]["Q1"] = dict(nb=rng.randint(1, 3), bgap=False)
    names = list(w["FF"])
    for i in range(rng.randint(1, 2)):
        cx = cy = [1., -1.]
        if rng.random() < 0.3:
            cx = [-0.05*lmx*rng.random(), 0.05*lmx*rng.random()]
        a, b = rng.choice(names), rng.choice(names)
        teb = w["FF"][a]["spin"] == 0 and w["FF"][b]["spin"] != 0 and rng.random() < 0.3
        w["FW"]["V%d" % i] = dict(f1=a, f2=b, b=rng.choice(list(w["FB"])), cx=cx, cy=cy, teb=teb)
    if cov:
        for i in range(rng.randint(0, 1)):
            w["FC"]["D%d" % i] = dict(f=[rng.choice(names) for _ in range(4)], b=rng.choice(list(w["FB"])))


def gen_sibling(rng, w, lmax=False):
    """A world with the same objects, but other numbers, another resolution or
    another pixelisation (some of it, or all). For sure another lmax, if so
    asked."""
    w = copy.deepcopy({k: v for k, v in w.items() if k != "also"})
    w["ds"] = rng.getrandbits(40)
    if w["F"]:
        x = rng.random()
        if lmax or x < 0.3:     # other band limit
            x = 0.
            w["lmax"] = rng.choice([l for l in range(4, 6 if w["nside"] == 2 else 10) if l != w["lmax"]])
        elif x < 0.5:   # other pixels
            w["nside"] = rng.choice([n for n in (2, 4) if n != w["nside"]])
            w["lmax"] = min(w["lmax"], 3*w["nside"]-1)
        elif x < 0.6:
            w["nside"] = 6-w["nside"]
            w["lmax"] = rng.randint(4, 5 if w["nside"] == 2 else 9)
        pure = any(f["pe"] or f["pb"] for f in w["F"].values())
        if x < 0.6 or rng.random() < 0.3:
            w["lmax_mask"] = rng.choice([w["lmax"], w["lmax"]+2, 3*w["nside"]-1]) if not pure else w["lmax"]
        for b in w["B"]:
            if x < 0.6 or rng.random() < 0.5:
                w["B"][b] = W.gen_bins(rng, 2, w["lmax"])
        for d in w["W"].values():
            d["kw"] = gen_kw(rng, w, d["f1"], d["f2"])
        for d in w["C"].values():
            d["kw"] = dict(spin0_only=rng.random() < 0.2, **gen_toep(rng, w, 0.3))
        for f in w["F"].values():
            if f["kind"] == "car" and rng.random() < 0.7:
                f["flip"] = [rng.random() < 0.5, rng.random() < 0.5]
                f["part"] = gen_part(rng)
                f["ra"] = rng.choice([0, 0, 0, 40, 123.5])
    if w["FF"]:
        if rng.random() < 0.5:
            w["nx"], w["ny"] = rng.randint(6, 12), rng.randint(6, 12)
        elif rng.random() < 0.3:
            w["nx"], w["ny"] = w["ny"], w["nx"]
        if rng.random() < 0.5:
            w["lx"], w["ly"] = 0.1*rng.randint(5, 20), 0.1*rng.randint(5, 20)
        for q in w["FB"].values():
            if rng.random() < 0.5:
                q["nb"] = rng.randint(1, 4)
    return w


def fit_request(rng, w, r):
    """This request with options that suit the world."""
    if r[0] == "wsp":
        return r[:4]+[gen_kw(rng, w, r[1], r[2])]
    if r[0] == "full2":
        return r[:6]+[{k: v for k, v in gen_kw(rng, w, r[1], r[2]).items() if k != "is_teb"}]
    return r


# --------------------------------------------------------------------- world
class World:
    strict = False      # an exception of one of several questions is that of the request
    def __init__(self, spec, made=None):
        self.spec = spec
        self.objs = {}
        self.then = dict(made or ())   # settings in force when they were built
        self.kept = []
        self.arrays = {}
        self.made = []        # (name, settings when built)
        if spec["sht"] != "ducc":
            S.nmt.set_sht_calculator(spec["sht"])

    # ------------------------------------------------------------ caller data
    def arr(self, *key):
        k = repr(key)
        if k not in self.arrays:
            self.arrays[k] = (key, make_array(self.spec, key))
        # these take part in arithmetic as they come
        return W.lend(self.arrays[k][1], exact=key[0] in ("sym", "m22", "m12"))

    def seq(self, *key):
        """Where a list of maps will do."""
        self.arr(*key)
        return W.lend(self.arrays[repr(key)][1], True)

    def changed_arrays(self):
        """Caller's arrays that no longer hold what the caller put there."""
        bad = []
        for k, (key, a) in self.arrays.items():
            b = make_array(self.spec, key)
            if a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
                bad.append(k)
        return bad

    def changed_results(self):
        """Results handed out earlier that have changed since."""
        for req, raw, val in self.kept:
            for k, v in val.items():
                a = np.asarray(raw[k])
                if a.shape != v.shape or a.tobytes() != v.tobytes():
                    return [req, k]
        return None

    def path(self, name):
        """Every caller has files of its own."""
        import thr
        return S.PFX+thr.caller()+name

    # ---------------------------------------------------------------- objects
    def o(self, name):
        if name not in self.objs:
            now = settings()
            if name in self.then:
                apply_settings(self.then[name])
            try:
                ob = self.build(name)
                self.made = [m for m in self.made if m[0] != name]+[(name, settings())]
                self.objs[name] = ob
            finally:
                apply_settings(now)
        return self.objs[name]

    def build(self, name):
        s, nmt = self.spec, S.nmt
        k = name[0]
        if k == "F":
            return self.field(s["F"][name])
        if k == "B":
            return W.make_bins(s["B"][name], s["lmax"])
        if k == "W":
            d = s["W"][name]
            return nmt.NmtWorkspace.from_fields(self.o(d["f1"]), self.o(d["f2"]), self.o(d["b"]), **d["kw"])
        if k == "C":
            d = s["C"][name]
            return nmt.NmtCovarianceWorkspace.from_fields(*[self.o(f) for f in d["f"]], **d["kw"])
        if k == "P":
            return self.ffield(s["FF"][name])
        if k == "Q":
            return self.fbins(s["FB"][name])
        if k == "V":
            d = s["FW"][name]
            w = nmt.NmtWorkspaceFlat()
            w.compute_coupling_matrix(self.o(d["f1"]), self.o(d["f2"]), self.o(d["b"]),
                                      ell_cut_x=d["cx"], ell_cut_y=d["cy"], is_teb=d["teb"])
            return w
        if k == "D":
            d = s["FC"][name]
            c = nmt.NmtCovarianceWorkspaceFlat()
            f = [self.o(x) for x in d["f"]]
            c.compute_coupling_coefficients(f[0], f[1], self.o(d["b"]), f[2], f[3])
            return c
        raise KeyError(name)

    def field(self, f, beam=None):
        s, nmt = self.spec, S.nmt
        if beam is not None:
            f = dict(f, beam=True)
        bm = beam if beam is not None else (self.arr("beam", f["mask"]) if f.get("beam") else None)
        lmax, lm = s["lmax"], s["lmax_mask"]
        nm = 2 if f["spin"] else 1
        if f["kind"] in ("cat", "clus"):
            pos, wgt = self.arr("pos", f["mask"], f.get("lonlat", False)), self.arr("wgt", f["mask"])
            if f["kind"] == "clus":
                return nmt.NmtFieldCatalogClustering(
                    pos, wgt, self.arr("pos", f["mask"]+7, f.get("lonlat", False)),
                    self.arr("wgt", f["mask"]+7), lmax, lonlat=f["lonlat"])
            fld = None if f["posonly"] else self.arr("catf", f["mask"], nm)
            return nmt.NmtFieldCatalog(pos, wgt, fld, lmax, lmax_mask=lm, spin=f["spin"], beam=bm,
                                       field_is_weighted=f["fw"], lonlat=f["lonlat"])
        kw = dict(spin=f["spin"], lmax=lmax, lmax_mask=lm, n_iter=f["ni"], n_iter_mask=f["nm"],
                  tol_pinv=f["tol"], purify_e=f["pe"], purify_b=f["pb"], lite=f["lite"],
                  masked_on_input=f["moi"])
        if f["beam"]:
            kw["beam"] = bm
        if f["kind"] == "car":
            c = self.wcs(f)
            mask = self.arr("cmask", f["mask"], f["part"])
            if f["nt"]:
                kw["templates"] = self.seq("ctmp", f["mask"], nm, f["nt"], f["part"])
            return nmt.NmtField(mask, self.seq("cmaps", f["mask"], nm, f["part"]), wcs=c, **kw)
        mask = self.arr("mask", f["mask"], f["mk"])
        if f["ani"]:
            kw["mask_22"] = self.arr("m22", f["mask"], f["mk"])
            kw["mask_12"] = self.arr("m12", f["mask"], f["mk"])
        if f["nt"]:
            kw["templates"] = self.seq("tmp", f["mask"], nm, f["nt"])
        maps = None if f["kind"] == "monly" else self.seq("maps", f["mask"], nm)
        return nmt.NmtField(mask, maps, **kw)

    def wcs(self, f):
        from astropy.wcs import WCS
        nx, ny, nxs = car_shape(self.spec, f["part"])
        w = WCS(naxis=2)
        d = 360./nx
        w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
        w.wcs.cdelt = [-d if f["flip"][1] else d, d if f["flip"][0] else -d]
        w.wcs.crval = [float(f.get("ra", 0)), 0.]
        w.wcs.crpix = [nxs//2+1, (nx//2+1-1)//2+1-(nx//2+1-ny if f["part"] == 3 else 0)]
        return w

    def ffield(self, f):
        s, nmt = self.spec, S.nmt
        nm = 2 if f["spin"] else 1
        kw = dict(spin=f["spin"], purify_e=f["pure_e"], purify_b=f["pure_b"])
        if f["beam"]:
            kw["beam"] = self.arr("fbeam")
        maps = None
        if f["maps"]:
            maps = self.seq("fmaps", f["mk"], nm)
            if f["ntemp"]:
                kw["templates"] = self.seq("ftmp", f["mk"], nm, f["ntemp"])
            kw["masked_on_input"] = f["moi"]
            kw["lite"] = f["lite"]
        return nmt.NmtFieldFlat(s["lx"], s["ly"], self.arr("fmask", f["mk"]), maps, **kw)

    def fbins(self, d):
        return W.flat_bins(dict(self.spec, **d))

    # ------------------------------------------------------------ small helpers
    def nm(self, name):
        if name[0] == "F":
            return 2 if self.spec["F"][name]["spin"] else 1
        return 2 if self.spec["FF"][name]["spin"] else 1

    def ncls(self, a, b):
        return self.nm(a)*self.nm(b)

    def cls(self, n, tag=0):
        return self.arr("cls", n, tag)

    # ---------------------------------------------------------------- requests
    def do(self, req):
        try:
            raw = getattr(self, "r_"+req[0])(*req[1:])
            val = freeze(raw)
            if len(self.kept) < 400:
                self.kept.append((req, raw, val))
            return "ok", val
        except Exception as e:
            return "exc", type(e).__name__, str(e)[:200]

    # curved fields
    def r_get(self, f):
        o = self.o(f)
        d = self.spec["F"][f]
        out = dict(n=np.array([o.Nw, o.Nf, o.alpha or 0.]), beam=o.beam)
        if d["kind"] in ("map", "monly", "car"):
            out["mask"] = o.get_mask()
        if d["kind"] != "monly" and not d.get("posonly"):
            out["alms"] = o.get_alms()
            if d["kind"] in ("map", "car") and not d["lite"]:
                out["maps"] = o.get_maps()
                if d["nt"]:
                    out["temp"] = o.get_templates()
        if d["ani"]:
            out["amask"] = o.get_anisotropic_mask()
        return out

    def r_clone(self, f, how, instead):
        """A copy of a field answers like the field, also in its place and
        after the original is gone."""
        o = self.o(f)
        c = pickle.loads(pickle.dumps(o)) if how == "pickle" else (copy.deepcopy if how == "deep" else copy.copy)(o)
        if instead:
            self.objs[f] = c
            del o
            gc.collect()
            return self.r_get(f)
        out = dict(alm=c.get_mask_alms())
        del c
        gc.collect()
        out["again"] = o.get_mask_alms()
        return out

    def r_malm(self, f):
        o = self.o(f)
        out = dict(alm=o.get_mask_alms())
        if self.spec["F"][f]["ani"]:
            out["alma"] = o.get_anisotropic_mask_alms()
        return out

    def r_field(self, f):
        """A new object of the same description."""
        o = self.field(self.spec["F"][f])
        return dict(alm=o.alm if o.alm is not None else np.zeros(1), malm=o.get_mask_alms())

    def r_pcl(self, a, b):
        return dict(pcl=S.nmt.compute_coupled_cell(self.o(a), self.o(b)))

    def r_wsp(self, a, b, bn, kw):
        w = S.nmt.NmtWorkspace.from_fields(self.o(a), self.o(b), self.o(bn), **kw)
        return W.wsp_answers(w, self.spec, self.spec["lmax"])

    def r_ask(self, w, what):
        o = self.o(w)
        return self.ask_wsp(o, what)

    def ask_wsp(self, o, what):
        n = o.wsp.ncls
        if what == "mcm":
            return dict(mcm=o.get_coupling_matrix())
        if what == "win":
            return dict(win=o.get_bandpower_windows())
        if what == "couple":
            return dict(coupled=o.couple_cell(self.cls(n)))
        if what == "decouple":
            return dict(decoupled=o.decouple_cell(self.cls(n)))
        if what == "decouple_bn":
            return dict(decoupled_bn=o.decouple_cell(self.cls(n), cl_bias=self.cls(n, 1), cl_noise=self.cls(n, 2)))
        raise KeyError(what)

    def r_wsave(self, w, unb):
        o = self.o(w)
        fn = self.path("w%s.fits" % w)
        o.write_to(fn)
        n = S.nmt.NmtWorkspace.from_file(fn, read_unbinned_MCM=bool(unb))
        return W.wsp_answers(n, self.spec, self.spec["lmax"], unb=bool(unb))

    def r_depbias(self, a, b):
        n = self.ncls(a, b)
        return dict(db=S.nmt.deprojection_bias(self.o(a), self.o(b), self.cls(n)))

    def r_depbias_n(self, a, b, ni):
        n = self.ncls(a, b)
        return dict(db=S.nmt.deprojection_bias(self.o(a), self.o(b), self.cls(n), n_iter=ni))

    def r_noisebias(self, f, ni=None):
        o = self.o(f)
        d = self.spec["F"][f]
        n = self.arr("cmask", d["mask"], d["part"]).shape if d["kind"] == "car" else [o.minfo.npix if o.minfo else 12]
        var = self.arr("var", *n)
        return dict(nb=S.nmt.uncorr_noise_deprojection_bias(o, var, n_iter=ni))

    def r_sht(self, f, ni):
        """Transforms of a caller's maps, with this field's pixels."""
        o = self.o(f)
        d = self.spec["F"][f]
        ut = S.nmt.utils
        mi = S.nmt.NmtMapInfo(self.wcs(d) if d["kind"] == "car" else None,
                              self.arr("cmask", d["mask"], d["part"]).shape if d["kind"] == "car" else
                              [12*self.spec["nside"]**2])
        ai = S.nmt.NmtAlmInfo(self.spec["lmax"])
        nm = 2 if d["spin"] else 1
        mp = self.arr("cmaps", d["mask"], nm, d["part"]) if d["kind"] == "car" else self.arr("maps", d["mask"], nm)
        if mp.itemsize < 8:     # this one wants doubles
            mp = mp.astype(np.float64)
        alm = ut.map2alm(mi.reform_map(mp), d["spin"], mi, ai, n_iter=ni)
        return dict(alm=alm, map=ut.alm2map(alm, d["spin"], mi, ai),
                    same=np.array([float(o.minfo == mi), float(o.ainfo == ai), mi.get_lmax(), mi.npix]))

    def r_compat(self, a, b):
        return dict(c=np.array([self.o(a).is_compatible(self.o(b), strict=s) for s in (True, False)], dtype=float))

    def r_full2(self, a, b, bn, noise, guess, kw):
        n = self.ncls(a, b)
        return dict(full=S.nmt.compute_full_master(
            self.o(a), self.o(b), self.o(bn), cl_noise=self.cls(n, 2) if noise else None,
            cl_guess=self.cls(n) if guess else None, **kw))

    def fcuts(self, u):
        """Ranges of modes to leave out, as fractions of the largest."""
        s = self.spec
        m = np.pi*max(s["nx"]/s["lx"], s["ny"]/s["ly"])
        return dict(ell_cut_x=[m*u[0], m*u[1]], ell_cut_y=[m*u[2], m*u[3]])

    def r_fpcl2(self, a, b, q, u):
        return dict(pcl=S.nmt.compute_coupled_cell_flat(self.o(a), self.o(b), self.o(q), **self.fcuts(u)))

    def r_fdep2(self, a, b, q, u):
        return dict(db=S.nmt.deprojection_bias_flat(self.o(a), self.o(b), self.o(q), self.arr("fl"),
                                                    self.arr("fcls", self.ncls(a, b), 0), **self.fcuts(u)))

    def r_ffull2(self, a, b, q, noise, u):
        n = self.ncls(a, b)
        o = self.o(q)
        return dict(full=S.nmt.compute_full_master_flat(
            self.o(a), self.o(b), o, cl_noise=self.arr("fb", n, o.get_n_bands(), 2) if noise else None, **self.fcuts(u)))

    def r_full(self, a, b, bn):
        n = self.ncls(a, b)
        return dict(full=S.nmt.compute_full_master(self.o(a), self.o(b), self.o(bn),
                                                   cl_noise=self.cls(n, 2), cl_guess=self.cls(n)))

    def r_fullw(self, w):
        d = self.spec["W"][w]
        n = self.ncls(d["f1"], d["f2"])
        return dict(full=S.nmt.compute_full_master(self.o(d["f1"]), self.o(d["f2"]), workspace=self.o(w),
                                                   cl_guess=self.cls(n)))

    # covariances
    def cov_args(self, wa, wb, flat=False):
        t = "FW" if flat else "W"
        ff = "FF" if flat else "F"
        da, db = self.spec[t][wa], self.spec[t][wb]
        fs = [da["f1"], da["f2"], db["f1"], db["f2"]]
        sp = [self.spec[ff][f]["spin"] for f in fs]
        cl = []
        for i, j in ((0, 2), (0, 3), (1, 2), (1, 3)):
            n = self.nm(fs[i])*self.nm(fs[j])
            cl.append(self.arr("fcls", n, (i, j)) if flat else self.cls(n, (i, j)))
        return sp, cl

    def r_cov(self, c, wa, wb, coupled):
        sp, cl = self.cov_args(wa, wb)
        return dict(cov=S.nmt.gaussian_covariance(self.o(c), *sp, *cl, self.o(wa), self.o(wb), coupled=bool(coupled)))

    def cov_ans(self, c, only0=False):
        """Everything this covariance workspace can be asked here."""
        out = {}
        ws = list(self.spec["W"])
        for wa in ws[:2]:
            for wb in ws[:2]:
                for cp in (0, 1):
                    sp, cl = self.cov_args(wa, wb)
                    if any(sp) and only0:
                        continue
                    try:
                        out["cov.%s.%s.%d.cov" % (wa, wb, cp)] = S.nmt.gaussian_covariance(
                            c, *sp, *cl, self.o(wa), self.o(wb), coupled=bool(cp))
                    except Exception as e:
                        if self.strict:
                            raise
                        out["cov.%s.%s.%d.cov" % (wa, wb, cp)] = np.frombuffer(
                            type(e).__name__.encode().ljust(40), dtype=np.uint8)
        return out

    def r_covn(self, c):
        """A new covariance workspace of the same description."""
        d = self.spec["C"][c]
        return self.cov_ans(S.nmt.NmtCovarianceWorkspace.from_fields(*[self.o(f) for f in d["f"]], **d["kw"]))

    def r_covsave(self, c, only0):
        fn = self.path("c%s.fits" % c)
        self.o(c).write_to(fn)
        n = S.nmt.NmtCovarianceWorkspace.from_file(fn, force_spin0_only=bool(only0))
        return self.cov_ans(n, only0)

    # bins
    def r_bin(self, b):
        o = self.o(b)
        n = o.get_n_bands()
        out = dict(eff=o.get_effective_ells(), nell=o.get_nell_list(),
                   bin=o.bin_cell(self.cls(2)), bin1=o.bin_cell(self.cls(1)[0]),
                   unbin=o.unbin_cell(self.arr("bp", 2, n)))
        for i in range(n):
            out["lim%d" % i] = np.array([o.get_ell_min(i), o.get_ell_max(i)])
            out["l%d" % i] = np.array(o.get_ell_list(i))
            out["w%d" % i] = np.array(o.get_weight_list(i))
        return out

    def r_newbins(self, how, n):
        lmax = self.spec["lmax"]
        B = S.nmt.NmtBin
        if how == "lin":
            o = B.from_lmax_linear(lmax, n, is_Dell=bool(n % 2))
        elif how == "nside":
            o = B.from_nside_linear(self.spec["nside"], n)
        else:
            e = W.lend(np.arange(2, lmax+2, n))
            o = B.from_edges(e[:-1], e[1:]) if len(e) > 1 else B.from_lmax_linear(lmax, 1)
        return dict(eff=o.get_effective_ells(), nell=o.get_nell_list())

    # maps
    def r_syn(self, sp, seed, beam):
        nm = sum(2 if s else 1 for s in sp)
        return dict(m=S.nmt.synfast_spherical(self.spec["nside"], self.arr("scls", nm), sp, seed=seed,
                                              beam=self.arr("sbeam", len(sp)) if beam else None))

    def r_apo(self, k, size, typ):
        return dict(m=S.nmt.mask_apodization(self.arr("mask", k, 1), size, apotype=typ))

    def r_pinv(self, n, tol):
        return dict(m=S.nmt.moore_penrose_pinvh(self.arr("sym", n), tol))

    # flat
    def r_fget(self, f):
        o = self.o(f)
        d = self.spec["FF"][f]
        out = dict(mask=o.get_mask(), ells=o.get_ell_sampling())
        if d["maps"] and not d["lite"]:
            out["maps"] = o.get_maps()
            if d["ntemp"]:
                out["temp"] = o.get_templates()
        return out

    def r_ffield(self, f):
        o = self.ffield(self.spec["FF"][f])
        return dict(mask=o.get_mask(), maps=o.get_maps())

    def cuts(self, v):
        d = self.spec["FW"][v]
        return dict(ell_cut_x=d["cx"], ell_cut_y=d["cy"])

    def r_fpcl(self, a, b, q):
        return dict(pcl=S.nmt.compute_coupled_cell_flat(self.o(a), self.o(b), self.o(q)))

    def r_fwsp(self, v):
        d = self.spec["FW"][v]
        w = S.nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(self.o(d["f1"]), self.o(d["f2"]), self.o(d["b"]), is_teb=d["teb"], **self.cuts(v))
        return W.flat_wsp_answers(w, self.spec)

    def r_fask(self, v, what):
        return self.ask_fwsp(self.o(v), what)

    def ask_fwsp(self, o, what):
        n, nb = o.wsp.ncls, o.wsp.bin.n_bands
        if what == "couple":
            return dict(coupled=o.couple_cell(self.arr("fl"), self.arr("fcls", n, 0)))
        if what == "decouple":
            return dict(decoupled=o.decouple_cell(self.arr("fb", n, nb, 0)))
        return dict(decoupled_bn=o.decouple_cell(self.arr("fb", n, nb, 0), cl_bias=self.arr("fb", n, nb, 1),
                                                 cl_noise=self.arr("fb", n, nb, 2)))

    def r_fsave(self, v):
        fn = self.path("v%s.fits" % v)
        self.o(v).write_to(fn)
        n = S.nmt.NmtWorkspaceFlat()
        n.read_from(fn)
        return W.flat_wsp_answers(n, self.spec)

    def r_fdep(self, a, b, q):
        return dict(db=S.nmt.deprojection_bias_flat(self.o(a), self.o(b), self.o(q), self.arr("fl"),
                                                    self.arr("fcls", self.ncls(a, b), 0)))

    def r_ffull(self, a, b, q):
        n = self.ncls(a, b)
        return dict(full=S.nmt.compute_full_master_flat(
            self.o(a), self.o(b), self.o(q), cl_guess=self.arr("fcls", n, 0), ells_guess=self.arr("fl")))

    def r_ffullw(self, v):
        d = self.spec["FW"][v]
        return dict(full=S.nmt.compute_full_master_flat(
            self.o(d["f1"]), self.o(d["f2"]), self.o(d["b"]), workspace=self.o(v), **self.cuts(v)))

    def r_fcov(self, c, va, vb):
        sp, cl = self.cov_args(va, vb, True)
        return dict(cov=S.nmt.gaussian_covariance_flat(self.o(c), *sp, self.arr("fl"), *cl, self.o(va), self.o(vb)))

    def fcov_ans(self, c):
        out = {}
        vs = list(self.spec["FW"])
        for va in vs:
            for vb in vs:
                sp, cl = self.cov_args(va, vb, True)
                if self.spec["FW"][va]["b"] != self.spec["FW"][vb]["b"]:
                    continue
                k = "cov.%s.%s.cov" % (va, vb)
                try:
                    out[k] = S.nmt.gaussian_covariance_flat(c, *sp, self.arr("fl"), *cl, self.o(va), self.o(vb))
                except Exception as e:
                    if self.strict:
                        raise
                    out[k] = np.frombuffer(type(e).__name__.encode().ljust(40), dtype=np.uint8)
        return out

    def fcov_build(self, c):
        d = self.spec["FC"][c]
        n = S.nmt.NmtCovarianceWorkspaceFlat()
        f = [self.o(x) for x in d["f"]]
        n.compute_coupling_coefficients(f[0], f[1], self.o(d["b"]), f[2], f[3])
        return n

    def r_fcovn(self, c):
        return self.fcov_ans(self.fcov_build(c))

    def r_fcovsave(self, c):
        fn = self.path("d%s.fits" % c)
        self.o(c).write_to(fn)
        n = S.nmt.NmtCovarianceWorkspaceFlat()
        n.read_from(fn)
        return self.fcov_ans(n)

    def r_fbin(self, q):
        o = self.o(q)
        n = o.get_n_bands()
        return dict(eff=o.get_effective_ells(), bin=o.bin_cell(self.arr("fl"), self.arr("fcls", 2, 0)),
                    unbin=o.unbin_cell(self.arr("bp", 2, n), self.arr("fl")))

    def r_fsyn(self, sp, seed, beam):
        nm = sum(2 if s else 1 for s in sp)
        s = self.spec
        return dict(m=S.nmt.synfast_flat(s["nx"], s["ny"], s["lx"], s["ly"], self.arr("scls", nm), sp, seed=seed,
                                         beam=self.arr("sbeam", len(sp)) if beam else None))

    def r_fapo(self, k, size, typ):
        s = self.spec
        return dict(m=S.nmt.mask_apodization_flat(self.arr("fmask", k), s["lx"], s["ly"], size, apotype=typ))

    def r_bad(self, name, k):
        import bad
        return bad.call(self, name, k)

    def r_settings(self):
        d = S.nmt.get_default_params()
        return dict(sht=np.frombuffer(d["sht_calculator"].encode().ljust(9), dtype=np.uint8), s=np.array(settings()[:3]))

    # settings and housekeeping
    def r_set(self, what, v):
        if what == "n_iter":
            S.nmt.set_n_iter_default(v)
        elif what == "n_iter_mask":
            S.nmt.set_n_iter_default(v, mask=True)
        elif what == "sht":
            S.nmt.set_sht_calculator(v)
        else:
            S.nmt.set_tol_pinv_default(v)
        return {}

    def r_drop(self, name):
        """Discard one object; what was built from it lives on."""
        for n, st in self.made:
            if n == name:
                self.then[name] = st     # rebuilt as it was
        self.objs.pop(name, None)
        gc.collect()
        return {}

    def r_forget(self, name):
        """Discard an object and what was built from it."""
        gone = {name}
        for t in ("W", "C", "FW", "FC"):
            for n, d in self.spec[t].items():
                deps = [d.get("f1"), d.get("f2"), d.get("b")] + list(d.get("f", []))
                if name in deps:
                    gone.add(n)
        for n in gone:
            self.objs.pop(n, None)
            self.then.pop(n, None)
        self.made = [m for m in self.made if m[0] not in gone]
        gc.collect()
        return {}


def settings():
    d = S.nmt.get_default_params()
    return [d["n_iter_default"], d["n_iter_mask_default"], d["tol_pinv_default"], d["sht_calculator"]]


def apply_settings(s):
    S.nmt.set_n_iter_default(s[0])
    S.nmt.set_n_iter_default(s[1], mask=True)
    S.nmt.set_tol_pinv_default(s[2])
    S.nmt.set_sht_calculator(s[3])


def freeze(d):
    return {k: np.array(v) for k, v in d.items()}


def car_shape(s, part):
    nx = 2*max(s["lmax"], 3*s["nside"]-1, 6)
    if nx % 4:
        nx += 2
    ny = nx//2+1
    return nx, (ny*2//3 if part in (2, 3) else ny), (nx*3//4 if part == 1 else nx)


def make_array(s, key):
    """The caller's data, from the spec alone."""
    r = np.random.default_rng(sub(s["ds"], "arr", repr(key)))
    k = key[0]
    if k in ("mask", "m22", "m12", "maps", "tmp", "var"):
        npix = 12*s["nside"]**2
    if k == "mask":
        return W.mask_map(s, key[1], s["nside"], key[2])
    if k == "m22":
        return make_array(s, ("mask",)+key[1:])*(0.6+0.3*r.random(npix))
    if k == "m12":
        m, m2 = make_array(s, ("mask",)+key[1:]), make_array(s, ("m22",)+key[1:])
        return 0.3*np.sqrt(m*m2)*(r.random(npix)-0.5)
    if k == "maps":
        return r.standard_normal((key[2], npix))
    if k == "tmp":
        return r.standard_normal((key[3], key[2], npix))
    if k == "var":
        return 0.5+r.random(key[1:])
    if k in ("cmask", "cmaps", "ctmp"):
        nx, ny, nxs = car_shape(s, key[-1])
        if k == "cmask":
            return 0.2+r.random((ny, nxs))
        if k == "cmaps":
            return r.standard_normal((key[2], ny, nxs))
        return r.standard_normal((key[3], key[2], ny, nxs))
    if k == "beam":
        l = np.arange(s["lmax"]+1)
        return np.exp(-l*(l+1)*(0.2+(0.3 if key[1] % 2 else 5)*r.random())/(s["lmax"]+1.)**2)
    if k == "pos":
        th, ph = np.arccos(2*r.random(40)-1), 2*np.pi*r.random(40)
        if key[2]:
            return np.array([np.degrees(ph), 90-np.degrees(th)])
        return np.array([th, ph])
    if k == "wgt":
        return 0.5+r.random(40)
    if k == "catf":
        return r.standard_normal((key[2], 40))
    if k == "cls":
        return W.rand_cls(r, key[1], s["lmax"])
    if k == "bp":
        return 0.5+r.random((key[1], key[2]))
    if k == "scls":
        nm = key[1]
        l = np.arange(30)
        return np.array([(1.0 if i == j else 0.2)/(l+10.) for i in range(nm) for j in range(i, nm)])
    if k == "sbeam":
        return np.exp(-0.1*np.arange(30)/30.)*np.ones((key[1], 1))
    if k == "sym":
        a = r.standard_normal((key[1], key[1]))
        return a @ a.T + 0.1*np.eye(key[1])
    # flat
    if k == "fmask":
        return W.flat_mask(s, key[1], key[1])
    if k == "fmaps":
        return r.standard_normal((key[2], s["ny"], s["nx"]))
    if k == "ftmp":
        return r.standard_normal((key[3], key[2], s["ny"], s["nx"]))
    lmx = 1.5*np.pi*np.hypot(s["nx"]/s["lx"], s["ny"]/s["ly"])
    l = np.linspace(0, lmx, 40)
    if k == "fl":
        return l
    if k == "fbeam":
        return np.array([l, np.exp(-0.3*(l/lmx)**2)])
    if k == "fcls":
        return (0.5+r.random((key[1], 40)))/(1.+l/lmx*3)
    if k == "fb":
        return 1+r.random((key[1], key[2]))
    raise KeyError(key)


# --------------------------------------------------------- drawing requests
ASK = ["mcm", "win", "couple", "decouple", "decouple_bn"]
FASK = ["couple", "decouple", "decouple_bn"]


def gen_request(rng, w, settings_too=False):
    """One request; a few of them are refused by the library."""
    for _ in range(50):
        r = _gen_request(rng, w, settings_too)
        if r is not None:
            return r
    raise RuntimeError("no request possible")


def gen_about(rng, w, name):
    """A request that has to do with this object."""
    deps = {name}
    for t in ("W", "C", "FW", "FC"):
        for n, d in w[t].items():
            if name in [d.get("f1"), d.get("f2"), d.get("b")] + list(d.get("f", [])):
                deps.add(n)
    for _ in range(60):
        r = gen_request(rng, w)
        if name in r or (set(map(str, r[1:])) & deps and rng.random() < 0.3):
            return r
    return gen_request(rng, w)


def _gen_request(rng, w, st):
    opts = []
    if w["F"]:
        F, B, Wn, C = list(w["F"]), list(w["B"]), list(w["W"]), list(w["C"])
        f = lambda: rng.choice(F)
        opts += [lambda: ["get", f()], lambda: ["malm", f()], lambda: ["field", f()],
                 lambda: ["clone", f(), rng.choice(["copy", "deep", "pickle"]), int(st and rng.random() < 0.5)],
                 lambda: ["pcl", f(), f()], lambda: ["ask", rng.choice(Wn), rng.choice(ASK)],
                 lambda: ["ask", rng.choice(Wn), rng.choice(ASK)],
                 lambda: (lambda a, b: ["wsp", a, b, rng.choice(B), gen_kw(rng, w, a, b)])(f(), f()),
                 lambda: ["wsave", rng.choice(Wn), rng.randint(0, 1)],
                 lambda: ["sht", f(), rng.randint(0, 2)], lambda: ["compat", f(), f()],
                 lambda: (lambda a, b: ["full2", a, b, rng.choice(B), rng.randint(0, 1), rng.randint(0, 1),
                                        {k: v for k, v in gen_kw(rng, w, a, b).items() if k != "is_teb"}])(f(), f()),
                 lambda: ["full", f(), f(), rng.choice(B)], lambda: ["fullw", rng.choice(Wn)],
                 lambda: ["bin", rng.choice(B)], lambda: ["newbins", rng.choice(["lin", "nside", "edges"]), rng.randint(1, 4)],
                 lambda: ["apo", rng.randint(0, 2), round(rng.uniform(2, 40), 2) if rng.random() < 0.9 else 0.,
                         rng.choice(["C1", "C2", "Smooth"])],
                 lambda: ["pinv", rng.randint(1, 4), rng.choice([0, 1e-10, 0.3])],
                 lambda: ["syn", rng.choice([[0], [2], [0, 2], [0, 0]]), rng.randint(0, 9), rng.randint(0, 1)]]
        T = [x for x in F if w["F"][x]["nt"]]
        if T:
            opts += [lambda: ["depbias", rng.choice(T), f()], lambda: ["depbias", f(), rng.choice(T)],
                     lambda: ["depbias", rng.choice(T), rng.choice(T)],
                     lambda: ["depbias_n", rng.choice(T), rng.choice(T), rng.randint(0, 2)],
                     lambda: ["noisebias", rng.choice(T), rng.choice([None, 0, 1, 2])]]
        if C:
            opts += [lambda: ["cov", rng.choice(C), rng.choice(Wn), rng.choice(Wn), rng.randint(0, 1)],
                     lambda: ["cov", rng.choice(C), rng.choice(Wn), rng.choice(Wn), rng.randint(0, 1)],
                     lambda: ["covn", rng.choice(C)], lambda: ["covsave", rng.choice(C), rng.randint(0, 1)]]
        if st:
            if not any(d["kind"] in ("car", "cat", "clus") for d in w["F"].values()):
                opts.append(lambda: ["set", "sht", rng.choice(["ducc", "healpy"])])
            opts += [lambda: ["set", "n_iter", rng.randint(0, 4)], lambda: ["set", "n_iter_mask", rng.randint(0, 4)],
                     lambda: ["set", "tol", rng.choice([1e-10, 1e-3, 0.5])], lambda: ["drop", rng.choice(F+B+Wn+C)],
                     lambda: ["forget", rng.choice(F+B+Wn+C)]]
    if w["FF"]:
        P, Q, V, D = list(w["FF"]), list(w["FB"]), list(w["FW"]), list(w["FC"])
        p = lambda: rng.choice(P)
        u = lambda: sum([rng.choice([[1., -1.], [-0.1*rng.random(), 0.2*rng.random()]]) for _ in range(2)], [])
        opts += [lambda: ["fget", p()], lambda: ["ffield", p()], lambda: ["fpcl", p(), p(), rng.choice(Q)],
                 lambda: ["fwsp", rng.choice(V)], lambda: ["fask", rng.choice(V), rng.choice(FASK)],
                 lambda: ["fask", rng.choice(V), rng.choice(FASK)],
                 lambda: ["fsave", rng.choice(V)], lambda: ["fdep", p(), p(), rng.choice(Q)],
                 lambda: ["fpcl2", p(), p(), rng.choice(Q), u()], lambda: ["fdep2", p(), p(), rng.choice(Q), u()],
                 lambda: ["ffull2", p(), p(), rng.choice(Q), rng.randint(0, 1), u()],
                 lambda: ["ffull", p(), p(), rng.choice(Q)], lambda: ["ffullw", rng.choice(V)],
                 lambda: ["fbin", rng.choice(Q)],
                 lambda: ["fsyn", rng.choice([[0], [2], [0, 2]]), rng.randint(0, 9), rng.randint(0, 1)],
                 lambda: ["fapo", rng.randint(0, 1), round(rng.uniform(0.5, 20), 2) if rng.random() < 0.9 else 0.,
                         rng.choice(["C1", "C2", "Smooth"])]]
        if D:
            opts += [lambda: ["fcov", rng.choice(D), rng.choice(V), rng.choice(V)], lambda: ["fcovn", rng.choice(D)],
                     lambda: ["fcovsave", rng.choice(D)]]
        if st:
            opts += [lambda: ["drop", rng.choice(P+Q+V+D)], lambda: ["forget", rng.choice(P+Q+V+D)]]
    return rng.choice(opts)()


def probes(w, names):
    """Questions that show the whole observable state of the named objects."""
    out = []
    for n in names:
        k = n[0]
        if k == "F":
            out += [["get", n], ["malm", n]]
        elif k == "B":
            out.append(["bin", n])
        elif k == "W":
            out += [["ask", n, a] for a in ASK]
        elif k == "C":
            out += [["cov", n, a, a, c] for a in list(w["W"])[:2] for c in (0, 1)]
        elif k == "P":
            out.append(["fget", n])
        elif k == "Q":
            out.append(["fbin", n])
        elif k == "V":
            out += [["fask", n, a] for a in FASK]
        elif k == "D":
            out += [["fcov", n, a, a] for a in w["FW"]]
    return out


def differ(ref, got):
    """How an outcome differs from its reference, or None."""
    from sched import cmp_out
    if ref[0] == "exc":
        if got[0] == "ok":
            return "refused", "a request refused on fresh objects (%s: %s) returned normally" % (ref[1], ref[2])
        if got[1] != ref[1]:
            return "other error", "raised %s (%s) where fresh objects raise %s (%s)" % (got[1], got[2], ref[1], ref[2])
        return None
    if got[0] == "exc":
        return "raises", "raised %s (%s) where fresh objects answer" % (got[1], got[2])
    d = cmp_out(ref[1], got[1])
    if d is not None:
        return "mismatch", "answer '%s' %s" % d
    return None
