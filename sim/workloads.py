"""Workloads: randomly configured uses of NaMaster's public API.

gen(rng) -> spec (JSON-able, everything is derived from it)
prep(spec) -> context, built once, outside the simulated execution
run(spec, ctx) -> {name: array}, inside the simulated execution
"""
import numpy as np
import healpy as hp

import simlib as S


def nrng(spec, *k):
    from harness import sub
    return np.random.default_rng(sub(spec["ds"], *k))


def rint(rng, a, b):
    return rng.randint(a, b)


# ------------------------------------------------------------------ curved sky
def mask_map(spec, key, nside, kind):
    r = nrng(spec, "mask", key)
    npix = 12*nside*nside
    m = 0.2 + r.random(npix)
    if kind == 1:
        m = (r.random(npix) > 0.3) * 1.0
    elif kind == 2:
        m[:npix//2] = 0
        m[npix//2:] += 0.5
    return m


def gen_field(rng, spin, aniso=False, pure=True, beam=True):
    f = dict(spin=spin, mk=rng.randint(0, 2), beam=beam and rng.random() < 0.5)
    f["pure_e"] = f["pure_b"] = False
    f["aniso"] = bool(aniso and spin != 0)
    if spin == 2 and pure and not f["aniso"]:
        f["pure_e"] = rng.random() < 0.35
        f["pure_b"] = rng.random() < 0.45
    return f


def make_field(spec, f, key, lmax, lmax_mask, nside, mask=None, **kw):
    nmt = S.nmt
    if mask is None:
        mask = mask_map(spec, key, nside, f["mk"])
    beam = None
    if f["beam"]:
        ls = np.arange(lmax+1)
        beam = np.exp(-ls*(ls+1)*0.4/(lmax+1.)**2*(1+0.3*(key % 3)))
    d = dict(spin=f["spin"], lmax=lmax, lmax_mask=lmax_mask, beam=beam,
             n_iter=0, n_iter_mask=0, purify_e=f["pure_e"],
             purify_b=f["pure_b"])
    d.update(kw)
    maps = d.pop("maps", None)
    if f.get("aniso"):
        r = nrng(spec, "aniso", key)
        m22 = mask*(0.6+0.3*r.random(len(mask)))
        m12 = 0.3*np.sqrt(mask*m22)*(r.random(len(mask))-0.5)
        d.update(mask_22=m22, mask_12=m12)
    return nmt.NmtField(mask, maps, **d)


def gen_bins(rng, lmin, lmax):
    """Edges of bands from >=lmin to lmax inclusive (lmax must be covered)."""
    lo = min(lmin + rng.randint(0, 2), lmax)
    kind = rng.randint(0, 3)
    edges, l = [], lo
    while l <= lmax:
        w = rng.randint(1, 6) if kind else 3
        e = min(l+w, lmax+1)
        edges.append((l, e))
        l = e
        if kind == 2 and rng.random() < 0.3 and l < lmax:
            l += 1
        elif kind == 1 and l <= lmax and rng.random() < 0.4 and w > 1:
            l -= 1      # this multipole belongs to two bands
    return dict(edges=edges, dell=rng.random() < 0.5, wt=rng.random() < 0.4,
                ws=rng.randint(0, 10**6), own=rng.random() < 0.3, mix=rng.random() < 0.2)


def ell_prefactor(b, ells):
    """One per row of the table: with "own", a multipole that belongs to two
    bands has a different one in each."""
    f = ells*(ells+1)/(2*np.pi) if b["dell"] else np.ones(len(ells))
    if b.get("own"):
        f = f*(0.5+np.random.default_rng(b["ws"]+1).random(len(ells)))
    elif not b["dell"]:
        return None
    return f


def gen_toep(rng, lmax):
    """Toeplitz approximation parameters, edges included."""
    lt = rng.choice([2, lmax-1, rng.randint(2, lmax-1), rng.randint(2, lmax-1)])
    le = rng.choice([1, lt, min(2, lt), rng.randint(1, lt), rng.randint(1, lt)])
    return [lt, le, rng.choice([0, 1, lmax-1, rng.randint(0, lmax-1), rng.randint(0, max(0, (lmax-1)//3))])]


def lend(a, seq=False, exact=False):
    """The array the caller passes; carry.py puts the numbers in others."""
    return a


def mixed(b, ells):
    """The rows of the table come in any order."""
    return np.random.default_rng(b["ws"]+2).permutation(len(ells))


def make_bins(b, lmax):
    ells, bpws = [], []
    for i, (a, e) in enumerate(b["edges"]):
        for l in range(a, e):
            ells.append(l)
            bpws.append(i)
    ells, bpws = np.array(ells), np.array(bpws)
    w = np.ones(len(ells))
    if b["wt"]:
        w = 0.5+np.random.default_rng(b["ws"]).random(len(ells))
    f = ell_prefactor(b, ells)
    if f is not None:
        f = f if not b.get("mix") else f[mixed(b, ells)]
        f = lend(f)
    if b.get("mix"):
        o = mixed(b, ells)
        ells, bpws, w = ells[o], bpws[o], w[o]
    return S.nmt.NmtBin(bpws=lend(bpws), ells=lend(ells), lmax=lmax, weights=lend(w), f_ell=f)


SPINS = [(0, 0), (0, 2), (2, 0), (2, 2), (2, 2), (2, 2), (0, 1), (1, 1),
         (1, 2), (2, 1), (3, 2), (0, 3)]


def gen_curved(rng, small=False):
    s1, s2 = rng.choice(SPINS)
    lmax = rng.randint(5, 9 if small else 24)
    if rng.random() < 0.12:
        lmax = rng.randint(4, 6)
    elif not small and rng.random() < 0.12:
        lmax = rng.choice([rng.randint(30, 72), rng.randint(73, 150)])
    teb = (s1 == 0 and s2 != 0 and rng.random() < 0.3)
    aniso = (not teb) and max(s1, s2) > 0 and rng.random() < 0.25
    spec = dict(ds=rng.getrandbits(40), nside=4, lmax=lmax,
                lmax_mask=rng.choice([lmax, lmax, lmax+1, lmax+4, 2*lmax, lmax-1, lmax//2]),
                same=False, teb=teb,
                norm=rng.choice(["MASTER", "MASTER", "FKP"]),
                toep=None)
    spec["lmax_mask"] = min(max(spec["lmax_mask"], 6), max(36, lmax+2))
    spec["f1"] = gen_field(rng, s1, aniso and rng.random() < 0.7)
    spec["f2"] = gen_field(rng, s2, aniso and (rng.random() < 0.7 or s1 == 0 or not spec["f1"]["aniso"]))
    if s1 == s2 and rng.random() < 0.3:
        spec["same"] = True
        spec["f2"] = spec["f1"]
    ani = spec["f1"]["aniso"] or spec["f2"]["aniso"]
    pure = any(spec[f][p] for f in ("f1", "f2") for p in ("pure_e", "pure_b"))
    if not ani and not pure and lmax > 6 and rng.random() < 0.35:
        spec["toep"] = gen_toep(rng, lmax)
    lmin = max(abs(s1), abs(s2), 0)
    if pure:
        lmin = max(lmin, 2)
    spec["bins"] = gen_bins(rng, lmin, lmax)
    return spec


def curved_objs(spec):
    f1 = make_field(spec, spec["f1"], 1, spec["lmax"], spec["lmax_mask"], spec["nside"])
    if spec["same"]:
        f2 = f1
    else:
        f2 = make_field(spec, spec["f2"], 2, spec["lmax"], spec["lmax_mask"], spec["nside"])
    b = make_bins(spec["bins"], spec["lmax"])
    return f1, f2, b


def wsp_kw(spec):
    kw = dict(is_teb=spec["teb"], normalization=spec["norm"])
    if spec["toep"]:
        kw.update(l_toeplitz=spec["toep"][0], l_exact=spec["toep"][1],
                  dl_band=spec["toep"][2])
    return kw


def rand_cls(r, n, lmax):
    ls = np.arange(lmax+1)
    return (0.5+r.random((n, lmax+1)))/(ls+2.)


def wsp_answers(w, spec, lmax, pre="", unb=True):
    """Everything a curved-sky workspace can be asked."""
    r = nrng(spec, "cl")
    n = w.wsp.ncls
    out = {}
    cl = rand_cls(r, n, lmax)
    cb = 0.1*rand_cls(r, n, lmax)
    cn = 0.1*rand_cls(r, n, lmax)
    if unb:
        out[pre+"mcm"] = w.get_coupling_matrix()
        out[pre+"win"] = w.get_bandpower_windows()
        out[pre+"coupled"] = w.couple_cell(lend(cl))
    out[pre+"decoupled"] = w.decouple_cell(lend(cl))
    out[pre+"decoupled_bn"] = w.decouple_cell(lend(cl), cl_bias=lend(cb), cl_noise=lend(cn))
    return out


class CurvedMCM:
    name = "curved_mcm"

    @staticmethod
    def gen(rng):
        return gen_curved(rng)

    @staticmethod
    def prep(spec):
        f1, f2, b = curved_objs(spec)
        for f in (f1, f2):
            f.get_mask_alms()
            if f.anisotropic_mask:
                f.get_anisotropic_mask_alms()
        return f1, f2, b

    @staticmethod
    def run(spec, ctx):
        f1, f2, b = ctx
        w = S.nmt.NmtWorkspace.from_fields(f1, f2, b, **wsp_kw(spec))
        return wsp_answers(w, spec, spec["lmax"])


class CurvedCovar:
    name = "curved_covar"

    @staticmethod
    def gen(rng):
        lmax = rng.randint(4, 12)
        if rng.random() < 0.08:
            lmax = rng.randint(13, 60)
        sp = [rng.choice([0, 0, 2, 2, 2, 1]) for _ in range(4)]
        nz = [s for s in sp if s]
        if nz:
            s0 = 2 if 2 in nz else nz[0]
            sp = [s0 if s else 0 for s in sp]
        spec = dict(ds=rng.getrandbits(40), nside=2, lmax=lmax,
                    lmax_mask=rng.choice([lmax, lmax, lmax+2, lmax+5, lmax-1, lmax//2]),
                    sp=sp, mk=[rng.randint(0, 2) for _ in range(4)],
                    nmask=rng.randint(1, 4), toep=None, spin0=False)
        if rng.random() < 0.3 and lmax > 5:
            spec["toep"] = gen_toep(rng, lmax)
        if not any(sp) and rng.random() < 0.6:
            spec["spin0"] = True
        lm = max(sp)
        spec["bins_a"] = gen_bins(rng, lm, lmax)
        spec["bins_b"] = gen_bins(rng, lm, lmax)
        return spec

    @staticmethod
    def fields(spec):
        fs = []
        for i in range(4):
            f = dict(spin=spec["sp"][i], mk=spec["mk"][i % spec["nmask"]],
                     beam=False, pure_e=False, pure_b=False)
            fs.append(make_field(spec, f, i, spec["lmax"], spec["lmax_mask"],
                                 spec["nside"], mask=mask_map(spec, i % spec["nmask"], spec["nside"], f["mk"])))
        return fs

    @staticmethod
    def cls(spec):
        r = nrng(spec, "cl")
        nm = [2 if s else 1 for s in spec["sp"]]
        return [rand_cls(r, nm[a]*nm[b], spec["lmax"]) for a, b in
                ((0, 2), (0, 3), (1, 2), (1, 3))]

    @staticmethod
    def prep(spec):
        fs = CurvedCovar.fields(spec)
        wa = S.nmt.NmtWorkspace.from_fields(fs[0], fs[1], make_bins(spec["bins_a"], spec["lmax"]))
        wb = S.nmt.NmtWorkspace.from_fields(fs[2], fs[3], make_bins(spec["bins_b"], spec["lmax"]))
        return fs, wa, wb

    @staticmethod
    def answers(spec, cw, wa, wb, pre=""):
        cls = CurvedCovar.cls(spec)
        out = {}
        for c in (False, True):
            out[pre+"cov_%s" % ("coupled" if c else "decoupled")] = \
                S.nmt.gaussian_covariance(cw, *spec["sp"], *cls, wa, wb, coupled=c)
        return out

    @staticmethod
    def cw_kw(spec):
        kw = dict(spin0_only=spec["spin0"])
        if spec["toep"]:
            kw.update(l_toeplitz=spec["toep"][0], l_exact=spec["toep"][1],
                      dl_band=spec["toep"][2])
        return kw

    @staticmethod
    def run(spec, ctx):
        fs, wa, wb = ctx
        cw = S.nmt.NmtCovarianceWorkspace.from_fields(*fs, **CurvedCovar.cw_kw(spec))
        return CurvedCovar.answers(spec, cw, wa, wb)


# -------------------------------------------------------------------- flat sky
def gen_flat_field(rng, spin, maps=True):
    f = dict(spin=spin, mk=rng.randint(0, 1), beam=rng.random() < 0.4,
             pure_e=False, pure_b=False, maps=maps, ntemp=0, lite=False,
             moi=rng.random() < 0.15)
    if spin == 2:
        f["pure_e"] = rng.random() < 0.3
        f["pure_b"] = rng.random() < 0.4
    if maps and rng.random() < 0.5:
        f["ntemp"] = rng.randint(1, 2)
    return f


def flat_mask(spec, key, kind):
    ny, nx = spec["ny"], spec["nx"]
    r = nrng(spec, "fmask", key)
    m = 0.3+r.random((ny, nx))
    if kind == 1:
        m[:max(1, ny//4)] = 0
        m[:, -1] = 0
    return m


def make_flat_field(spec, f, key):
    ny, nx = spec["ny"], spec["nx"]
    r = nrng(spec, "fmaps", key)
    nm = 2 if f["spin"] else 1
    kw = dict(spin=f["spin"], purify_e=f["pure_e"], purify_b=f["pure_b"])
    if f["beam"]:
        lmx = np.pi*np.hypot(nx/spec["lx"], ny/spec["ly"])*1.2
        l = np.linspace(0, lmx, 30)
        kw["beam"] = np.array([l, np.exp(-0.3*(l/lmx)**2)])
    maps = None
    if f["maps"]:
        maps = r.standard_normal((nm, ny, nx))
        if f["ntemp"]:
            kw["templates"] = r.standard_normal((f["ntemp"], nm, ny, nx))
        kw["masked_on_input"] = f["moi"]
        kw["lite"] = f["lite"]
    return S.nmt.NmtFieldFlat(spec["lx"], spec["ly"], flat_mask(spec, key, f["mk"]), maps, **kw)


def gen_flat(rng, mx=20):
    s1, s2 = rng.choice([(0, 0), (0, 2), (2, 0), (2, 2), (2, 2), (0, 1), (1, 2), (2, 2)])
    if rng.random() < 0.08:
        mx = 3*mx
    spec = dict(ds=rng.getrandbits(40), nx=rng.randint(6, mx), ny=rng.randint(6, mx),
                lx=0.1*rng.randint(5, 20), ly=0.1*rng.randint(5, 20))
    spec["f1"] = gen_flat_field(rng, s1)
    spec["f2"] = gen_flat_field(rng, s2)
    spec["same"] = False
    if s1 == s2 and rng.random() < 0.3:
        spec["same"] = True
        spec["f2"] = spec["f1"]
    spec["teb"] = s1 == 0 and s2 != 0 and rng.random() < 0.3
    spec["nb"] = rng.randint(1, 4)
    spec["bgap"] = rng.random() < 0.3
    spec["cutx"] = [1., -1.]
    spec["cuty"] = [1., -1.]
    lmx = np.pi*min(spec["nx"]/spec["lx"], spec["ny"]/spec["ly"])
    if rng.random() < 0.4:
        spec["cutx"] = [-0.06*lmx*rng.random(), 0.06*lmx*rng.random()]
    if rng.random() < 0.3:
        spec["cuty"] = [-0.06*lmx*rng.random(), 0.06*lmx*rng.random()]
    return spec


def flat_bins(spec):
    lmx = np.pi*min(spec["nx"]/spec["lx"], spec["ny"]/spec["ly"])
    dl = 2*np.pi/min(spec["lx"], spec["ly"])
    nb = max(1, min(spec["nb"], int((lmx)/(1.3*dl))))
    e = np.linspace(0.4*dl, lmx*0.98, nb+1)
    l0, lf = e[:-1].copy(), e[1:].copy()
    if spec["bgap"] and nb > 1:
        lf[0] -= 0.1*(lf[0]-l0[0])
    return S.nmt.NmtBinFlat(lend(l0), lend(lf))


def flat_cls(spec, n, key):
    lmx = 1.5*np.pi*np.hypot(spec["nx"]/spec["lx"], spec["ny"]/spec["ly"])
    l = np.linspace(0, lmx, 40)
    return l, (0.5+nrng(spec, "fcl", key).random((n, 40)))/(1.+l/lmx*3)


def flat_objs(spec):
    f1 = make_flat_field(spec, spec["f1"], 1)
    f2 = f1 if spec["same"] else make_flat_field(spec, spec["f2"], 2)
    return f1, f2, flat_bins(spec)


def flat_wsp_answers(w, spec, pre=""):
    n, nb = w.wsp.ncls, w.wsp.bin.n_bands
    l, cl = flat_cls(spec, n, "th")
    r = nrng(spec, "fdec")
    out = {}
    out[pre+"coupled"] = w.couple_cell(lend(l), lend(cl))
    out[pre+"decoupled"] = w.decouple_cell(
        lend(1+r.random((n, nb))), cl_bias=lend(0.1*r.random((n, nb))), cl_noise=lend(0.1*r.random((n, nb))))
    return out


class FlatPipeline:
    name = "flat_pipeline"

    @staticmethod
    def gen(rng):
        return gen_flat(rng)

    @staticmethod
    def prep(spec):
        return None

    @staticmethod
    def run(spec, ctx):
        nmt = S.nmt
        f1, f2, b = flat_objs(spec)
        out = {}
        for k, f in (("f1", f1), ("f2", f2)):
            out[k+"_maps"] = np.array(f.get_maps())
            if spec[k]["ntemp"]:
                out[k+"_temp"] = np.array(f.get_templates())
            out[k+"_mask"] = f.get_mask()
            out[k+"_ells"] = f.get_ell_sampling()
        cc = nmt.compute_coupled_cell_flat(f1, f2, b, ell_cut_x=spec["cutx"], ell_cut_y=spec["cuty"])
        out["pcl"] = cc
        w = nmt.NmtWorkspaceFlat()
        w.compute_coupling_matrix(f1, f2, b, ell_cut_x=spec["cutx"],
                                  ell_cut_y=spec["cuty"], is_teb=spec["teb"])
        out.update(flat_wsp_answers(w, spec))
        l, cl = flat_cls(spec, f1.fl.nmaps*f2.fl.nmaps, "dep")
        if spec["f1"]["ntemp"] or spec["f2"]["ntemp"]:
            out["depbias"] = nmt.deprojection_bias_flat(
                f1, f2, b, l, cl, ell_cut_x=spec["cutx"], ell_cut_y=spec["cuty"])
        if not spec["teb"]:
            out["full"] = nmt.compute_full_master_flat(
                f1, f2, b, cl_guess=cl, ells_guess=l, workspace=w,
                ell_cut_x=spec["cutx"], ell_cut_y=spec["cuty"])
        return out


class FlatCovar:
    name = "flat_covar"

    @staticmethod
    def gen(rng):
        spec = gen_flat(rng, mx=14)
        sp = [rng.choice([0, 2, 2]) for _ in range(4)]
        spec["sp"] = sp
        spec["fs"] = []
        for i in range(4):
            f = gen_flat_field(rng, sp[i], maps=False)
            f["pure_e"] = f["pure_b"] = False
            spec["fs"].append(f)
        spec["cutx"] = spec["cuty"] = [1., -1.]
        spec["nf"] = rng.choice([1, 2, 4])
        spec["binb"] = rng.random() < 0.5
        return spec

    @staticmethod
    def fields(spec):
        return [make_flat_field(spec, dict(spec["fs"][i], mk=spec["fs"][i % spec["nf"]]["mk"]), i % spec["nf"])
                for i in range(4)]

    @staticmethod
    def prep(spec):
        fs = FlatCovar.fields(spec)
        b = flat_bins(spec)
        wa = S.nmt.NmtWorkspaceFlat()
        wa.compute_coupling_matrix(fs[0], fs[1], b)
        wb = S.nmt.NmtWorkspaceFlat()
        wb.compute_coupling_matrix(fs[2], fs[3], b)
        return fs, wa, wb, b

    @staticmethod
    def answers(spec, cw, wa, wb, pre=""):
        nm = [2 if s else 1 for s in spec["sp"]]
        cls = []
        for k, (a, b) in enumerate(((0, 2), (0, 3), (1, 2), (1, 3))):
            l, c = flat_cls(spec, nm[a]*nm[b], ("c", k))
            cls.append(c)
        return {pre+"cov": S.nmt.gaussian_covariance_flat(cw, *spec["sp"], l, *cls, wa, wb)}

    @staticmethod
    def run(spec, ctx):
        fs, wa, wb, b = ctx
        cw = S.nmt.NmtCovarianceWorkspaceFlat()
        if spec["binb"]:
            cw.compute_coupling_coefficients(fs[0], fs[1], b, fs[2], fs[3], b)
        else:
            cw.compute_coupling_coefficients(fs[0], fs[1], b, fs[2], fs[3])
        return FlatCovar.answers(spec, cw, wa, wb)


# ----------------------------------------------------------------------- masks
class MaskCurved:
    name = "mask_curved"

    @staticmethod
    def gen(rng):
        return dict(ds=rng.getrandbits(40), nside=rng.choice([1, 2, 2, 4, 4, 4, 4, 8, 8, 16]),
                    apotype=rng.choice(["C1", "C2", "Smooth"]),
                    aposize=round(rng.choice([rng.uniform(0.2, 5), rng.uniform(5, 40), rng.uniform(20, 70)]), 3),
                    frac=rng.choice([0.02, 0.1, 0.4, 0.7]), val=rng.random() < 0.5)

    @staticmethod
    def prep(spec):
        r = nrng(spec, "m")
        npix = 12*spec["nside"]**2
        m = np.ones(npix)
        if spec["val"]:
            m = 0.1+r.random(npix)
        if r.random() < 0.5:
            v = hp.ang2vec(np.arccos(2*r.random()-1), 2*np.pi*r.random())
            m[hp.query_disc(spec["nside"], v, np.pi*spec["frac"])] = 0
        m[r.random(npix) < spec["frac"]*0.3] = 0
        if not (m == 0).any():
            m[r.integers(npix)] = 0
        return m

    @staticmethod
    def run(spec, ctx):
        m = S.nmt.mask_apodization(ctx, spec["aposize"], apotype=spec["apotype"])
        return dict(mask=m, input=ctx)


class MaskFlat:
    name = "mask_flat"

    @staticmethod
    def gen(rng):
        mx = 24 if rng.random() < 0.94 else 80
        return dict(ds=rng.getrandbits(40), nx=rng.randint(4, mx), ny=rng.randint(4, mx),
                    lx=0.1*rng.randint(3, 20), ly=0.1*rng.randint(3, 20),
                    apotype=rng.choice(["C1", "C2", "Smooth"]),
                    aposize=round(rng.choice([rng.uniform(0.2, 3), rng.uniform(3, 30)]), 3),
                    frac=rng.choice([0.02, 0.1, 0.4]))

    @staticmethod
    def prep(spec):
        r = nrng(spec, "m")
        m = 0.1+r.random((spec["ny"], spec["nx"]))
        m[r.random(m.shape) < spec["frac"]] = 0
        if r.random() < 0.5:
            m[:2] = 0
        return m

    @staticmethod
    def run(spec, ctx):
        m = S.nmt.mask_apodization_flat(ctx, spec["lx"], spec["ly"], spec["aposize"], apotype=spec["apotype"])
        return dict(mask=m, input=ctx)


class SynFlat:
    name = "syn_flat"

    @staticmethod
    def gen(rng):
        sp = rng.choice([[0], [2], [0, 2], [0, 0], [1], [2, 2], [2, 0]])
        return dict(ds=rng.getrandbits(40), nx=rng.randint(4, 22), ny=rng.randint(4, 22),
                    lx=0.1*rng.randint(3, 20), ly=0.1*rng.randint(3, 20), sp=sp,
                    seed=rng.randint(0, 10**6), beam=rng.random() < 0.5,
                    nl=rng.randint(5, 200))

    @staticmethod
    def args(spec):
        nm = sum(2 if s else 1 for s in spec["sp"])
        ls = np.arange(spec["nl"])
        cls = []
        for i in range(nm):
            for j in range(i, nm):
                cls.append((1.0 if i == j else 0.2)/(ls+10.))
        beam = None
        if spec["beam"]:
            beam = np.array([np.exp(-0.1*ls/spec["nl"])]*len(spec["sp"]))
        return np.array(cls), beam

    @staticmethod
    def prep(spec):
        return SynFlat.args(spec)

    @staticmethod
    def run(spec, ctx):
        cls, beam = ctx
        return dict(maps=S.nmt.synfast_flat(spec["nx"], spec["ny"], spec["lx"], spec["ly"], cls,
                                            spec["sp"], beam=beam, seed=spec["seed"]))


BY_NAME = {c.name: c for c in (CurvedMCM, CurvedCovar, FlatPipeline, FlatCovar,
                               MaskCurved, MaskFlat, SynFlat)}
