"""Requests nobody can carry out. Each must raise an exception; what it leaves
behind must answer as before (or, for an object the failed call was replacing,
raise)."""
import copy
import gc
import pickle

import numpy as np

import simlib as S
import workloads as W
from harness import Rnd, sub

BAD = {}


class Skip(Exception):
    """Not possible with the objects of this world."""


def bad(f):
    BAD[f.__name__] = f
    return f


def curved(w):
    if not w.spec["F"]:
        raise Skip()


def flat(w):
    if not w.spec["FF"]:
        raise Skip()


def pick(r, l):
    l = list(l)
    if not l:
        raise Skip()
    return r.choice(l)


def maps_of(w, *kinds, **want):
    return [n for n, d in w.spec["F"].items() if d["kind"] in (kinds or ("map",))
            and all(d[k] == v for k, v in want.items())]


def any_field(w, r):
    curved(w)
    return w.o(pick(r, w.spec["F"]))


def any_wsp(w, r):
    return w.o(pick(r, w.spec["W"]))


def any_flat(w, r):
    return w.o(pick(r, w.spec["FF"]))


def mask(w):
    curved(w)
    return w.arr("mask", 0, 1)


def npix(w):
    return 12*w.spec["nside"]**2


def size(r, n):
    """A wrong number of elements."""
    return max(0, r.choice([0, 1, n-1, n+1, 2*n, n//2, n+17])) if n > 2 else n+r.choice([1, 2, 20])


def wrong(r, n):
    while True:
        s = size(r, n)
        if s != n:
            return s


def misshape(r, n, l, exact=False):
    """An array that is not n by l (or, unless exact, by more than l)."""
    while True:
        m = wrong(r, l) if exact else l-r.randint(1, l)
        sh = r.choice([(wrong(r, n), l), (wrong(r, n), l), (n, m), (n, m), (l, n),
                       r.choice([(1, n, l), (n, l, 1), (n*l, 1), (n+1, l)]),
                       # these would broadcast
                       (l,), r.choice([(l,), (1, l), (n, 1), (1, 1), (1, n, l), ()])])
        if len(sh) != 2 or sh[0] != n or sh[1] < l or exact and sh[1] > l:
            return np.ones(sh)


# ------------------------------------------------------------------ binnings
@bad
def bins_lengths(w, r):
    n = r.randint(3, 30)
    a = [np.arange(n) // 3, np.arange(n)+2, np.ones(n), np.ones(n)]
    i = r.randrange(4)
    a[i] = np.ones(wrong(r, n), dtype=a[i].dtype)
    if i == 1 and len(a[1]) == 0:
        raise Skip()
    return S.nmt.NmtBin(bpws=a[0], ells=a[1], weights=a[2], f_ell=a[3], lmax=n+2)


@bad
def bins_weights(w, r):
    n = r.randint(3, 30)
    wt = np.ones(n)
    b = np.arange(n) // 3
    k = r.randrange(b.max()+1)
    wt[b == k] = 0
    return S.nmt.NmtBin(bpws=b, ells=np.arange(n)+2, weights=wt, lmax=n+1)


@bad
def bins_negative(w, r):
    n = r.randint(3, 30)
    e = np.arange(n)+2
    e[r.randrange(n)] = -r.choice([1, 2, 1000, 2**31-1])
    return S.nmt.NmtBin(bpws=np.arange(n) // 3, ells=e, lmax=n+1)


@bad
def bin_index(w, r):
    curved(w)
    b = w.o(pick(r, w.spec["B"]))
    n = b.get_n_bands()
    k = r.choice([n, n+1, -1, -2, 10**6, -10**6, 2**31-1, -2**31])
    return getattr(b, r.choice(["get_ell_list", "get_weight_list", "get_ell_min", "get_ell_max"]))(k)


@bad
def bin_cell_size(w, r):
    curved(w)
    b = w.o(pick(r, w.spec["B"]))
    n = wrong(r, w.spec["lmax"]+1)
    return b.bin_cell(np.ones(n) if r.random() < 0.3 else np.ones([r.randint(1, 4), n]))


@bad
def unbin_cell_size(w, r):
    curved(w)
    b = w.o(pick(r, w.spec["B"]))
    n = wrong(r, b.get_n_bands())
    return b.unbin_cell(np.ones(n) if r.random() < 0.3 else np.ones([r.randint(1, 4), n]))


@bad
def flat_bins_lengths(w, r):
    n = r.randint(1, 9)
    return S.nmt.NmtBinFlat(np.arange(n)*10., np.arange(wrong(r, n))*10.+10)


@bad
def flat_bin_size(w, r):
    flat(w)
    b = w.o(pick(r, w.spec["FB"]))
    return b.bin_cell(w.arr("fl"), np.ones([r.randint(1, 3), wrong(r, 40)]))


@bad
def flat_unbin_size(w, r):
    flat(w)
    b = w.o(pick(r, w.spec["FB"]))
    return b.unbin_cell(np.ones([r.randint(1, 3), wrong(r, b.get_n_bands())]), w.arr("fl"))


# -------------------------------------------------------------- curved fields
@bad
def field_npix(w, r):
    m = mask(w)
    n = wrong(r, len(m))
    if n == 4*len(m) or 2*n == len(m):
        pass
    if r.random() < 0.5:
        return S.nmt.NmtField(np.ones(r.choice([1, 11, 13, 100, 12*9, 0])), [m], lmax=4)
    return S.nmt.NmtField(m, [np.ones(n)], lmax=w.spec["lmax"], lmax_mask=w.spec["lmax"])


@bad
def field_nmaps(w, r):
    m = mask(w)
    n, s = r.choice([(3, None), (4, 2), (2, 0), (1, 2), (1, 1), (0, None), (3, 0)])
    return S.nmt.NmtField(m, np.ones([n, len(m)]), spin=s, lmax=w.spec["lmax"])


@bad
def field_nospin(w, r):
    return S.nmt.NmtField(mask(w), None, lmax=w.spec["lmax"])


@bad
def field_beam(w, r):
    m = mask(w)
    l = w.spec["lmax"]
    b = r.choice([np.ones(l), np.ones(1), np.ones(0), "beam", 3., np.ones(l//2)])
    return S.nmt.NmtField(m, [m], beam=b, lmax=l)


@bad
def field_template(w, r):
    m = mask(w)
    n = len(m)
    t = r.choice([np.ones([1, 2, n]), np.ones([2, 1, wrong(r, n)]), "temp", 4., np.ones([1, 3, n])])
    return S.nmt.NmtField(m, [m], templates=t, lmax=w.spec["lmax"])


@bad
def field_purify(w, r):
    m = mask(w)
    s = r.choice([0, 1, 3])
    return S.nmt.NmtField(m, [m]*(2 if s else 1), spin=s, lmax=w.spec["lmax"],
                          **{r.choice(["purify_e", "purify_b"]): True})


@bad
def field_lmax(w, r):
    m = mask(w)
    return S.nmt.NmtField(m, [m], **{r.choice(["lmax", "lmax_mask"]): r.choice([0, -1, -7])})


@bad
def field_aniso(w, r):
    m = mask(w)
    m = np.ones_like(m)
    k = r.randrange(5)
    kw = dict(lmax=w.spec["lmax"], spin=2)
    if k == 0:
        kw[r.choice(["mask_22", "mask_12"])] = m*0.1
    else:
        kw.update(mask_22=m*0.5, mask_12=m*(0.1 if k > 1 else 3.))
    if k == 2:
        kw["spin"] = 0
    if k == 3:
        kw["purify_b"] = True
    if k == 4:
        kw["templates"] = np.ones([1, 2, len(m)])
    return S.nmt.NmtField(m, None if r.random() < 0.4 and k < 3 else [m]*(1 if kw["spin"] == 0 else 2), **kw)


@bad
def field_getter(w, r):
    n = pick(r, maps_of(w, "map", "monly", "cat", "clus"))
    d = w.spec["F"][n]
    o = w.o(n)
    c = []
    if d["kind"] in ("cat", "clus"):
        c += [o.get_mask, o.get_maps, o.get_templates]
    if d["kind"] == "monly" or d.get("posonly"):
        c += [o.get_alms, o.get_maps, o.get_templates]
    if d["lite"]:
        c += [o.get_maps, o.get_templates]
    if not d["nt"]:
        c += [o.get_templates]
    if not d["ani"]:
        c += [o.get_anisotropic_mask, o.get_anisotropic_mask_alms]
    return pick(r, c)()


@bad
def catalog(w, r):
    curved(w)
    if w.spec["sht"] != "ducc":
        raise Skip()
    n = r.randint(3, 20)
    q = np.random.default_rng(r.getrandbits(30))
    pos = np.array([np.arccos(2*q.random(n)-1), 2*np.pi*q.random(n)])
    wt = np.ones(n)
    k = r.randrange(9)
    kw = dict(lonlat=False)
    fld = np.ones([1, n])
    if k == 0:
        wt = np.ones(wrong(r, n))
    if k == 1:
        pos = np.ones([3, n])
    if k in (2, 3):
        pos[k-2, r.randrange(n)] = r.choice([-0.5, 7., np.nan, np.inf])
    if k == 4:
        fld = np.ones([r.choice([1, 2, 3]), n+1])
    if k == 5:
        fld, kw["spin"] = np.ones([1, n]), 2
    if k == 6:
        kw["beam"] = r.choice([np.ones(3), "b", 2.])
    if k == 7:
        fld = None
    if k == 8:
        pos = np.array([180/np.pi*pos[1], 90-180/np.pi*pos[0]])
        pos[r.randrange(2), r.randrange(n)] = r.choice([-91., 361., np.nan])
        kw["lonlat"] = True
    if k in (0, 1, 2, 3, 8) and r.random() < 0.5:
        g = np.array([np.ones(5), np.ones(5)])
        a = (pos, wt, g, np.ones(5)) if r.random() < 0.5 else (g, np.ones(5), pos, wt)
        return S.nmt.NmtFieldCatalogClustering(*a, 4, lonlat=kw["lonlat"])
    return S.nmt.NmtFieldCatalog(pos, wt, fld, 4, **kw)


@bad
def car(w, r):
    """Rectangular pixels that do not fit on the sphere."""
    curved(w)
    from astropy.wcs import WCS
    nx, ny = 16, 9
    h = WCS(naxis=2)
    d = 360./nx
    k = r.randrange(7)
    h.wcs.ctype = ["RA---TAN", "DEC--TAN"] if k == 0 else ["RA---CAR", "DEC--CAR"]
    h.wcs.cdelt = [d*(1.13 if k == 1 else 1.), d*(1.13 if k == 2 else 1.)]
    h.wcs.crval = [0., 20. if k == 3 else 0.]
    h.wcs.crpix = [nx//2+1, (ny-1)//2+1+(3 if k == 4 else 0)]
    m = np.ones([ny, nx+(nx if k == 5 else 0)])
    if k == 6:
        m = m.flatten()
    mp = m[None]
    return S.nmt.NmtField(m, mp, wcs=h, lmax=4, lmax_mask=4)


@bad
def car_healpy(w, r):
    """Rectangular pixels and the back end that knows none."""
    f = pick(r, maps_of(w, "car"))
    d = w.spec["F"][f]
    m = w.arr("cmask", d["mask"], d["part"])
    was = S.nmt.get_default_params()["sht_calculator"]
    k = r.randrange(3)
    S.nmt.set_sht_calculator("healpy")
    try:
        if k == 0:
            return S.nmt.NmtField(m, m[None], wcs=w.wcs(d), lmax=4, lmax_mask=4)
        if k == 1:
            return S.nmt.NmtField(m, None, spin=2, wcs=w.wcs(d), lmax=4, lmax_mask=4).get_mask_alms()
        return S.nmt.synfast_spherical(1, np.ones([1, 5]), [0], seed=1, wcs=w.wcs(d))
    finally:
        S.nmt.set_sht_calculator(was)


@bad
def car_part(w, r):
    """A map of the whole sphere, on pixels that do not cover it."""
    curved(w)
    from astropy.wcs import WCS
    nx, ny = 16, 9
    h = WCS(naxis=2)
    h.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    h.wcs.cdelt = [360./nx, 22.5]
    h.wcs.crval = [0., 0.]
    k = r.randrange(2)
    h.wcs.crpix = [nx//2+1, (ny-1)//2+1+(r.choice([-1, -2, 1, 0.5]) if k else r.choice([0.3, 3, 100]))]
    return S.nmt.synfast_spherical(1, np.ones([1, 5]), [0], seed=1, wcs=h)


@bad
def car_npix(w, r):
    f = pick(r, maps_of(w, "car"))
    d = w.spec["F"][f]
    m = w.arr("cmask", d["mask"], d["part"])
    ny, nx = m.shape
    k = r.randrange(4)
    if k == 0:
        sh = (ny+r.choice([-1, 1]), nx)
    elif k == 1:
        sh = (nx, ny)          # the other way around
    elif k == 2:
        sh = (ny*nx//2, 2) if ny*nx % 2 == 0 else (ny*nx, 1)
    else:
        sh = (1, ny*nx)
    if sh == (ny, nx):
        raise Skip()
    x, y = np.ones((1,)+sh), np.ones((1, ny, nx))
    if r.random() < 0.4:
        return S.nmt.NmtField(m, y, templates=x[None], wcs=w.wcs(d), lmax=4, lmax_mask=4)
    return S.nmt.NmtField(m, x, wcs=w.wcs(d), lmax=4, lmax_mask=4)


# -------------------------------------------------------------- curved spectra
def other_field(w, r, pixels=True):
    """One that lives on other pixels or multipoles."""
    k = r.randrange(3) if pixels else r.randint(1, 2)
    ns, l, lm = w.spec["nside"], w.spec["lmax"], w.spec["lmax_mask"]
    if k == 0:
        n2 = 2 if ns == 4 else 4
        m = np.ones(12*n2**2)
        return S.nmt.NmtField(m, [m], lmax=l, lmax_mask=lm)
    m = np.ones(12*ns**2)
    return S.nmt.NmtField(m, [m], lmax=l-1 if k == 1 else l, lmax_mask=lm if k == 1 else lm-1, n_iter=0)


def two(w, r, pixels=True):
    f = w.o(pick(r, maps_of(w)))
    o = other_field(w, r, pixels)
    return (f, o) if r.random() < 0.5 else (o, f)


@bad
def incompatible_pcl(w, r):
    curved(w)
    f = w.o(pick(r, maps_of(w)))
    k = r.randrange(2)
    m = np.ones(npix(w))
    o = S.nmt.NmtField(m, [m], lmax=w.spec["lmax"]-(k == 0), lmax_mask=w.spec["lmax_mask"]-(k == 1))
    return S.nmt.compute_coupled_cell(*((f, o) if r.random() < 0.5 else (o, f)))


@bad
def incompatible_wsp(w, r):
    a, b = two(w, r, False)
    return S.nmt.NmtWorkspace.from_fields(a, b, w.o(pick(r, w.spec["B"])))


@bad
def incompatible_dep(w, r):
    a, b = two(w, r)
    n = a.nmaps*b.nmaps
    return S.nmt.deprojection_bias(a, b, np.ones([n, w.spec["lmax"]+1]))


@bad
def incompatible_full(w, r):
    a, b = two(w, r)
    return S.nmt.compute_full_master(a, b, w.o(pick(r, w.spec["B"])))


@bad
def incompatible_cov(w, r):
    a, b = two(w, r)
    l = [a, a, b, b]
    r.shuffle(l)
    if w.o and any(f.anisotropic_mask for f in l):
        raise Skip()
    return S.nmt.NmtCovarianceWorkspace.from_fields(*l)


@bad
def aniso_cov(w, r):
    f = w.o(pick(r, maps_of(w, "map", ani=True)))
    l = [f, f, f, f]
    return S.nmt.NmtCovarianceWorkspace.from_fields(*l)


@bad
def mapless_pcl(w, r):
    curved(w)
    f = w.o(pick(r, maps_of(w, "monly")))
    return S.nmt.compute_coupled_cell(f, w.o(pick(r, maps_of(w))))


def wsp_pair(w, r, teb=None):
    n = [k for k, d in w.spec["W"].items() if teb is None or bool(d["kw"].get("is_teb")) == teb]
    n = pick(r, n)
    d = w.spec["W"][n]
    return n, d, w.o(d["f1"]), w.o(d["f2"]), w.o(d["b"])


@bad
def wsp_bins_lmax(w, r):
    n, d, a, b, q = wsp_pair(w, r)
    l = w.spec["lmax"]+r.choice([-1, 1, 5, 30])
    return S.nmt.NmtWorkspace.from_fields(a, b, S.nmt.NmtBin.from_lmax_linear(l, 1))


@bad
def wsp_teb(w, r):
    curved(w)
    F = {n: d for n, d in w.spec["F"].items() if not d["ani"] and d["kind"] in ("map", "monly")}
    a = pick(r, F)
    b = pick(r, F)
    if F[a]["spin"] == 0 and F[b]["spin"]:
        raise Skip()
    return S.nmt.NmtWorkspace.from_fields(w.o(a), w.o(b), w.o(pick(r, w.spec["B"])), is_teb=True)


def bad_toep(r, l):
    return r.choice([dict(l_toeplitz=l//2, l_exact=l//2+1, dl_band=1), dict(l_toeplitz=l, l_exact=1, dl_band=1),
                     dict(l_toeplitz=l+10, l_exact=1, dl_band=1), dict(l_toeplitz=2, l_exact=0, dl_band=1),
                     dict(l_toeplitz=2, l_exact=-1, dl_band=1), dict(l_toeplitz=2, l_exact=1, dl_band=-1),
                     dict(l_toeplitz=2, l_exact=1, dl_band=l), dict(l_toeplitz=2, l_exact=1, dl_band=10*l)])


@bad
def wsp_toeplitz(w, r):
    curved(w)
    fs = [n for n, d in w.spec["F"].items() if not (d["ani"] or d["pe"] or d["pb"]) and d["kind"] == "map"]
    f = w.o(pick(r, fs))
    b = w.o(pick(r, w.spec["B"]))
    return S.nmt.NmtWorkspace.from_fields(f, f, b, **bad_toep(r, b.bin.ell_max))


@bad
def cov_toeplitz(w, r):
    curved(w)
    fs = [n for n, d in w.spec["F"].items() if not (d["ani"] or d["pe"] or d["pb"]) and d["kind"] == "map"]
    f = w.o(pick(r, fs))
    return S.nmt.NmtCovarianceWorkspace.from_fields(f, f, **bad_toep(r, w.spec["lmax"]))


@bad
def wsp_toeplitz_pure(w, r):
    curved(w)
    fs = [n for n, d in w.spec["F"].items() if d["pe"] or d["pb"] or d["ani"]]
    f, g = w.o(pick(r, fs)), w.o(pick(r, maps_of(w)))
    if not f.is_compatible(g, strict=False):
        raise Skip()
    a = (f, g) if r.random() < 0.5 else (g, f)
    return S.nmt.NmtWorkspace.from_fields(*a, w.o(pick(r, w.spec["B"])), l_toeplitz=3, l_exact=2, dl_band=2)


@bad
def wsp_norm(w, r):
    n, d, a, b, q = wsp_pair(w, r)
    return S.nmt.NmtWorkspace.from_fields(a, b, q, normalization=r.choice(["fkp", "", "MASTERS", None]))


@bad
def wsp_fkp_catalog(w, r):
    curved(w)
    c = pick(r, maps_of(w, "cat", "clus"))
    o = pick(r, [n for n in maps_of(w, "map", "cat", "clus") if n != c])
    return S.nmt.NmtWorkspace.from_fields(w.o(c), w.o(o), w.o(pick(r, w.spec["B"])), normalization="FKP")


@bad
def wsp_couple(w, r):
    o = any_wsp(w, r)
    n, l = o.wsp.ncls, w.spec["lmax"]+1
    return r.choice([o.couple_cell, o.decouple_cell])(misshape(r, n, l))


@bad
def wsp_decouple_bias(w, r):
    o = any_wsp(w, r)
    n, l = o.wsp.ncls, w.spec["lmax"]+1
    b = misshape(r, n, l)
    return o.decouple_cell(np.ones([n, l]), **{r.choice(["cl_bias", "cl_noise"]): b})


@bad
def wsp_update_beams(w, r):
    o = any_wsp(w, r)
    l = o.wsp.lmax_fields+1
    b = r.choice([np.ones(l-1), np.ones(1), 1., None, "b"])
    g = np.ones(l)
    return o.update_beams(*((b, g) if r.random() < 0.5 else (g, b)))


@bad
def wsp_update_bins(w, r):
    o = any_wsp(w, r)
    if r.random() < 0.15:
        b = S.nmt.NmtBin.from_lmax_linear(w.spec["lmax"], 1)
        b.bin = None
        return o.update_bins(b)
    b = S.nmt.NmtBin.from_lmax_linear(w.spec["lmax"]+r.choice([1, 2, 10, 100, -1]), r.choice([1, 2]))
    return o.update_bins(b)


@bad
def wsp_update_mcm(w, r):
    o = any_wsp(w, r)
    n = o.wsp.ncls*(w.spec["lmax"]+1)
    m = wrong(r, n)
    return o.update_coupling_matrix(np.ones([m, m] if r.random() < 0.5 else [n, m]))


@bad
def wsp_empty(w, r):
    o = S.nmt.NmtWorkspace()
    l = 5
    c = np.ones([1, l])
    return r.choice([
        lambda: o.write_to(w.path("empty.fits")), lambda: o.get_coupling_matrix(),
        lambda: o.update_coupling_matrix(np.ones([l, l])), lambda: o.couple_cell(c), lambda: o.decouple_cell(c),
        lambda: o.get_bandpower_windows(), lambda: o.update_beams(c[0], c[0]),
        lambda: o.update_bins(S.nmt.NmtBin.from_lmax_linear(4, 1))])()


@bad
def wsp_no_unbinned(w, r):
    """What needs the full matrix, without it."""
    o = any_wsp(w, r)
    f = w.path("nounb.fits")
    o.write_to(f)
    x = S.nmt.NmtWorkspace.from_file(f, read_unbinned_MCM=False)
    l = w.spec["lmax"]+1
    n = x.wsp.ncls
    return r.choice([
        lambda: x.write_to(w.path("again.fits")), lambda: x.get_coupling_matrix(),
        lambda: x.update_coupling_matrix(np.ones([n*l, n*l])), lambda: x.couple_cell(np.ones([n, l])),
        lambda: x.get_bandpower_windows(), lambda: x.update_beams(np.ones(l), np.ones(l)),
        lambda: x.update_bins(S.nmt.NmtBin.from_lmax_linear(l-1, 1))])()


@bad
def dep_size(w, r):
    curved(w)
    t = [n for n, d in w.spec["F"].items() if d["kind"] in ("map", "car") and not d["lite"]]
    f = w.o(pick(r, t))
    n = f.nmaps**2
    return S.nmt.deprojection_bias(f, f, misshape(r, n, w.spec["lmax"]+1))


@bad
def dep_lite(w, r):
    curved(w)
    f = w.o(pick(r, maps_of(w, "map", lite=True)))
    if r.random() < 0.5:
        return S.nmt.uncorr_noise_deprojection_bias(f, np.ones(npix(w)))
    return S.nmt.deprojection_bias(f, f, np.ones([f.nmaps**2, w.spec["lmax"]+1]))


@bad
def noise_size(w, r):
    f = w.o(pick(r, [n for n in maps_of(w, "map", lite=False)]))
    return S.nmt.uncorr_noise_deprojection_bias(f, np.ones(wrong(r, npix(w))))


@bad
def full_wrong(w, r):
    n, d, a, b, q = wsp_pair(w, r, False)
    if d["kw"].get("is_teb") or a.alm is None or b.alm is None:
        raise Skip()
    k = a.nmaps*b.nmaps
    l = w.spec["lmax"]+1
    x = misshape(r, k, l)
    v = r.randrange(3)
    if v == 0:
        return S.nmt.compute_full_master(a, b)
    return S.nmt.compute_full_master(a, b, q, **{"cl_noise" if v == 1 else "cl_guess": x})


@bad
def full_workspace(w, r):
    """A workspace of other spins."""
    n, d, a, b, q = wsp_pair(w, r)
    f = w.o(pick(r, [m for m, e in w.spec["F"].items() if e["kind"] == "map"]))
    o = w.o(n)
    if o.wsp.ncls == f.nmaps**2:
        raise Skip()
    return S.nmt.compute_full_master(f, f, workspace=o)


# ---------------------------------------------------------------- covariances
def cov_pair(w, r):
    curved(w)
    c = pick(r, w.spec["C"])
    return c, w.o(c), pick(r, w.spec["W"]), pick(r, w.spec["W"])


def mixed_up(r, cl):
    """The right spectra, in the wrong order."""
    o = list(cl)
    r.shuffle(o)
    if [len(a) for a in o] == [len(a) for a in cl]:
        raise Skip()
    return o


def one_bad(r, cl, exact):
    """Spectra of which one or several have the wrong shape."""
    cl = list(cl)
    for i in r.sample(range(4), r.choice([1, 1, 1, 2, 4])):
        cl[i] = misshape(r, *cl[i].shape, exact)
    return cl


@bad
def cov_spins(w, r):
    c, o, wa, wb = cov_pair(w, r)
    sp, cl = w.cov_args(wa, wb)
    a, b = w.o(wa), w.o(wb)
    i = r.randrange(4)
    sp = list(sp)
    sp[i] = 0 if sp[i] else 2
    return S.nmt.gaussian_covariance(o, *sp, *cl, a, b, coupled=r.random() < 0.5)


@bad
def cov_cls(w, r):
    c, o, wa, wb = cov_pair(w, r)
    sp, cl = w.cov_args(wa, wb)
    cl = mixed_up(r, cl) if r.random() < 0.4 else one_bad(r, cl, False)
    return S.nmt.gaussian_covariance(o, *sp, *cl, w.o(wa), w.o(wb), coupled=r.random() < 0.5)


@bad
def cov_empty(w, r):
    c = S.nmt.NmtCovarianceWorkspace() if r.random() < 0.5 else S.nmt.NmtCovarianceWorkspaceFlat()
    return c.write_to(w.path("emptyc.fits"))


@bad
def cov_spin0(w, r):
    """Coupling coefficients for spin 0 asked for other spins."""
    curved(w)
    f = w.o(pick(r, [n for n, d in w.spec["F"].items() if d["kind"] == "map" and not d["ani"]]))
    ws = [n for n, d in w.spec["W"].items() if w.spec["F"][d["f1"]]["spin"] and w.spec["F"][d["f2"]]["spin"]]
    wa = pick(r, ws)
    c = S.nmt.NmtCovarianceWorkspace.from_fields(f, f, spin0_only=True)
    sp, cl = w.cov_args(wa, wa)
    return S.nmt.gaussian_covariance(c, *sp, *cl, w.o(wa), w.o(wa), coupled=r.random() < 0.5)


@bad
def cov_lmax(w, r):
    """Coupling coefficients up to smaller multipoles."""
    curved(w)
    ws = [n for n, d in w.spec["W"].items()]
    wa = pick(r, ws)
    m = mask(w)
    l = w.spec["lmax"]-1
    f = S.nmt.NmtField(m, None, spin=0, lmax=l, lmax_mask=l)
    c = S.nmt.NmtCovarianceWorkspace.from_fields(f, f)
    sp, cl = w.cov_args(wa, wa)
    return S.nmt.gaussian_covariance(c, *sp, *cl, w.o(wa), w.o(wa), coupled=r.random() < 0.5)


# ------------------------------------------------------------------ flat fields
@bad
def flat_field(w, r):
    flat(w)
    s = w.spec
    nx, ny = s["nx"], s["ny"]
    m = np.ones([ny, nx])
    a = dict(lx=s["lx"], ly=s["ly"], mask=m, maps=[m])
    k = r.randrange(12)
    if k == 0:
        a[r.choice(["lx", "ly"])] = r.choice([-1., 0., -1e-9])
    if k == 1:
        a["maps"] = None
    if k == 2:
        a["maps"] = [m]*r.choice([0, 3, 4])
    if k == 3:
        n, p = r.choice([(2, 0), (1, 2), (1, 1)])
        a.update(maps=[m]*n, spin=p)
    if k == 4:
        a.update(r.choice([dict(maps=[m, m], spin=1), dict(maps=[m])]), purify_b=True)
    if k == 5:
        a["maps"] = [np.ones([ny+r.choice([-1, 1]), nx])]
    if k == 6:
        a["maps"] = [np.ones([nx, ny])]
        if nx == ny:
            raise Skip()
    if k == 7:
        a["templates"] = [[m, m]]
    if k == 8:
        a["templates"] = [[np.ones([ny, nx+r.choice([-1, 1])])]]
    if k == 9:
        a["templates"] = r.choice(["t", 3.])
    if k == 10:
        a["beam"] = r.choice(["t", 3., np.ones([3, 5]), np.ones([1, 5])])
    if k == 11:
        a["mask"] = np.ones(nx*ny)
    return S.nmt.NmtFieldFlat(a.pop("lx"), a.pop("ly"), a.pop("mask"), a.pop("maps"), **a)


@bad
def flat_getter(w, r):
    flat(w)
    n = pick(r, [k for k, d in w.spec["FF"].items() if d["lite"] or not d["maps"]])
    o = w.o(n)
    return r.choice([o.get_maps, o.get_templates])()


@bad
def flat_index(w, r):
    o = any_flat(w, r)
    k = r.choice([-1, -2, 2, 3, 100, 2**31-1])
    n = w.spec["nx"]*w.spec["ny"]
    L = S.nmt.nmtlib
    if r.random() < 0.5:
        return L.get_map_flat(o.fl, k, n)
    return L.get_temp_flat(o.fl, r.choice([-1, o.fl.ntemp, o.fl.ntemp+1]), 0, n)


def flat_other(w, r):
    s = w.spec
    k = r.randrange(4)
    if k > 1:  # the same pixels, on a patch of another size
        m = np.ones([s["ny"], s["nx"]])
        return S.nmt.NmtFieldFlat(s["lx"]*(1.5 if k == 2 else 1), s["ly"]*(1.5 if k == 3 else 1), m, [m])
    m = np.ones([s["ny"]+1, s["nx"]]) if k else np.ones([s["ny"], s["nx"]+1])
    return S.nmt.NmtFieldFlat(s["lx"], s["ly"], m, [m])


@bad
def flat_incompatible(w, r):
    flat(w)
    F = {n: d for n, d in w.spec["FF"].items() if d["maps"]}
    f, o = w.o(pick(r, F)), flat_other(w, r)
    b = w.o(pick(r, w.spec["FB"]))
    x = (f, o) if r.random() < 0.5 else (o, f)
    k = r.randrange(5)
    n = f.fl.nmaps
    if k == 0:
        return S.nmt.compute_coupled_cell_flat(*x, b)
    if k == 1:
        v = S.nmt.NmtWorkspaceFlat()
        v.compute_coupling_matrix(*x, b)
        return v
    if k == 2:
        return S.nmt.deprojection_bias_flat(*x, b, w.arr("fl"), np.ones([n, 40]))
    if k == 3:
        return S.nmt.compute_full_master_flat(*x, b)
    c = S.nmt.NmtCovarianceWorkspaceFlat()
    l = [f, f, f, f]
    l[r.randrange(4)] = o
    c.compute_coupling_coefficients(l[0], l[1], b, l[2], l[3])
    return c


@bad
def flat_mapless(w, r):
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if not d["maps"]]
    f = w.o(pick(r, F))
    b = w.o(pick(r, w.spec["FB"]))
    g = any_flat(w, r)
    x = (f, g) if r.random() < 0.5 else (g, f)
    if r.random() < 0.5:
        return S.nmt.compute_coupled_cell_flat(*x, b)
    return S.nmt.compute_full_master_flat(*x, b)


@bad
def flat_teb(w, r):
    flat(w)
    F = w.spec["FF"]
    a, b = pick(r, F), pick(r, F)
    if F[a]["spin"] == 0 and F[b]["spin"]:
        raise Skip()
    v = S.nmt.NmtWorkspaceFlat()
    v.compute_coupling_matrix(w.o(a), w.o(b), w.o(pick(r, w.spec["FB"])), is_teb=True)
    return v


@bad
def flat_couple(w, r):
    flat(w)
    o = w.o(pick(r, w.spec["FW"]))
    n, nb = o.wsp.ncls, o.wsp.bin.n_bands
    k = r.randrange(4)
    if k == 0:
        return o.couple_cell(w.arr("fl"), misshape(r, n, 40, True))
    x = misshape(r, n, nb, True)
    if k == 1:
        return o.decouple_cell(x)
    return o.decouple_cell(np.ones([n, nb]), **{"cl_bias" if k == 2 else "cl_noise": x})


@bad
def flat_wsp_empty(w, r):
    o = S.nmt.NmtWorkspaceFlat()
    c = np.ones([1, 5])
    return r.choice([lambda: o.write_to(w.path("emptyv.fits")), lambda: o.couple_cell(np.arange(5.), c),
                     lambda: o.decouple_cell(c)])()


@bad
def flat_dep(w, r):
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if d["maps"] and not d["lite"]]
    f = w.o(pick(r, F))
    n = f.fl.nmaps**2
    return S.nmt.deprojection_bias_flat(f, f, w.o(pick(r, w.spec["FB"])), w.arr("fl"),
                                        misshape(r, n, 40, True))


@bad
def flat_dep_lite(w, r):
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if d["lite"] or not d["maps"]]
    f = w.o(pick(r, F))
    n = f.fl.nmaps**2
    return S.nmt.deprojection_bias_flat(f, f, w.o(pick(r, w.spec["FB"])), w.arr("fl"), np.ones([n, 40]))


@bad
def flat_full(w, r):
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if d["maps"]]
    f = w.o(pick(r, F))
    b = w.o(pick(r, w.spec["FB"]))
    n, nb = f.fl.nmaps**2, b.get_n_bands()
    k = r.randrange(4)
    if k == 0:
        return S.nmt.compute_full_master_flat(f, f, b, cl_noise=misshape(r, n, nb, True))
    if k == 1:
        return S.nmt.compute_full_master_flat(f, f, b, cl_guess=np.ones([n, 40]))
    if k == 2:
        return S.nmt.compute_full_master_flat(f, f, b, cl_guess=np.ones([wrong(r, n), 40]), ells_guess=w.arr("fl"))
    return S.nmt.compute_full_master_flat(f, f, b, cl_guess=misshape(r, n, 40, True), ells_guess=w.arr("fl"))


@bad
def flat_full_workspace(w, r):
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if d["maps"]]
    f = w.o(pick(r, F))
    v = pick(r, w.spec["FW"])
    o = w.o(v)
    d = w.spec["FW"][v]
    k = r.randrange(2)
    if k == 0:
        if o.wsp.ncls == f.fl.nmaps**2:
            raise Skip()
        return S.nmt.compute_full_master_flat(f, f, w.o(d["b"]), workspace=o)
    b = S.nmt.NmtBinFlat(np.arange(o.wsp.bin.n_bands+1)*3., np.arange(o.wsp.bin.n_bands+1)*3.+3)
    return S.nmt.compute_full_master_flat(w.o(d["f1"]), w.o(d["f2"]), b, workspace=o)


@bad
def flat_full_pixels(w, r):
    """A workspace of other pixels, or fields of other pixels than it."""
    flat(w)
    F = [n for n, d in w.spec["FF"].items() if d["maps"]]
    f = w.o(pick(r, F))
    b = w.o(pick(r, w.spec["FB"]))
    n = f.fl.nmaps
    s = w.spec
    m = np.ones([s["ny"]+r.randint(0, 1), s["nx"]])
    if m.shape[0] == s["ny"]:
        m = np.ones([s["ny"], s["nx"]+1])
    g = S.nmt.NmtFieldFlat(s["lx"], s["ly"], m, [m]*n, spin=2*(n-1))
    v = S.nmt.NmtWorkspaceFlat()
    x = (f, g) if r.random() < 0.5 else (g, f)
    v.compute_coupling_matrix(x[0], x[0], b)
    return S.nmt.compute_full_master_flat(x[1], x[1], b, workspace=v)


@bad
def flat_cov(w, r):
    flat(w)
    c = pick(r, w.spec["FC"])
    v = pick(r, w.spec["FW"])
    if w.spec["FW"][v]["b"] != w.spec["FC"][c]["b"]:
        # computed for other bandpowers
        sp, cl = w.cov_args(v, v, True)
        nb = {q: w.o(q).get_n_bands() for q in (w.spec["FW"][v]["b"], w.spec["FC"][c]["b"])}
        if len(set(nb.values())) == 1:
            raise Skip()
    else:
        sp, cl = w.cov_args(v, v, True)
        sp, cl = list(sp), list(cl)
        k = r.random()
        if k < 0.3:
            i = r.randrange(4)
            sp[i] = 0 if sp[i] else 2
        elif k < 0.6:
            cl = mixed_up(r, cl)
        else:
            cl = one_bad(r, cl, True)
    return S.nmt.gaussian_covariance_flat(w.o(c), *sp, w.arr("fl"), *cl, w.o(v), w.o(v))


# ------------------------------------------------------------------------ files
def longname(r):
    return "x"*r.choice([3, 100, 200, 240, 250, 256, 300, 1000, 1200, 3000, 20000])


@bad
def missing_file(w, r):
    k = r.randrange(4)
    f = w.path(longname(r)+".fits")
    f = r.choice([f, f, f, "/simdisk/no/such/"+f[9:], "!"+f, "", f+"[9]", f+"[NOSUCH]"])
    if k == 0:
        return S.nmt.NmtWorkspace.from_file(f)
    o = [S.nmt.NmtWorkspaceFlat, S.nmt.NmtCovarianceWorkspace, S.nmt.NmtCovarianceWorkspaceFlat][k-1]()
    return o.read_from(f)


@bad
def not_fits(w, r):
    k = r.randrange(4)
    f = w.path("junk.fits")
    n = r.choice([0, 1, 79, 80, 2879, 2880, 2881, 8640])
    q = Rnd(n, k)
    d = r.choice([b"\0"*n, b" "*n, bytes(q.randrange(256) for _ in range(n)),
                  (b"SIMPLE  =                    T"+b" "*50+b"BITPIX  =                    8"+b" "*50+b"END"+b" "*2880)[:n]])
    S.disk_put(f, d)
    if k == 0:
        return S.nmt.NmtWorkspace.from_file(f)
    o = [S.nmt.NmtWorkspaceFlat, S.nmt.NmtCovarianceWorkspace, S.nmt.NmtCovarianceWorkspaceFlat][k-1]()
    return o.read_from(f)


@bad
def unwritable(w, r):
    p = [n for t in ("W", "C", "FW", "FC") for n in w.spec[t]]
    o = w.o(pick(r, p))
    return o.write_to(r.choice(["/simdisk/nodir/"+longname(r), "/simdisk/nodir/x.fits", "", "/simdisk/", "/nonexistent-dir/y.fits"]))


# ------------------------------------------------------------------------- maps
@bad
def apo(w, r):
    m = mask(w)
    k = r.randrange(4)
    t = r.choice(["C1", "C2", "Smooth"])
    if k == 0:
        return S.nmt.mask_apodization(m, 5., apotype=r.choice(["C3", "", "c1", "x"*3000]))
    if k == 1:
        return S.nmt.mask_apodization(m, r.choice([-1., -100.]), apotype=t)
    if k == 2:
        return S.nmt.mask_apodization(np.zeros(r.choice([1, 11, 13, 100])), 5., apotype=t)
    m = np.array(m)
    m[r.randrange(len(m))] = 0
    return S.nmt.mask_apodization(m, r.choice([180.1, 200., 400., 1e6]), apotype=r.choice(["C1", "C2"]))


@bad
def apo_small(w, r):
    """Refused by the threads that do the work."""
    m = mask(w)
    m = np.array(m)
    m[r.randrange(len(m))] = 0
    return S.nmt.mask_apodization(m, r.choice([1e-3, 0.01, 0.1]), apotype=r.choice(["C1", "C2", "Smooth"]))


@bad
def apo_flat(w, r):
    flat(w)
    s = w.spec
    m = np.ones([s["ny"], s["nx"]])
    k = r.randrange(4)
    t = r.choice(["C1", "C2", "Smooth"])
    if k == 0:
        return S.nmt.mask_apodization_flat(m, s["lx"], s["ly"], 5., apotype=r.choice(["C3", "", "c1", "x"*3000]))
    if k == 1:
        return S.nmt.mask_apodization_flat(m, s["lx"], s["ly"], r.choice([-1., -100.]), apotype=t)
    if k == 2:
        return S.nmt.mask_apodization_flat(m.flatten(), s["lx"], s["ly"], 5., apotype=t)
    return S.nmt.mask_apodization_flat(m, *r.choice([(-1., 1.), (1., -1.), (0., 1.), (1., 0.)]), 5., apotype=t)


@bad
def syn(w, r):
    k = r.randrange(5)
    c = np.ones([3, 10])
    if k == 0:
        return S.nmt.synfast_spherical(2, c[:r.choice([1, 2])], [2], seed=1)
    if k == 1:
        return S.nmt.synfast_spherical(2, c, [-1], seed=1)
    if k == 2:
        return S.nmt.synfast_spherical(2, c, [0, 0], seed=1, beam=np.ones([r.choice([1, 3]), 10]))
    if k == 3:
        return S.nmt.synfast_spherical(2, c[:1], [0], seed=1, beam=np.ones([1, 3]))
    return S.nmt.synfast_spherical(r.choice([0, 3, 5]), c[:1], [0], seed=1)


@bad
def syn_flat(w, r):
    k = r.randrange(6)
    c = np.ones([3, 10])
    f = S.nmt.synfast_flat
    if k == 0:
        return f(6, 6, 1., 1., c[:r.choice([1, 2])], [2], seed=1)
    if k == 1:
        return f(6, 6, 1., 1., c, [-1], seed=1)
    if k == 2:
        return f(6, 6, 1., 1., c, [0, 0], seed=1, beam=np.ones([r.choice([1, 3]), 10]))
    if k == 3:
        return f(6, 6, 1., 1., c[:1], [0], seed=1, beam=np.ones([1, r.choice([3, 20])]))
    if k == 4:
        return f(6, 6, *r.choice([(-1., 1.), (1., -1.), (0., 1.), (1., 0.)]), c[:1], [0], seed=1)
    return f(*r.choice([(-6, 6), (6, -6), (-6, -6), (0, 6), (6, 0)]), 1., 1., c[:1], [0], seed=1)


@bad
def pinv_square(w, r):
    n = r.randint(1, 6)
    return S.nmt.moore_penrose_pinvh(np.ones([n, n+r.randint(1, 4)]), 1e-10)


@bad
def settings(w, r):
    k = r.randrange(4)
    if k == 0:
        return S.nmt.set_n_iter_default(r.choice([-1, -100]))
    if k == 1:
        return S.nmt.set_n_iter_default(r.choice([-1, -100]), mask=True)
    if k == 2:
        return S.nmt.set_tol_pinv_default(r.choice([-0.1, 1.1, 100.]))
    return S.nmt.set_sht_calculator(r.choice(["duc", "", "HEALPY", None]))


# -------------------------------------------------------------------- singular
@bad
def singular_zero(w, r):
    """Nothing observed: no coupling to invert."""
    curved(w)
    if r.random() < 0.5:
        m = np.zeros(npix(w))
        s = r.choice([0, 2])
        f = S.nmt.NmtField(m, None, spin=s, lmax=w.spec["lmax"], lmax_mask=w.spec["lmax_mask"])
        b = w.o(pick(r, w.spec["B"]))
        x = S.nmt.NmtWorkspace.from_fields(f, f, b)
        return x.decouple_cell(np.ones([f.nmaps**2, w.spec["lmax"]+1]))
    n = pick(r, [k for k, d in w.spec["W"].items() if d["kw"]["normalization"] == "MASTER"])
    d = w.spec["W"][n]
    x = S.nmt.NmtWorkspace.from_fields(w.o(d["f1"]), w.o(d["f2"]), w.o(d["b"]), **d["kw"])
    k = x.wsp.ncls*(w.spec["lmax"]+1)
    x.update_coupling_matrix(np.zeros([k, k]))
    return x.decouple_cell(np.ones([x.wsp.ncls, w.spec["lmax"]+1]))


@bad
def singular_flat(w, r):
    flat(w)
    s = w.spec
    m = np.ones([s["ny"], s["nx"]])
    f = S.nmt.NmtFieldFlat(s["lx"], s["ly"], m, None, spin=r.choice([0, 2]))
    lm = np.pi*np.hypot(s["nx"]/s["lx"], s["ny"]/s["ly"])
    # no mode in the last band
    b = S.nmt.NmtBinFlat(np.array([0., 3*lm]), np.array([1.1*lm, 4*lm]))
    v = S.nmt.NmtWorkspaceFlat()
    v.compute_coupling_matrix(f, f, b)
    return v.decouple_cell(np.ones([v.wsp.ncls, 2]))


@bad
def flat_empty_map(w, r):
    flat(w)
    sh = r.choice([(0, 5), (5, 0), (0, 0)])
    m = np.zeros(sh)
    k = r.randrange(4)
    if k == 0:
        return S.nmt.NmtFieldFlat(1., 1., m, [m])
    if k == 1:
        return S.nmt.NmtFieldFlat(1., 1., m, None, spin=r.choice([0, 1, 2]))
    if k == 2:
        return S.nmt.NmtFieldFlat(1., 1., m, [m, m], spin=2, templates=[[m, m]])
    return S.nmt.mask_apodization_flat(m, 1., 1., 0.1, apotype=r.choice(["C1", "C2", "Smooth"]))


@bad
def flat_odd_patch(w, r):
    """A patch whose size is no size."""
    flat(w)
    m = np.ones([6, 6])
    v = r.choice([np.inf, np.nan, -np.inf, 1e-300, 1e300, 0., -1e-3])
    lx, ly = r.choice([(1., v), (v, 1.)])
    k = r.randrange(4)
    if k == 0:
        return S.nmt.NmtFieldFlat(lx, ly, m, [m])
    if k == 1:
        return S.nmt.NmtFieldFlat(lx, ly, m, None, spin=2)
    if k == 2:
        return S.nmt.synfast_flat(6, 6, lx, ly, np.ones([1, 60]), [0], seed=3)
    return S.nmt.mask_apodization_flat(m, lx, ly, 0.1, apotype=r.choice(["C1", "C2", "Smooth"]))


@bad
def negative_spin(w, r):
    curved(w)
    m = mask(w)
    kw = dict(lmax=w.spec["lmax"], lmax_mask=w.spec["lmax_mask"])
    f = S.nmt.NmtField(m, None, spin=-r.choice([1, 2, 3, 10]), **kw)
    g = r.choice([f, S.nmt.NmtField(m, None, spin=r.choice([0, 2]), **kw)])
    b = w.o(pick(r, w.spec["B"]))
    if r.random() < 0.5:
        f, g = g, f
    return S.nmt.NmtWorkspace.from_fields(f, g, b)


@bad
def no_name(w, r):
    """No file is named."""
    c = r.choice([S.nmt.NmtWorkspace, S.nmt.NmtWorkspaceFlat, S.nmt.NmtCovarianceWorkspace,
                  S.nmt.NmtCovarianceWorkspaceFlat])
    if r.random() < 0.6:
        return c().read_from(r.choice([None, 3, b"x"]) if r.random() < 0.5 else None)
    n = pick(r, list(w.spec["W"])+list(w.spec["FW"]))
    return w.o(n).write_to(None)


@bad
def no_apotype(w, r):
    if r.random() < 0.5:
        curved(w)
        return S.nmt.mask_apodization(mask(w), 5., apotype=None)
    flat(w)
    return S.nmt.mask_apodization_flat(np.ones([6, 6]), 1., 1., 0.1, apotype=r.choice([None, 7]))


@bad
def copied(w, r):
    """Objects that own memory outside Python: a copy is refused, or another
    object that can be discarded without touching the first."""
    o = w.o(pick(r, [n for t in ("B", "W", "C", "FF", "FB", "FW", "FC") for n in w.spec[t]]))
    h = r.randrange(3)
    c = copy.copy(o) if h == 0 else copy.deepcopy(o) if h == 1 else pickle.loads(pickle.dumps(o))
    assert c is not o
    del c
    gc.collect()
    raise TypeError("a copy was made and discarded")


def call(w, name, k):
    """One of them; the particulars follow from k."""
    BAD[name](w, Rnd(w.spec["ds"], name, k))
    return dict(accepted=np.ones(1))
