"""Seeded realisations: the same maps whatever was computed or drawn before,
however many threads there are and whatever other callers draw meanwhile."""
import os
import random
import time

import numpy as np

import ops
import simlib as S
import thr
import workloads as W
from harness import Result, Rnd, ddmin, sub
from sched import REF, cmp_out, draw_cfg

SPIN = [[0], [2], [0, 2], [0, 0], [1], [2, 2], [2, 0], [0, 2, 1]]


def gen_call(rng, seeded=True):
    sp = rng.choice(SPIN)
    c = dict(kind=rng.choice(["flat", "curved", "flat", "curved", "car"]), sp=sp, beam=rng.random() < 0.4, nl=rng.randint(4, 60),
             tag=rng.randint(0, 3),
             seed=rng.choice([0, 1, rng.randint(0, 99), rng.randint(0, 10**6), 2**31-1, 65536]) if seeded else -1)
    if c["kind"] == "flat":
        c.update(nx=rng.randint(4, 16), ny=rng.randint(4, 16), lx=0.1*rng.randint(3, 20), ly=0.1*rng.randint(3, 20))
    elif c["kind"] == "car":
        c.update(nx=rng.choice([8, 12, 20]), flip=[rng.randint(0, 1), rng.randint(0, 1)], ra=rng.choice([0, 0, 40]))
    else:
        c.update(nside=rng.choice([1, 2, 4]))
    if c["kind"] != "flat" and rng.random() < 0.3:
        c["lmax"] = rng.randint(1, 12)
    if rng.random() < 0.2:
        c["np"] = rng.choice(["int64", "int32"])
    return c


def full_wcs(c):
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    d = 360./c["nx"]
    w.wcs.ctype = ["RA---CAR", "DEC--CAR"]
    w.wcs.cdelt = [-d if c["flip"][1] else d, d if c["flip"][0] else -d]
    w.wcs.crval = [float(c["ra"]), 0.]
    w.wcs.crpix = [c["nx"]//2+1, c["nx"]//4+1]
    return w


def args(c):
    nm = sum(2 if s else 1 for s in c["sp"])
    l = np.arange(c["nl"])
    cls = np.array([(1.0+0.1*c["tag"] if i == j else 0.2)/(l+10.) for i in range(nm) for j in range(i, nm)])
    beam = np.exp(-0.1*l/c["nl"])*np.ones((len(c["sp"]), 1)) if c["beam"] else None
    return cls, beam


def call(c):
    cls, beam = args(c)
    c0 = cls.copy()
    seed = c["seed"]
    if c.get("np"):
        seed = np.dtype(c["np"]).type(seed)
    kw = dict(lmax=c["lmax"]) if "lmax" in c else {}
    if c["kind"] == "car":
        kw["wcs"] = full_wcs(c)
    if c["kind"] == "flat":
        m = S.nmt.synfast_flat(c["nx"], c["ny"], c["lx"], c["ly"], cls, c["sp"], beam=beam, seed=seed)
    else:
        m = S.nmt.synfast_spherical(c.get("nside", -1), cls, c["sp"], beam=beam, seed=seed, **kw)
    if not np.array_equal(c0, cls):
        raise AssertionError("the caller's spectra were modified")
    return np.array(m)


# Settings of the libraries underneath that a user's environment may hold
ENV = [("GSL_RNG_TYPE", "taus"), ("GSL_RNG_TYPE", "ranlxd2"), ("GSL_RNG_SEED", "7"), ("GSL_RNG_SEED", "123456"),
       ("OMP_NUM_THREADS", "3"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("PYTHONHASHSEED", "11")]


def gen_step(rng):
    """Something that happens before, between or beside the seeded calls."""
    k = rng.randint(0, 8)
    if k == 8:
        return ["env", *rng.choice(ENV)]
    if k == 0:
        return ["npseed", rng.randint(0, 1000)]
    if k == 1:
        return ["npdraw", rng.randint(1, 700)]
    if k == 2:
        return ["pyseed", rng.randint(0, 1000)]
    if k == 3:
        return ["synalm", rng.randint(0, 9)]
    if k == 4:
        return ["bad", rng.choice(["flat", "curved"])]
    if k == 5:
        return ["call", gen_call(rng, False)]
    if k == 6:
        return ["other", rng.randint(0, 10**6)]
    return ["call", gen_call(rng)]


def do_step(s, world):
    """The maps, for a seeded call; else None."""
    if s[0] == "call":
        m = call(s[1])
        return m if s[1]["seed"] >= 0 else None
    if s[0] == "npseed":
        np.random.seed(s[1])
    elif s[0] == "env":
        os.environ[s[1]] = s[2]
    elif s[0] == "npdraw":
        np.random.standard_normal(s[1])
    elif s[0] == "pyseed":
        random.seed(s[1])
    elif s[0] == "synalm":
        import healpy as hp
        hp.synalm(np.ones(6), lmax=5)
    elif s[0] == "bad":
        try:
            if s[1] == "flat":
                S.nmt.synfast_flat(6, 6, 1., 1., np.ones((2, 9)), [0], seed=3)
            else:
                S.nmt.synfast_spherical(2, np.ones((2, 9)), [0], seed=3)
        except Exception:
            pass
    elif s[0] == "other":
        rng = Rnd(s[1])
        q = ops.gen_request(rng, world.spec)
        if q[:2] != ["set", "sht"]:     # healpy has no transforms for rectangular pixels
            world.do(q)
    return None


def run_case(case, cfg, timeout=120):
    """[maps or None or exception text] for each caller's steps."""
    def job():
        w = ops.World(case["world"])

        def one(steps):
            def f():
                out = []
                for s in steps:
                    try:
                        out.append(do_step(s, w))
                    except Exception as e:
                        out.append("%s: %s" % (type(e).__name__, e))
                return out
            return f
        jobs = [one(s) for s in case["callers"]]
        if len(jobs) == 1:
            return [jobs[0]()], []
        c = thr.Callers(jobs, Rnd(case["sw"]), case["gap"], case.get("plan"))
        r = c.run()
        for x in r:
            if isinstance(x, BaseException):
                raise x
        return r, c.trace
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def ref(c, cache):
    k = repr(sorted(c.items()))
    if k not in cache:
        S.configure(**REF)
        cache[k] = S.run_forked(lambda: call(c), 60)
    return cache[k]


def judge(case, o, cache):
    if o.status != "ok":
        if o.status == "event":
            return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
        return o.status, "", "run ended with %s %s" % (o.status, o.detail[:300])
    seen = {}
    for t, (steps, out) in enumerate(zip(case["callers"], o.value[0])):
        for i, (s, m) in enumerate(zip(steps, out)):
            if s[0] != "call" or s[1]["seed"] < 0:
                continue
            r = ref(s[1], cache)
            where = "caller %d, step %d, %s: " % (t, i, s[1])
            if r.status != "ok":
                if r.status == "exc" and isinstance(m, str):
                    continue
                return "single "+r.status, s[1]["kind"], where+"alone in a process: %s %s" % (
                    r.detail[:200], r.rep.get("ev_text", ""))
            if isinstance(m, str):
                return "raises", s[1]["kind"], where+"raised "+m
            d = cmp_out(dict(maps=r.value), dict(maps=m))
            if d is not None:
                return "not reproducible", s[1]["kind"], where+"%s %s" % d
            key = repr(sorted((k, v) for k, v in s[1].items() if k not in ("seed", "np")))
            for sd, m2 in seen.setdefault(key, {}).items():
                if sd != s[1]["seed"] and np.mean(np.isclose(m2, m, rtol=1e-6, atol=0)) > 0.2:
                    return "same maps", s[1]["kind"], where+"seeds %d and %d give the same values" % (sd, s[1]["seed"])
            seen[key][s[1]["seed"]] = m
    return None


def gen_case(rng):
    nt = rng.choice([1, 1, 1, 2, 2, 3, 4])
    main = gen_call(rng)
    cal = []
    for t in range(nt):
        st = []
        for _ in range(rng.randint(1, 7 if nt == 1 else 4)):
            x = rng.random()
            if x < 0.45:
                st.append(["call", main])
            elif x < 0.6:
                st.append(["call", dict(main, seed=rng.choice([main["seed"] ^ 1, main["seed"]//2, (main["seed"]+65536) % 2**31,
                                                               main["seed"] ^ (1 << rng.randint(0, 30)),
                                                               rng.randint(0, 10**6)]))])
            elif x < 0.63 and "np" not in main:
                st.append(["call", dict(main, np="int64")])
            elif x < 0.67:
                st.append(["call", dict(main, tag=rng.randint(0, 3))])
            else:
                st.append(gen_step(rng))
        cal.append(st)
    if not any(s[0] == "call" and s[1]["seed"] >= 0 for st in cal for s in st):
        cal[0].append(["call", main])
    w = ops.gen_world(rng, curved=rng.random() < 0.7, cov=False)
    w["sht"] = "ducc"
    return dict(world=w, callers=cal,
                gap=float(rng.choice([2, 5, 20, 60])), sw=rng.getrandbits(40))


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    case = gen_case(rng)
    cache = {}
    for n in range(4):
        if n and time.monotonic() > deadline:
            break
        cfg = dict(draw_cfg(rng, 2e4), record=0, step_cap=0)
        if n == 0:
            cfg = dict(REF, fill=3, seed=cfg["seed"])
        c = dict(case, sw=rng.getrandbits(40))
        o = run_case(c, cfg)
        b = len(cache)
        k = judge(c, o, cache)
        res.evals += 1+len(cache)-b
        res.fault(o.rep)
        res.distinct.add(sub(repr(c["callers"]), cfg["nthreads"], o.rep.get("ileave_hash", 0),
                             repr(o.value[1]) if o.status == "ok" else ""))
        res.count["callers_%d" % len(c["callers"])] += 1
        for st in c["callers"]:
            for s in st:
                res.count["step_"+s[0]] += 1
        if o.status == "ok":
            res.count["caller_switches"] += len(o.value[1])
        if k is not None:
            if o.status == "ok" and len(c["callers"]) > 1:
                c["plan"] = [list(x) for x in o.value[1]]
            res.violation(dict(kind=k[0], what=k[1]), k[2],
                          dict(property=pid, engine="rand", case=c, cfg=cfg))
            break
    if i < 4:
        res.samples.append(dict(case=dict(case, world=None), schedule=cfg))
    return res


def replay(rd):
    o = run_case(rd["case"], rd["cfg"])
    return judge(rd["case"], o, {})


def minimise(rd, sig, deadline):
    cache = {}

    def bad(case, cfg=None):
        k = judge(case, run_case(case, cfg or rd["cfg"]), cache)
        return k is not None and k[0] == sig["kind"]
    case, cfg = rd["case"], rd["cfg"]
    if not bad(case):
        return rd
    if bad(case, REF):
        cfg = REF
    # fewer callers, fewer steps, fewer switches
    for t in range(len(case["callers"])-1, -1, -1):
        c = dict(case, callers=case["callers"][:t]+case["callers"][t+1:])
        c.pop("plan", None)
        if c["callers"] and bad(c, cfg):
            case = c
    for t in range(len(case["callers"])):
        def b(st, t=t):
            c = dict(case, callers=case["callers"][:t]+[st]+case["callers"][t+1:])
            return bad(c, cfg)
        case = dict(case, callers=case["callers"][:t]+[ddmin(case["callers"][t], b, deadline)]+case["callers"][t+1:])
    if case.get("plan"):
        case = dict(case, plan=ddmin(case["plan"], lambda p: bad(dict(case, plan=p), cfg), deadline))
    return dict(rd, case=case, cfg=cfg)
