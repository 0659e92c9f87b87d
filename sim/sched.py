"""Schedule exploration: the same request under seeded OpenMP schedules, team
sizes and memory contents must give what one thread gives."""
import time

import numpy as np

import simlib as S
import workloads as W
from harness import Result, Rnd, ddmin, sub

PROPS = {"S01": ["curved_mcm"], "S02": ["curved_covar"],
         "S03": ["flat_pipeline"], "S04": ["flat_covar"],
         "S05": ["mask_curved", "mask_flat"], "R01": ["syn_flat"]}
# decoupling inverts matrices of moderate condition number
TOL = {"decoupled": 1e-7, "decoupled_bn": 1e-7, "win": 1e-7, "full": 1e-7,
       "cov_decoupled": 1e-7, "cov": 1e-7}


def cmp_out(ref, got, tol=1e-9):
    """First difference between two answers, or None."""
    for k in sorted(ref):
        if k not in got:
            return k, "answer missing"
        a, b = np.asarray(ref[k]), np.asarray(got[k])
        if a.shape != b.shape:
            return k, "shape %s instead of %s" % (b.shape, a.shape)
        if a.dtype.kind not in "fc":
            if not np.array_equal(a, b):
                return k, "differs"
            continue
        t = TOL.get(k.split(".")[-1], tol)
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return k, "%d non-finite values instead of %d" % ((~fb).sum(), (~fa).sum())
        if not fa.any():
            continue
        sc = np.abs(a[fa]).max()
        d = np.abs(a[fa]-b[fb]).max()
        if d > t*sc + 1e-300:
            i = np.unravel_index(np.argmax(np.where(fa, np.abs(a-b), 0)), a.shape) if a.ndim else ()
            return k, "off by %.3g (scale %.3g), first at %s: %.17g instead of %.17g" % (
                d, sc, tuple(int(x) for x in i), b[i], a[i])
    return None


def run_cfg(wl, spec, ctx, cfg, plan=None, timeout=90):
    def job():
        return wl.run(spec, ctx)
    if plan is not None:
        S.set_plan(plan)
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def prepare(wl, spec):
    """The shared inputs, built on one thread; first in a fork, which may die.
    Returns (context, outcome of the fork)."""
    S.configure(**REF)
    S.set_hot([])
    o = S.run_forked(lambda: wl.prep(spec) is None, 90)
    if o.status != "ok":
        return None, o
    S.configure(**REF)
    return wl.prep(spec), o


def classify(o, ref):
    """(kind, what, message) of what is wrong with an outcome, or None."""
    if isinstance(ref, Rejected):
        if o.status == "ok":
            return "accepted", "", "a request that one thread rejects (%s) returned normally" % ref.msg
        if o.status == "exc":
            return None if first_line(o) == ref.msg else (
                "other error", "", "raised '%s' where one thread raises '%s'" % (first_line(o), ref.msg))
    if o.status == "ok":
        d = cmp_out(ref, o.value)
        if d is None:
            return None
        return "mismatch", d[0], "result '%s' %s" % d
    if o.status == "exc":
        return "raises", "", "a valid request raised: " + o.detail.strip().splitlines()[0]
    if o.status == "event":
        return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
    if o.status == "signal":
        return "crash", o.detail, "process died: %s (in %s)" % (o.detail, o.rep.get("region") or "serial code")
    if o.status == "timeout":
        return "hang", "", "did not finish within %s" % o.detail
    return "killed", "", "unexpected end"


class Rejected:
    """One thread raises an ordinary exception: so must any number."""

    def __init__(self, o):
        self.msg = first_line(o)


def first_line(o):
    return o.detail.strip().splitlines()[0]


def rejected(o):
    return o.status == "exc" and first_line(o).startswith(("RuntimeError", "ValueError"))


REF = dict(nthreads=1, mode=0, fill=1, seed=1)


def draw_cfg(rng, steps):
    nt = rng.choice([2, 2, 3, 4, 4, 5, 7, 8, 12, 16, 33, rng.choice([24, 40, 65, 100])])
    cfg = dict(seed=rng.getrandbits(48), mode=1, nthreads=nt,
               vary_team=int(rng.chance(.15)), order=rng.choice([0, 1, 1, 1, 2, 3]),
               mean_gap=float(max(3.0, round(steps/10**rng.uniform(0.3, 4.2), 1))),
               p_stall=rng.choice([0, 0, 0.01, 0.1]),
               p_hot=rng.choice([0, 0.02, 0.2, 0.5, 1.0]),
               fill=rng.choice([1, 2, 3, 3, 4]),
               step_cap=40*int(steps)+400000, record=1)
    return cfg


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    names = PROPS[pid]
    wl = W.BY_NAME[names[i % len(names)]]
    res = Result()
    spec = wl.gen(rng)
    base = dict(property=pid, engine="sched", workload=wl.name, spec=spec)
    ctx, o = prepare(wl, spec)
    if o.status != "ok":
        res.evals += 1
        k = classify(o, {})
        res.violation(dict(kind="preparation " + k[0], what=k[1], workload=wl.name),
                      "building the inputs: " + k[2], dict(base, cfg=REF, plan=None))
        return res
    ref = run_cfg(wl, spec, ctx, REF)
    res.evals += 1
    res.fault(ref.rep)
    refv = ref.value
    if rejected(ref):
        refv = Rejected(ref)
        res.count["cases_rejected"] += 1
    elif ref.status != "ok":
        k = classify(ref, {})
        res.violation(dict(kind="single-thread " + k[0], what=k[1], workload=wl.name),
                      "one thread: " + k[2], dict(base, cfg=REF, plan=None))
        return res
    # same answer whatever the memory holds, still one thread
    c1 = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
    # profile: four threads one after another, which code touches shared data
    nprof = rng.choice([2, 4, 8])
    c2 = dict(REF, nthreads=nprof, profile=1, fill=rng.choice([1, 2, 3, 4]),
              seed=rng.getrandbits(40))
    steps = 1000
    hot = []
    todo = [c1, c2]
    K = 10 if tier == "quick" else 24
    for n in range(K+2):
        if n >= 2:
            if time.monotonic() > deadline:
                break
            cfg = draw_cfg(rng, steps)
        else:
            cfg = todo[n]
        if n == 1:
            # the profile has to reach us: hot code locations live in the child
            def job(cfg=cfg):
                v = wl.run(spec, ctx)
                return v, S.get_hot()
            S.configure(**cfg)
            o = S.run_forked(job, 90)
            if o.status == "ok":
                o.value, hot = o.value
                S.set_hot(hot)
            steps = max(200, ref.rep.get("steps", 0), o.rep.get("steps", 0))
        else:
            o = run_cfg(wl, spec, ctx, cfg)
        res.evals += 1
        res.fault(o.rep)
        if o.rep.get("maxteam", 0) > 1:
            res.count["runs_parallel"] += 1
        if o.rep.get("switches", 0) > 0 and n >= 2:
            res.distinct.add(sub(spec["ds"], o.rep["ileave_hash"], cfg["nthreads"]))
        k = classify(o, refv)
        if k is not None:
            rd = dict(base, cfg=dict(cfg, record=0), hot=hot, plan=None,
                      ntrace=o.rep.get("ntrace", 0))
            rd["trace"] = S.get_trace() if cfg.get("record") else None
            res.violation(dict(kind=k[0], what=k[1], workload=wl.name), k[2], rd)
            break
    res.count["hot_locations"] += len(hot)
    res.count["cases"] += 1
    S.set_hot([])
    if i < 4:
        res.samples.append(dict(workload=wl.name, spec=spec, schedule=cfg,
                                switches=o.rep.get("switches", 0)))
    return res


def replay(rd):
    """Re-execute; (kind, what, message) or None."""
    wl = W.BY_NAME[rd["workload"]]
    spec = rd["spec"]
    ctx, o = prepare(wl, spec)
    if o.status != "ok":
        k = classify(o, {})
        return "preparation " + k[0], k[1], "building the inputs: " + k[2]
    ref = run_cfg(wl, spec, ctx, REF)
    refv = ref.value
    if rejected(ref):
        refv = Rejected(ref)
    elif ref.status != "ok":
        k = classify(ref, {})
        return "single-thread " + k[0], k[1], "one thread: " + k[2]
    S.set_hot(rd.get("hot") or [])
    o = run_cfg(wl, spec, ctx, rd["cfg"], rd.get("plan"))
    S.set_hot([])
    return classify(o, refv)


def minimise(rd, sig, deadline):
    wl = W.BY_NAME[rd["workload"]]
    spec = rd["spec"]
    trace = rd.pop("trace", None)
    if not trace or rd["cfg"].get("mode") != 1:
        return rd
    ctx, o = prepare(wl, spec)
    if o.status != "ok":
        return rd
    ref = run_cfg(wl, spec, ctx, REF)
    refv = Rejected(ref) if rejected(ref) else ref.value
    if ref.status != "ok" and not rejected(ref):
        return rd
    cfg = dict(rd["cfg"], mode=2, record=0)

    def bad(plan):
        o = run_cfg(wl, spec, ctx, cfg, plan)
        k = classify(o, refv)
        return k is not None and k[0] == sig["kind"]
    if not bad(trace):
        return rd
    plan = ddmin(trace, bad, deadline)
    # plainer memory and fewer threads, if they still show it
    for alt in (dict(fill=1), dict(vary_team=0), dict(nthreads=2), dict(p_hot=0.0, p_stall=0.0, order=0)):
        c0 = dict(cfg)
        cfg.update(alt)
        if time.monotonic() > deadline or not bad(plan):
            cfg.clear()
            cfg.update(c0)
    return dict(rd, cfg=dict(cfg), plan=plan, hot=None,
                original=dict(cfg=rd["cfg"], switches=len(trace)))
