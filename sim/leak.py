"""The same calls again and again, everything discarded in between: what is
held afterwards does not grow."""
import gc
import time
from array import array

import hist
import ops
import simlib as S
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg

REPS = 7
WHAT = ["blocks of memory", "bytes of memory", "GSL blocks", "FFTW blocks", "FFTW plans", "arrays",
        "Python objects", "open files"]


def gen_case(rng):
    spec = ops.gen_world(rng, must=rng.choice(ops.KINDS)) if rng.random() < 0.4 else ops.gen_world(rng)
    n = rng.randint(2, 12)
    if rng.random() < 0.4:
        about = rng.choice([x for t in ("F", "W", "C", "FF", "FW", "FC") for x in spec[t]])
        reqs = [ops.gen_about(rng, spec, about) for _ in range(n)]
    else:
        reqs = [ops.gen_request(rng, spec, True) for _ in range(n)]
    kinds = [k for k, t in (("W", "W"), ("C", "C"), ("V", "FW"), ("D", "FC")) if spec[t]]
    steps = [["req", r] for r in reqs]
    if kinds:
        h = []
        for _ in range(rng.randint(0, 12)):
            k = rng.choice(kinds)
            h.append(["op", hist.gen_op(rng, spec, k, "%s%d" % (k.lower(), rng.random() < 0.3), 0.)])
        if rng.random() < 0.5:
            steps += h
        else:
            at = sorted(rng.randint(0, len(steps)) for _ in h)
            for j, s in reversed(list(zip(at, h))):
                steps.insert(j, s)
    return dict(spec=spec, steps=steps, order=rng.getrandbits(30))


def held(out):
    gc.collect()
    for i in range(5):
        out.append(S.rt.simrt_live(i))
    out.append(S.npfill.live())
    out.append(len(gc.get_objects()))
    out.append(S.rt.simrt_disk_open())


def run_case(case, cfg, timeout=200):
    """(what was held after every repetition, steps left out because they raise)"""
    def job():
        gc.freeze()
        steps = list(case["steps"])
        sett0 = ops.settings()
        out = array("q", [0])*0
        left = []
        for n in range(REPS):
            S.disk_new()
            ops.apply_settings(sett0)
            w = ops.World(case["spec"])
            w.strict = True
            lv = hist.Live(case["spec"], w)
            bad = []
            for i, s in enumerate(steps):
                r = w.do(s[1]) if s[0] == "req" else lv.do(s[1])
                if r[0] != "ok":
                    bad.append(i)
                r = None
            names = sorted(w.objs)+sorted(lv.x)
            Rnd(case["order"]).shuffle(names)
            w.kept = None
            for q in names:
                w.objs.pop(q, None)
                lv.x.pop(q, None)
            w = lv = names = None
            if bad:
                # only calls that return give everything back
                left += bad
                steps = [s for i, s in enumerate(steps) if i not in bad]
                if n > 2:
                    return None, left
            bad = None
            held(out)
        k = len(WHAT)
        return [list(out[i*k:i*k+k]) for i in range(REPS)], left
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def judge(case, o):
    if o.status == "event":
        return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
    if o.status != "ok":
        return o.status, "", "ended with %s %s" % (o.status, o.detail[:300])
    h, left = o.value
    if h is None:
        return None
    n = len(h)-1
    for i in (7, 0, 2, 3, 4, 5, 1, 6):
        if h[n-2][i] > h[n-4][i] and h[n][i] > h[n-2][i]:
            return "not given back", WHAT[i], "every repetition leaves more %s behind: %s" % (WHAT[i], [x[i] for x in h])
    return None


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    case = gen_case(rng)
    cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
    if rng.random() < 0.4:
        cfg = dict(draw_cfg(rng, 2e5), record=0, step_cap=0)
    o = run_case(case, cfg)
    v = judge(case, o)
    res.evals += REPS
    res.fault(o.rep)
    res.count["steps"] += len(case["steps"])*REPS
    if o.status == "ok":
        res.count["steps_left_out"] += len(o.value[1])
        res.count["histories_discarded"] += o.value[0] is None
        if o.value[0]:
            res.distinct.add(sub(repr(case["steps"]), case["spec"]["ds"], repr(cfg)))
    for s in case["steps"]:
        res.count["%s_%s" % (s[0], s[1][0])] += 1
    if v is not None:
        res.violation(dict(kind=v[0], what=v[1]), v[2], dict(property=pid, engine="leak", case=case, cfg=cfg))
    if i < 4:
        res.samples.append(dict(case=case, schedule=cfg))
    return res


def replay(rd):
    return judge(rd["case"], run_case(rd["case"], rd["cfg"]))


def minimise(rd, sig, deadline):
    def bad(steps, cfg=None):
        c = dict(rd["case"], steps=steps)
        k = judge(c, run_case(c, cfg or rd["cfg"]))
        return k is not None and k[0] == sig["kind"]
    if not bad(rd["case"]["steps"]):
        return rd
    cfg = rd["cfg"]
    if bad(rd["case"]["steps"], REF):
        cfg = REF
    steps = ddmin(rd["case"]["steps"], lambda x: bad(x, cfg), deadline)
    return dict(rd, case=dict(rd["case"], steps=steps), cfg=cfg)
