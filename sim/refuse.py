"""Histories in which most requests cannot be carried out: each of those must
raise (the same exception as on fresh objects and one thread), and everything
asked between and after them must be answered as if they had not been made."""
import gc
import time

import bad
import calls
import ops
import simlib as S
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg

NAMES = sorted(bad.BAD)


def bare(r):
    return r[0] == "bad"


def gen_case(rng, i):
    u = rng.random()
    spec = ops.gen_world(rng) if u < 0.6 else (
        ops.gen_world(rng, flat=False, curved=True) if u < 0.8 else ops.gen_world(rng, flat=True, curved=False))
    sweep = rng.random() < 0.5
    pool = [x for t in ("F", "B", "W", "C", "FF", "FB", "FW", "FC") for x in spec[t]]
    if sweep:
        # very many mistakes, then what came of it
        few = [NAMES[(i+j*(len(NAMES)//7+1)) % len(NAMES)] for j in range(7)] if rng.random() < 0.5 else NAMES
        reqs = [["bad", rng.choice(few), rng.getrandbits(30)] for _ in range(rng.randint(60, 250))]
        for _ in range(4):
            reqs.insert(rng.randrange(len(reqs)), ops.gen_request(rng, spec, True))
        return spec, reqs+[["settings"]]+ops.probes(spec, rng.sample(pool, min(len(pool), 6))), True
    n = rng.randint(8, 24)
    reqs = []
    few = [rng.choice(NAMES) for _ in range(3)] if rng.random() < 0.3 else None
    for j in range(n):
        if j == 0:
            # every kind comes up, whatever the seed
            reqs.append(["bad", NAMES[i % len(NAMES)], rng.getrandbits(30)])
        elif rng.random() < 0.65:
            reqs.append(["bad", rng.choice(few or NAMES), rng.getrandbits(30)])
        else:
            reqs.append(ops.gen_request(rng, spec, True))
    if rng.random() < 0.2:
        # the same mistake again and again
        k = rng.randrange(n)
        reqs[k:k] = [reqs[k]]*rng.randint(3, 40)
    reqs.append(["settings"])
    reqs += ops.probes(spec, rng.sample(pool, min(len(pool), 6)))
    return spec, reqs, False


def run_history(spec, reqs, cfg, timeout=150):
    def job():
        gc.freeze()
        w = ops.World(spec)
        out = []
        for r in reqs:
            made, st = list(w.made), ops.settings()
            a = w.do(r)
            out.append((a, made, st))
            if bare(r) and ops.settings() != st:
                return out, "settings", r, S.rt.simrt_disk_open()
            if bare(r):
                c = w.changed_arrays()
                if c:
                    return out, "array "+c[0], r, S.rt.simrt_disk_open()
        gc.collect()
        return out, None, None, S.rt.simrt_disk_open(), w.changed_results()
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def judge(spec, reqs, o, cache, alone=True):
    if o.status != "ok":
        if o.status == "event":
            return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", ""), None
        return o.status, "", "history ended with %s %s" % (o.status, o.detail[:300]), None
    out, changed, by = o.value[:3]
    if changed:
        return "side effect", by[1], "the refused request %s changed the %s" % (by, changed), None
    if o.value[3]:
        return "file left open", "", "%d files are still open after the history" % o.value[3], None
    for i, (r, (got, made, st)) in enumerate(zip(reqs, out)):
        if r[0] in ("set", "drop", "forget", "settings"):
            continue
        if bare(r):
            if got[0] == "ok":
                return "accepted", r[1], "request %d %s cannot be carried out but returned normally" % (i, r), i
            if got[1] == "MemoryError":
                return "wrong error", r[1], "request %d %s raised %s" % (i, r, got[1:]), i
            if not alone:
                continue
            ref = calls.fresh(spec, r, made, st, cache)
        else:
            ref = calls.fresh(spec, r, calls.relevant(spec, r, made), st, cache)
        if ref.status != "ok":
            return "single " + ref.status, str(r[:2] if bare(r) else r[0]), "on fresh objects %s: %s %s" % (
                r, ref.detail[:200], ref.rep.get("ev_text", "")), i
        d = ops.differ(ref.value, got)
        if d is not None:
            return d[0], r[1] if bare(r) else r[0], "request %d %s %s" % (i, r, d[1]), i
    if o.value[4]:
        return "result changed", o.value[4][0][0], "answer '%s' of %s changed after it was handed out" % (
            o.value[4][1], o.value[4][0]), None
    return None


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    spec, reqs, sweep = gen_case(rng, i)
    cache = {}
    for n in range(2 if sweep else 3):
        if n and time.monotonic() > deadline:
            break
        rq = list(reqs)
        if n == 2:
            rng.shuffle(rq)
        cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
        if n == 1 or rng.random() < 0.4:
            cfg = dict(draw_cfg(rng, 2e5), record=0)
            cfg["step_cap"] = 0
        o = run_history(spec, rq, cfg)
        res.evals += 1
        res.fault(o.rep)
        res.distinct.add(sub(spec["ds"], repr(rq), cfg["seed"]))
        before = len(cache)
        k = judge(spec, rq, o, cache, not sweep)
        res.evals += len(cache)-before
        res.count["requests"] += len(rq)
        if o.status == "ok":
            for r, (a, _, _) in zip(rq, o.value[0]):
                if bare(r):
                    res.count["impossible_requests" if a[1] != "Skip" else "impossible_here"] += 1
                    if a[1] != "Skip":
                        res.count["inj_bad_"+r[1]] += 1
                elif a[0] == "exc":
                    res.count["others_refused"] += 1
        if k is not None:
            res.violation(dict(kind=k[0], what=k[1]), k[2],
                          dict(property=pid, engine="refuse", spec=spec, reqs=rq, cfg=cfg, alone=not sweep))
            break
    if i < 4:
        res.samples.append(dict(world=spec, requests=reqs[:12], schedule=cfg))
    return res


def replay(rd):
    o = run_history(rd["spec"], rd["reqs"], rd["cfg"])
    k = judge(rd["spec"], rd["reqs"], o, {}, rd.get("alone", True))
    return None if k is None else k[:3]


def minimise(rd, sig, deadline):
    cache = {}

    def worse(rq, cfg=None):
        o = run_history(rd["spec"], rq, cfg or rd["cfg"])
        k = judge(rd["spec"], rq, o, cache, rd.get("alone", True))
        return k is not None and k[0] == sig["kind"]
    if not worse(rd["reqs"]):
        return rd
    cfg = rd["cfg"]
    if worse(rd["reqs"], REF):
        cfg = REF
    rq = ddmin(rd["reqs"], lambda x: worse(x, cfg), deadline)
    return dict(rd, reqs=rq, cfg=cfg)
