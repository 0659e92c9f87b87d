"""Call histories over a shared pool of objects: every answer must be the one
fresh objects give, nothing may change the caller's arrays or earlier results."""
import gc
import time

import numpy as np

import ops
import simlib as S
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg


def at(req):
    """The world a request is about, and the request."""
    return (req[1], req[2]) if req[0] == "@" else (0, req)


def spec_of(spec, k):
    return spec["also"][k-1] if k else spec


def run_history(spec, reqs, cfg, timeout=120):
    """[(outcome, objects made so far, settings)], damage to arrays/results."""
    def job():
        gc.freeze()
        ws = {}
        out = []
        bad = [], None

        def check(w):
            return bad[0] or w.changed_arrays(), bad[1] or w.changed_results()
        for r in reqs:
            k, r = at(r)
            if r[0] == "renew":
                if k in ws:
                    bad = check(ws.pop(k))
                    gc.collect()
                out.append((("ok", {}), [], None))
                continue
            if k not in ws:
                ws[k] = ops.World(spec_of(spec, k))
            w = ws[k]
            made, st = list(w.made), ops.settings()
            out.append((w.do(r), made, st))
        for w in ws.values():
            bad = check(w)
        return out, bad[0], bad[1]
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def fresh(spec, req, made, st, cache=None):
    """The same request on fresh objects. (status 'ok': outcome)"""
    need = sorted(made)
    key = repr((req, need, st, spec["ds"]))
    if cache is not None and key in cache:
        return cache[key]

    def job():
        gc.freeze()
        w = ops.World(spec, made=need)
        ops.apply_settings(st)
        return w.do(req)
    S.disk_new()
    S.configure(**REF)
    o = S.run_forked(job, 90)
    if cache is not None:
        cache[key] = o
    return o


def relevant(spec, req, made):
    """Only objects the request can reach matter for its reference."""
    names = set()

    def add(n):
        if n in names or not isinstance(n, str):
            return
        for t, deps in (("F", ()), ("B", ()), ("W", ("f1", "f2", "b")), ("C", ("f",)), ("FF", ()), ("FB", ()),
                        ("FW", ("f1", "f2", "b")), ("FC", ("f", "b"))):
            if n in spec[t]:
                names.add(n)
                for d in deps:
                    v = spec[t][n][d]
                    for x in (v if isinstance(v, list) else [v]):
                        add(x)
    for a in req[1:]:
        if isinstance(a, str):
            add(a)
    if req[0] in ("covn", "covsave", "fcovn", "fcovsave", "xask"):
        for t in ("W", "FW"):
            for n in spec[t]:
                add(n)
    return [m for m in made if m[0] in names]


def judge(spec, reqs, o, cache):
    """(kind, what, message, index) of the first violation, or None."""
    if o.status != "ok":
        if o.status == "event":
            return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", ""), None
        return o.status, "", "history ended with %s %s" % (o.status, o.detail[:300]), None
    out, arrs, res = o.value
    for i, (r, (got, made, st)) in enumerate(zip(reqs, out)):
        n, r = at(r)
        if r[0] in ("set", "drop", "forget", "renew"):
            continue
        sp = spec_of(spec, n)
        ref = fresh(sp, r, relevant(sp, r, made), st, cache)
        if ref.status != "ok":
            return "single " + ref.status, r[0], "on fresh objects %s: %s %s" % (
                r, ref.detail[:200], ref.rep.get("ev_text", "")), i
        d = ops.differ(ref.value, got)
        if d is not None:
            return d[0], r[0], "request %d %s %s" % (i, r, d[1]), i
    if arrs:
        return "input changed", arrs[0], "the caller's array %s was modified" % arrs[0], None
    if res:
        return "result changed", res[0][0], "answer '%s' of %s changed after it was handed out" % (res[1], res[0]), None
    return None


def again(rng, spec, r):
    """The same kind of request, with other options."""
    for _ in range(150):
        q = ops.gen_request(rng, spec, True)
        if q[0] == r[0] and q != r:
            return q
    return r


def gen_several(rng):
    """Requests about several worlds in one process. They are alike in some
    ways: what the process remembers of one may seem to fit another."""
    spec = ops.gen_world(rng)
    spec["also"] = [ops.gen_sibling(rng, spec) for _ in range(rng.randint(1, 3))]
    ks = range(len(spec["also"])+1)
    reqs = []
    for _ in range(rng.randint(3, 9)):
        r = ops.gen_request(rng, spec, rng.random() < 0.3)
        for k in rng.sample(ks, rng.randint(1, len(ks))):
            if rng.random() < 0.15:
                reqs.append(["@", k, ["renew"]])
            if rng.random() < 0.3:
                r = ops.gen_request(rng, spec_of(spec, k), rng.random() < 0.3)
            # what toeplitz and such call for depends on the resolution
            reqs.append(["@", k, ops.fit_request(rng, spec_of(spec, k), r)])
    return spec, reqs


def gen_case(rng, tier):
    if rng.random() < 0.4:
        return gen_several(rng)
    spec = ops.gen_world(rng)
    n = rng.randint(6, 22)
    if rng.random() < 0.5:
        # few kinds, repeated: the same computation again and again
        base = [ops.gen_request(rng, spec, True) for _ in range(rng.randint(2, 6))]
        reqs = [rng.choice(base) for _ in range(n)]
    else:
        reqs = []
        while len(reqs) < n:
            reqs.append(ops.gen_request(rng, spec, True))
            if rng.random() < 0.25:
                reqs += [again(rng, spec, reqs[-1]) for _ in range(rng.randint(1, 2))]
    pool = list(spec["F"])+list(spec["B"])+list(spec["W"])+list(spec["FF"])+list(spec["FB"])+list(spec["FW"])
    reqs += ops.probes(spec, rng.sample(pool, min(len(pool), 4)))
    return spec, reqs


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    spec, reqs = gen_case(rng, tier)
    cache = {}
    for n in range(3):
        if n and time.monotonic() > deadline:
            break
        rq = list(reqs)
        if n == 1:
            rng.shuffle(rq)
        if n == 2:
            rq = list(reversed(reqs))
        cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
        if rng.random() < 0.25:
            cfg = dict(draw_cfg(rng, 2e5), record=0)
            cfg["step_cap"] = 0
        o = run_history(spec, rq, cfg)
        res.evals += 1
        res.fault(o.rep)
        res.distinct.add(sub(spec["ds"], repr(rq)))
        before = len(cache)
        k = judge(spec, rq, o, cache)
        res.evals += len(cache)-before
        res.count["requests"] += len(rq)
        for r in rq:
            res.count["req_"+at(r)[1][0]] += 1
            res.count["other_worlds"] += at(r)[0] > 0
        if o.status == "ok":
            res.count["requests_refused"] += sum(1 for x in o.value[0] if x[0][0] == "exc")
        if k is not None:
            res.violation(dict(kind=k[0], what=k[1]), k[2],
                          dict(property=pid, engine="calls", spec=spec, reqs=rq, cfg=cfg))
            break
    if i < 4:
        res.samples.append(dict(world=spec, requests=reqs[:12], schedule=cfg))
    return res


def replay(rd):
    o = run_history(rd["spec"], rd["reqs"], rd["cfg"])
    k = judge(rd["spec"], rd["reqs"], o, {})
    return None if k is None else k[:3]


def minimise(rd, sig, deadline):
    cache = {}

    def bad(rq, cfg=None):
        o = run_history(rd["spec"], rq, cfg or rd["cfg"])
        k = judge(rd["spec"], rq, o, cache)
        return k is not None and k[0] == sig["kind"]
    if not bad(rd["reqs"]):
        return rd
    cfg = rd["cfg"]
    if bad(rd["reqs"], REF):
        cfg = REF
    rq = ddmin(rd["reqs"], lambda x: bad(x, cfg), deadline)
    return dict(rd, reqs=rq, cfg=cfg)
