"""Several caller threads over shared objects: every answer is the one the
same request gives with nobody else around, every error reaches the caller who
caused it and nobody else."""
import gc
import time

import calls
import hist
import ops
import simlib as S
import thr
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg


def gen_case(rng):
    mode = "hist" if rng.random() < 0.35 else "req"
    n = rng.choice([2, 2, 3, 4])
    case = dict(mode=mode, cold=rng.random() < 0.7, gap=float(rng.choice([2, 4, 10, 30, 100, 400])))
    if mode == "req":
        if rng.random() < 0.5:
            # everybody wants the same object
            if rng.random() < 0.5:
                spec = ops.gen_world(rng, curved=True, flat=False, must=rng.choice(ops.KINDS))
                hot = "F2"
            else:
                spec = ops.gen_world(rng)
                hot = rng.choice([x for t in ("F", "W", "C", "FF", "FW", "FC") for x in spec[t]])
            case["callers"] = [[ops.gen_about(rng, spec, hot) for _ in range(rng.randint(1, 4))] for _ in range(n)]
            if rng.random() < 0.4:
                case["callers"] = [case["callers"][0]]*n
            case["spec"], case["sw"] = spec, rng.getrandbits(40)
            return case
        spec = ops.gen_world(rng)
        base = [ops.gen_request(rng, spec) for _ in range(rng.randint(2, 7))]
        case["callers"] = [[rng.choice(base) if rng.random() < 0.7 else ops.gen_request(rng, spec)
                            for _ in range(rng.randint(1, 5))] for _ in range(n)]
        if rng.random() < 0.4:
            # each with fields and resolutions of their own
            spec["also"] = [ops.gen_sibling(rng, spec) for _ in range(n-1)]
            case["callers"] = [[["@", i, ops.fit_request(rng, calls.spec_of(spec, i), r)] for r in c]
                               for i, c in enumerate(case["callers"])]
    else:
        pid = rng.choice(["H01", "H02"])
        spec, _ = hist.gen_case(rng, pid)
        spec.pop("also", None)
        kinds = ["W"] if pid == "H01" else [k for k, t in (("C", "C"), ("V", "FW"), ("D", "FC")) if spec[t]]
        case["callers"] = []
        for _ in range(n):
            h = []
            for _ in range(rng.randint(2, 8)):
                k = rng.choice(kinds)
                h.append(hist.gen_op(rng, spec, k, "%s0" % k.lower(), 0.15))
            case["callers"].append(h)
    case["spec"] = spec
    case["sw"] = rng.getrandbits(40)
    return case


def gen_pairs(rng, i):
    """Pairs of requests that meet in the same code and objects, each pair run
    many times over with one caller suspended somewhere while the other acts."""
    must = rng.random() < 0.5
    if must:
        spec = ops.gen_world(rng, curved=True, flat=False, must=ops.KINDS[i*7 % len(ops.KINDS)])
    else:
        spec = ops.gen_world(rng)
    pool = [x for t in ("F", "W", "W", "C", "FF", "FW", "FW", "FC") for x in spec[t]]
    prs = []
    other = rng.random() < 0.35
    if other:
        spec["also"] = [ops.gen_sibling(rng, spec)]
    for _ in range(rng.randint(3, 8)):
        hot = "F2" if must and rng.random() < 0.6 else rng.choice(pool)
        a = ops.gen_about(rng, spec, hot)
        b = a
        x = rng.random()
        if other and x < 0.3:
            # both set up something of their own
            a = rng.choice([["field" if n[0] == "F" else "ffield", n] for n in list(spec["F"])+list(spec["FF"])])
            prs.append([a, ["@", 1, a]])
            continue
        if x < 0.65:
            # the same function, asked something else
            for _ in range(12):
                b = ops.gen_about(rng, spec, hot)
                if b[0] == a[0] and b != a:
                    break
        elif x < 0.85:
            b = ops.gen_about(rng, spec, hot)
        if other and rng.random() < 0.7:
            b = ["@", 1, ops.fit_request(rng, spec["also"][0], a if rng.random() < 0.7 else b)]
        prs.append([a, b])
    return dict(mode="pair", spec=spec, pairs=prs, sw=rng.getrandbits(40), n=rng.randint(20, 60))


def parts(spec, n):
    """The fields that an object was made from."""
    for t in ("W", "C", "FW", "FC"):
        if n in spec[t]:
            d = spec[t][n]
            return [x for x in [d.get("f1"), d.get("f2")]+list(d.get("f", [])) if x]
    return []


def place(rng, n, stored, turn=None):
    """A step of a request: any, or one right after a store. Turn by turn, the
    stores in the code get their turn in a random order."""
    x, y, z = rng.random(), rng.random(), rng.random()
    if not stored or x < 0.4:
        return 1+int(y*max(1, n))
    s = list(stored.values())
    if turn is None:
        s = s[int(z*len(s))]
    else:
        order = list(range(len(s)))
        Rnd(sub(turn[0], len(s))).shuffle(order)
        s = s[order[turn[1] % len(s)]]
    return s[int(y*len(s))]


class Worlds:
    """The worlds of the callers."""

    def __init__(self, spec):
        self.ws = [ops.World(s) for s in [spec]+spec.get("also", [])]

    def do(self, q):
        k, r = calls.at(q)
        return self.ws[k].do(r)

    def names(self, reqs):
        """[(world, name)] of the objects that the requests mention."""
        return [(w, n) for i, w in enumerate(self.ws)
                for n in names_in(w.spec, [calls.at(r)[1] for r in reqs if calls.at(r)[0] == i])]

    def probes(self, reqs):
        out = []
        for i, w in enumerate(self.ws):
            ps = ops.probes(w.spec, [n for v, n in self.names(reqs) if v is w])[:40//len(self.ws)]
            out += [p if not i else ["@", i, p] for p in ps]
        return out

    def changed(self):
        return [x for w in self.ws for x in w.changed_arrays()], next(filter(None, (w.changed_results() for w in self.ws)), None)


def run_pairs(case, ws):
    """[(pair, turn, plan, caller, answer)] of the answers that differ from the
    ones given to the callers one after another, and the latter."""
    out, alone, steps, tr = [], [], 0, []
    for p, (qa, qb) in enumerate(case["pairs"]):
        rng = Rnd(sub(case["sw"], p))
        one = []
        size = [], []
        used = [(w, n) for w, n in ws.names([qa, qb]) if n[0] in "FP"]
        used += [(w, n) for w, x in ws.names([qa, qb]) for n in parts(w.spec, x) if (w, n) not in used]

        def anew():
            """These fields, nothing asked of them yet."""
            for w, n in used:
                w.objs.pop(n, None)
            for w, n in used:
                try:
                    w.o(n)
                except Exception:
                    pass
        for q in (qa, qb):
            c = thr.Callers([lambda: ws.do(q)], None, 1, [])
            one.append(c.run()[0])
            size[0].append((c.step, c.stored))
            steps += c.step
            anew()
            c = thr.Callers([lambda: ws.do(q)], None, 1, [])
            c.run()
            size[1].append((c.step, c.stored))
            if isinstance(one[-1], BaseException):
                raise one[-1]
        alone.append(one)
        for t in range(case["n"]):
            first = rng.randrange(2)
            cold = rng.random() < 0.4
            sz = size[cold]
            k = place(rng, *sz[first], turn=(sub(case["sw"], p, first, cold), t))
            plan = [[0, first], [k, 1-first]]
            if rng.random() < 0.4:
                plan.append([k+place(rng, *sz[1-first]), first])
                if rng.random() < 0.5:
                    plan.append([plan[-1][0]+place(rng, *sz[first]), 1-first])
            if case.get("only") and [p, t] not in case["only"]:
                continue
            if cold:
                anew()
            c = thr.Callers([lambda: ws.do(qa), lambda: ws.do(qb)], None, 1, [list(x) for x in plan])
            r = c.run()
            steps += c.step
            tr.append((p, c.trace[:3]))
            for i in (0, 1):
                if isinstance(r[i], BaseException):
                    raise r[i]
                if len(out) < 4 and ops.differ(one[i], r[i]) is not None:
                    out.append((p, t, c.trace, i, r[i]))
    return out, alone, steps, tr


def names_in(spec, reqs):
    pool = [n for t in ("F", "B", "W", "C", "FF", "FB", "FW", "FC") for n in spec[t]]
    used = set()

    def walk(x):
        if isinstance(x, str):
            if x in pool:
                used.add(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(reqs)
    if any(r[0] in ("covn", "covsave", "fcovn", "fcovsave", "comp") for r in reqs):
        used |= set(pool)
    return [n for n in pool if n in used]


def run_case(case, cfg, timeout=150):
    spec = case["spec"]

    def job():
        gc.freeze()
        ws = Worlds(spec)
        w = ws.ws[0]
        sett0 = ops.settings()
        allr = [r for c in case["callers" if "callers" in case else "pairs"] for r in c]
        used = [(w, n) for n in names_in(spec, allr)] if case["mode"] == "hist" else ws.names(allr)
        for v, n in used:
            try:
                v.o(n)
            except Exception:
                pass
        if case.get("cold"):
            # fields of which nothing has been asked yet
            for v in ws.ws:
                for n in [n for n in v.objs if n[0] in "FP"]:
                    v.objs.pop(n)
                    v.o(n)
        made = [list(v.made) for v in ws.ws]
        if case["mode"] == "pair":
            r, alone, n, tr = run_pairs(case, ws)
            sett = None if ops.settings() == sett0 else (sett0, ops.settings())
            return (r, alone), tr, made, [], *ws.changed(), n, sett
        lives = []
        jobs = []
        for reqs in case["callers"]:
            if case["mode"] == "req":
                jobs.append(lambda reqs=reqs: [ws.do(r) for r in reqs])
            else:
                lv = hist.Live(spec, w)
                lives.append(lv)
                jobs.append(lambda reqs=reqs, lv=lv: hist_run(lv, reqs, spec))
        c = thr.Callers(jobs, Rnd(case["sw"]), case["gap"], case.get("plan"),
                        after=0. if case.get("plan") else case.get("after", 0.))
        r = c.run()
        for x in r:
            if isinstance(x, BaseException):
                raise x
        pr = []
        if case["mode"] == "req":
            pr = [(q, ws.do(q)) for q in ws.probes(allr)]
        sett = None if ops.settings() == sett0 else (sett0, ops.settings())
        return r, c.trace, made, pr, *ws.changed(), c.step, sett
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def hist_run(lv, h, spec):
    out = []
    for op in h:
        o = lv.do(op)
        pr = None
        if o[0] == "exc" and op[0] in hist.MUT:
            pr = [lv.do(["ask", op[1], q]) for q in hist.asks(op[1], spec)]
        out.append((o, pr))
    fin = {n: [lv.do(["ask", n, q]) for q in hist.asks(n, spec)] for n in sorted(lv.x)}
    return out, fin, []


class Ctx:
    """Reference answers of one case."""

    def __init__(self, spec):
        self.cache = {}
        self.orc = hist.Oracle(spec)

    def runs(self):
        return len(self.cache)+self.orc.runs


def judge(case, o, ctx):
    spec = case["spec"]
    if o.status != "ok":
        if o.status == "event":
            return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
        return o.status, "", "run ended with %s %s" % (o.status, o.detail[:300])
    r, tr, made, pr, arrs, res, steps, sett = o.value
    st = ops.settings()
    if case["mode"] == "pair":
        for p, (qs, an) in enumerate(zip(case["pairs"], r[1])):
            for q, got in zip(qs, an):
                k = one(spec, q, got, made, st, ctx)
                if k:
                    return k[0], calls.at(q)[1][0], "pair %d, one after another, %s %s" % (p, q, k[1])
        for p, t, tr1, i, got in r[0]:
            q = case["pairs"][p][i]
            k = one(spec, q, got, made, st, ctx)
            if k:
                return k[0], calls.at(q)[1][0], "pair %d turn %d, switches %s: caller %d, request %s (the other: %s) %s" % (
                    p, t, tr1, i, q, case["pairs"][p][1-i], k[1])
        r = []
    for t, reqs in enumerate(case.get("callers", [])):
        if case["mode"] == "hist":
            oo = S.Outcome("ok", r[t], o.rep)
            k = hist.judge(spec, reqs, oo, ctx.orc)
            if k:
                return k[0], k[1], "caller %d: %s" % (t, k[2])
            continue
        for i, (q, got) in enumerate(zip(reqs, r[t])):
            k = one(spec, q, got, made, st, ctx)
            if k:
                return k[0], calls.at(q)[1][0], "caller %d, request %d %s %s" % (t, i, q, k[1])
    for q, got in pr:
        k = one(spec, q, got, made, st, ctx)
        if k:
            return "later "+k[0], calls.at(q)[1][0], "afterwards %s %s" % (q, k[1])
    if sett:
        return "settings changed", "", "the defaults are %s instead of %s" % sett[::-1]
    if arrs:
        return "input changed", arrs[0], "the caller's array %s was modified" % arrs[0]
    if res:
        return "result changed", res[0][0], "answer '%s' of %s changed after it was handed out" % (res[1], res[0])
    return None


def one(spec, q, got, made, st, ctx):
    i, q = calls.at(q)
    spec, made = calls.spec_of(spec, i), made[i]
    ref = calls.fresh(spec, q, calls.relevant(spec, q, made), st, ctx.cache)
    if ref.status != "ok":
        return "single "+ref.status, "with no other caller: %s %s" % (ref.detail[:200], ref.rep.get("ev_text", ""))
    d = ops.differ(ref.value, got)
    if d is None and got[0] == "exc" and got[2] != ref.value[2] and "simdisk" not in ref.value[2]:
        d = "other message", "raised '%s' where alone it raises '%s'" % (got[2], ref.value[2])
    return d


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    case = gen_pairs(rng, i) if rng.random() < 0.5 else gen_case(rng)
    ctx = Ctx(case["spec"])
    for n in range(10 if tier == "quick" else 20):
        if n and time.monotonic() > deadline:
            break
        if n > 2 and case["mode"] == "pair":
            break
        c = dict(case, sw=rng.getrandbits(40), gap=float(rng.choice([2, 4, 10, 30, 100, 400])),
                 after=rng.choice([0., 0., 0.03, 0.2]))
        cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
        if rng.random() < 0.25:
            cfg = dict(draw_cfg(rng, 2e5), record=0, step_cap=0)
        o = run_case(c, cfg)
        r0 = ctx.runs()
        k = judge(c, o, ctx)
        res.evals += 1+ctx.runs()-r0
        res.fault(o.rep)
        res.count["mode_"+c["mode"]] += 1
        if o.status == "ok" and c["mode"] == "pair":
            res.count["pair_turns"] += len(o.value[1])
            res.count["caller_switches"] += sum(len(t)-1 for _, t in o.value[1])
            res.steps += o.value[6]
            for p, t in o.value[1]:
                res.distinct.add(sub(repr(c["pairs"][p]), repr(t)))
        elif o.status == "ok":
            res.count["callers_%d" % len(c["callers"])] += 1
            res.count["caller_switches"] += len(o.value[1])
            res.steps += o.value[6]
            res.distinct.add(sub(repr(c["callers"]), repr(o.value[1])))
        for rq in c.get("callers", []):
            res.count["requests"] += len(rq)
        if k is not None:
            if o.status == "ok" and c["mode"] != "pair":
                c["plan"] = [list(x) for x in o.value[1]]
            res.violation(dict(kind=k[0], what=k[1]), k[2],
                          dict(property=pid, engine="conc", case=c, cfg=cfg))
            break
    if i < 4:
        res.samples.append(dict(case=case, schedule=cfg))
    return res


def replay(rd):
    return judge(rd["case"], run_case(rd["case"], rd["cfg"]), Ctx(rd["case"]["spec"]))


def minimise(rd, sig, deadline):
    ctx = Ctx(rd["case"]["spec"])

    def bad(case, cfg=None):
        k = judge(case, run_case(case, cfg or rd["cfg"]), ctx)
        return k is not None and k[0] == sig["kind"]
    case, cfg = rd["case"], rd["cfg"]
    if not bad(case):
        return rd
    if bad(case, REF):
        cfg = REF
    if case["mode"] == "pair":
        # which turns of which pair does it take?
        o = run_case(case, cfg)
        ts = [[p, t] for p in range(len(case["pairs"])) for t in range(case["n"])]
        if o.status == "ok" and o.value[0][0]:
            p, t = o.value[0][0][0][:2]
            if bad(dict(case, only=[[p, t]]), cfg):
                ts = [[p, t]]
        if len(ts) > 1:
            ts = ddmin(ts, lambda x: bad(dict(case, only=x), cfg), deadline)
        return dict(rd, case=dict(case, only=ts), cfg=cfg)

    def tries(c):
        """The case under a few other schedules."""
        for s in range(6):
            x = dict(c, sw=sub(c["sw"], s))
            x.pop("plan", None)
            o = run_case(x, cfg)
            k = judge(x, o, ctx)
            if k is not None and k[0] == sig["kind"]:
                if o.status == "ok":
                    x["plan"] = [list(y) for y in o.value[1]]
                return x
        return None
    for t in range(len(case["callers"])-1, -1, -1):
        if len(case["callers"]) > 1 and time.monotonic() < deadline:
            x = tries(dict(case, callers=case["callers"][:t]+case["callers"][t+1:]))
            if x:
                case = x
    for t in range(len(case["callers"])):
        i = len(case["callers"][t])-1
        while i >= 0 and time.monotonic() < deadline:
            st = case["callers"][t][:i]+case["callers"][t][i+1:]
            x = tries(dict(case, callers=case["callers"][:t]+[st]+case["callers"][t+1:]))
            if x:
                case = x
            i -= 1
    if case.get("plan"):
        case = dict(case, plan=ddmin(case["plan"], lambda p: bad(dict(case, plan=p), cfg), deadline))
    return dict(rd, case=case, cfg=cfg)
