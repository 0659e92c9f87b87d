"""Histories with one kind of fault injected into chosen operations:
interruptions (K01), failing allocations (E01), failing storage and kills
(D01, D02). After each faulted operation every live object is asked
everything, then the operation is repeated without the fault."""
import gc
import os
import time

import calls
import hist
import ops
import simlib as S
import thr
import workloads as W
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg

FOREVER = 1 << 40
THROW_IN_TEAM = 1
WEND = "write lost in ffwend"


# -------------------------------------------------------------------- drawing
def gen_case(rng, pid, big=False):
    if pid in ("D01", "D02"):
        x = 0. if big else rng.random()
        big = big or x < 0.5 and rng.random() < 0.25      # files larger than CFITSIO's buffers
        spec = ops.gen_world(rng, curved=x < 0.75, flat=x > 0.5, cov=True, large=big)
        kinds = [k for k, t in (("W", "W"), ("C", "C"), ("V", "FW"), ("D", "FC")) if spec[t]]
        if big and spec["C"] and rng.random() < 0.5:
            # matrices that are larger than the buffers, each of them
            only0 = rng.random() < 0.7
            spec.update(nside=64, lmax=rng.randint(122, 150)) if only0 else spec.update(nside=32, lmax=rng.randint(56, 80))
            pure = any(f["pe"] or f["pb"] for f in spec["F"].values())
            spec["lmax_mask"] = 3*spec["nside"]-1 if rng.random() < 0.3 and not pure else spec["lmax"]
            spec["B"] = {"B0": W.gen_bins(rng, 2, spec["lmax"])}
            spec["W"] = {"W0": dict(f1="F0", f2=rng.choice(["F0", "F1"]), b="B0", kw={})}
            for d in spec["C"].values():
                d["kw"] = dict(spin0_only=only0)
            kinds = ["C"]
    else:
        spec = ops.gen_world(rng)
        kinds = [k for k, t in (("W", "W"), ("C", "C"), ("V", "FW"), ("D", "FC")) if spec[t]]
    objs = {k: ["%s%d" % (k.lower(), i) for i in range(1 if rng.random() < 0.6 else 2)] for k in kinds}
    hist.some_gz(rng, spec, kinds)

    def op(k=None):
        k = k or rng.choice(kinds)
        return hist.gen_op(rng, spec, k, rng.choice(objs[k]), 0.04)

    def comp(k):
        while True:
            o = hist.gen_op(rng, spec, k, rng.choice(objs[k]), 0.)
            if o[0] == "comp":
                return o
    steps = []
    if pid in ("D01", "D02"):
        for k in kinds:
            steps.append(["op", comp(k)])
        for _ in range(rng.randint(3, 7)):
            k = rng.choice(kinds)
            o = rng.choice(objs[k])
            f = "%sf%d" % (k, rng.randint(0, 1))
            x = rng.random()
            save = ["save", o, f]
            osave = save+([1] if k in "WC" and rng.random() < 0.2 else [])
            load = ["load", o, f, int(rng.random() < (0.75 if k == "W" else 0.25))]
            if x < 0.15:
                steps.append(["op", comp(k)])
            elif x < 0.25:
                steps.append(["op", op(k)])
            elif pid == "D01" and rng.random() < 0.4:
                steps.append(["sweep", "save", save, rng.getrandbits(40), rng.randint(5, 30)])
            elif pid == "D01":
                steps.append(["fault", save, dict(kind=rng.choice(["w", "w", "w", "o", "c", "cap", "cap", "small"]))])
            elif x < 0.4:
                steps.append(["op", osave])
            elif x < 0.55:
                steps.append(["fault", save, dict(kind="kill")])
                steps.append(["op", load])
            elif x < 0.7:
                steps.append(["op", osave])
                steps.append(["cut", f, draw_cut(rng)])
                steps.append(["op", load])
            elif x < 0.78 and len(kinds) > 1:
                k2 = rng.choice([q for q in kinds if q != k])
                steps.append(["op", ["save", rng.choice(objs[k2]), "%sf0" % k2]])
                steps.append(["op", load[:2]+["%sf0" % k2, load[3]]])
            else:
                steps.append(["op", osave])
                steps.append(["fault", load, dict(kind=rng.choice(["r", "r", "r", "o", "small"]))])
            if pid == "D02" and rng.random() < 0.4:
                steps += [["op", osave], ["sweep", rng.choice(["cut", "read"]), ["load", k.lower()+"?", f, load[3]],
                                          rng.getrandbits(40), rng.randint(10, 50)]]
        return dict(spec=spec, steps=steps)
    fk = (lambda: dict(kind="intr")) if pid == "K01" else (
        lambda: dict(kind=rng.choice(["alloc", "alloc", "alloc", "gsl", "np"])))
    for _ in range(rng.randint(0, 2)):
        steps.append(["op", comp(rng.choice(kinds)) if kinds and rng.random() < 0.7 else op()])
    for _ in range(rng.randint(1, 5)):
        x = rng.random()
        if x < 0.06 and kinds:
            k = rng.choice(kinds)
            o, f = rng.choice(objs[k]), "%sf0" % k
            steps += [["op", comp(k)], ["op", ["save", o, f]+([1] if rng.random() < 0.4 else [])],
                      ["fault", ["load", rng.choice(objs[k]), f, int(rng.random() < (0.7 if k == "W" else 0.3))], fk()]]
        elif x < 0.2:
            steps.append(["op", op()])
        elif x < 0.3:
            steps.append(["req", ops.gen_request(rng, spec)])
        elif x < 0.7:
            while True:
                o = op()
                if o[0] not in ("new", "askbad"):
                    break
            steps.append(["fault", o, fk()])
        else:
            steps.append(["freq", ops.gen_request(rng, spec), fk()])
    if not any(s[0] in ("fault", "freq") for s in steps):
        steps.append(["freq", ops.gen_request(rng, spec), fk()])
    return dict(spec=spec, steps=steps)


def draw_cut(rng):
    """Where a file ends after being cut: a fraction of it, a few bytes short,
    or near a boundary inside it (which one, and how far from it)."""
    x = rng.random()
    if x < 0.35:
        return rng.random()
    if x < 0.45:
        return rng.randint(1, 40)
    return [rng.random(), rng.choice([0, 0, -1, 1, -4, -8, 8, -16, -80, 80, -2880, 2880, -rng.randint(1, 3000)])]


def boundaries(d):
    """Offsets in a FITS file where a header, its data or their padding begin."""
    out, p = set(), 0
    while p < len(d):
        card, q, done = {}, p, False
        while q+80 <= len(d) and not done:
            c = d[q:q+80]
            if c[8:10] == b"= ":
                card[c[:8].strip()] = c[10:].split(b"/")[0].strip()
            done = c[:8].strip() == b"END"
            q += 80
        if not done:
            break
        out |= {p, q}
        q = p+(q-p+2879)//2880*2880
        n = abs(int(card.get(b"BITPIX", 8)))//8
        na = int(card.get(b"NAXIS", 0))
        for i in range(na):
            n *= int(card[b"NAXIS%d" % (i+1)])
        n = (n+int(card.get(b"PCOUNT", 0)))*int(card.get(b"GCOUNT", 1)) if na else 0
        out |= {q, q+n}
        p = q+(n+2879)//2880*2880
    return sorted(b for b in out | {len(d)} if b <= len(d))


def cut_at(d, c):
    if isinstance(c, float):
        n = int(len(d)*c)
    elif isinstance(c, list):
        b = boundaries(d)
        n = b[int(c[0]*len(b))]+c[1] if b else 0
    else:
        n = len(d)-c
    return d[:max(0, n)]


def aim(rng, step, n):
    """Draw where exactly the fault strikes, given how many chances there are."""
    f = dict(step[2])
    k = f["kind"]

    def fewer(m):
        # asked again, it takes fewer: parts are at hand already
        return m if rng.random() < 0.5 else int(m*rng.random())
    if k == "intr":
        f["at"] = rng.randrange(max(1, fewer(n["intr"])))
    elif k in ("alloc", "gsl", "np"):
        f["at"] = rng.randrange(max(1, fewer(n[k])))
        f["len"] = rng.choice([1, 1, 1, 2, 5, FOREVER, FOREVER])
    elif k in ("w", "kill"):
        f["at"] = rng.randrange(max(1, n["w"]))
        f["wk"] = rng.choice([4, 5, 5]) if k == "kill" else rng.choice([1, 2, 2, 3, 6])
        f["frac"] = rng.choice([0, 1, 500, 999, rng.randrange(1000)])
        if k == "w" and rng.random() < 0.15:
            f["at"] = max(0, n["w"]-1-rng.randrange(2))
    elif k == "r":
        f["at"] = rng.randrange(max(1, n["r"]))
        f["rk"] = rng.choice([1, 2, 3, 4])
        f["frac"] = rng.choice([0, 1, 500, 999, rng.randrange(1000)])
    elif k in ("o", "c"):
        f["at"] = rng.randrange(max(1, n[k]))
    elif k == "cap":
        s = max(1, n["size"])
        f["cap"] = max(1, rng.choice([1, s-1, s-2880, s//2, rng.randrange(1, s+1), rng.randrange(1, s+1)]))
    elif k == "small":
        f["small"] = rng.choice([1, 7, 100, 1000, 2880, 4096])
    return [step[0], step[1], f]


def aimed(rng, steps, counts, k):
    """The steps with every fault aimed; in most runs one of them happens many
    times in a row, at different points."""
    at = [j for j, s in enumerate(steps) if s[0] in ("fault", "freq", "cut")]
    many = rng.choice(at) if at and rng.random() < 0.7 else None
    out = []
    for j, s in enumerate(steps):
        if s[0] in ("fault", "freq"):
            n = rng.randint(4, 20) if j == many else 1
            out += [aim(rng, s, counts[j]["n"]) for _ in range(n)]
        elif s[0] == "sweep":
            out.append(s[:3]+[rng.getrandbits(40)]+s[4:])
        elif s[0] == "cut":
            out.append(["cut", s[1], draw_cut(rng)] if k > 1 else s)
            if j == many and j and j+1 < len(steps):
                for _ in range(rng.randint(4, 20)):
                    out += [steps[j+1], steps[j-1], ["cut", s[1], draw_cut(rng)]]
        else:
            out.append(s)
    return out


# ------------------------------------------------------------------ execution
def arm(f):
    c = S.rt.simrt_config().contents
    S.rt.simrt_reset_counters()
    if not {"at", "cap", "small"} & set(f):
        S.npfill.set_fail(-1, 1)
        S.disk_faults()
        return
    k = f["kind"]
    if k == "alloc":
        c.fail_alloc_at, c.fail_alloc_len = f["at"], f["len"]
    elif k == "gsl":
        c.fail_gsl_at, c.fail_alloc_len = f["at"], f["len"]
    elif k == "np":
        S.npfill.set_fail(f["at"], f["len"])
    elif k in ("w", "kill"):
        S.disk_faults(w=f["at"], wk=f["wk"], frac=f["frac"])
    elif k == "r":
        S.disk_faults(r=f["at"], rk=f["rk"], frac=f["frac"])
    elif k == "o":
        S.disk_faults(o=f["at"])
    elif k == "c":
        S.disk_faults(c=f["at"])
    elif k == "cap":
        S.disk_faults(cap=f["cap"])
    elif k == "small":
        S.disk_faults(small=f["small"])


def disarm():
    """What was met while armed."""
    c = S.rt.simrt_config().contents
    d = S.disk_counts()
    n = dict(alloc=S.rt.simrt_counter(0), gsl=S.rt.simrt_counter(1), np=S.npfill.calls(),
             npf=S.npfill.failed(), w=d["w"], r=d["r"], o=d["o"], c=d["c"])
    c.fail_alloc_at = c.fail_gsl_at = -1
    c.fail_alloc_len = 1
    S.npfill.set_fail(-1, 1)
    S.disk_faults()
    return n


def do_faulted(lv, call, f):
    """(outcome, counters) of one call under a fault."""
    k = f["kind"]
    if k == "intr":
        it = thr.Interrupt(f.get("at", -1))

        def go():
            try:
                return it.run(call)
            except KeyboardInterrupt:
                return "int", it.where
        r = go()
        return r, dict(intr=it.n, fired=it.where is not None, swallowed_in_del=it.in_del, where=it.where)
    if k == "kill" and "at" in f:
        def child():
            arm(f)
            return call()
        o = S.run_forked(child, 60)
        disarm()
        r = o.value if o.status == "ok" else (o.status, o.detail)
        return r, dict(killed=o.status == "killed")
    lv.scribble()
    lv.w.strict = bool({"at", "cap", "small"} & set(f))
    arm(f)
    lost = S.rt.simrt_report().contents.wend_lost
    try:
        r = call()
    finally:
        n = disarm()
        n["wend_lost"] = S.rt.simrt_report().contents.wend_lost-lost
        lv.w.strict = False
        lv.scribble()
    return r, n


def probe(lv, names):
    gc.collect()
    return {n: [lv.do(["ask", n, q]) for q in hist.asks(n, lv.w.spec)] for n in names}


def fload(lv, n, f, ref=None):
    """What a new object loaded from this file answers, also once changed.
    Given what an object loaded from an intact file saves, notes whether this
    one saves just that."""
    x = {"W": "w", "C": "c", "V": "v", "D": "d"}[f[0]]+"?"
    lv.x.pop(x, None)
    r = lv.do(["load", x, f, 1 if x[0] == "w" else 0])
    p = [lv.do(["ask", x, q]) for q in hist.asks(x, lv.w.spec)] if r[0] == "ok" else None
    t = None
    if p and ref and rewritten(lv, x) != ref:
        p.append(1)
    if p and x[0] == "w":
        t = [lv.do(u[:1]+[x]+u[1:]) for u in then(lv.w.spec)]
        t.append([lv.do(["ask", x, q]) for q in hist.asks(x, lv.w.spec)])
    lv.x.pop(x, None)
    return r, p, t


def rewritten(lv, n):
    """What the object holds: the file it saves."""
    lv.scribble()
    if lv.do(["save", n, "again"])[0] != "ok":
        return None
    return S.disk_get(lv.path("again"))


def sweep(lv, s):
    """One file cut, read or saved many times over, each time with another
    fault. Reading goes to a throw-away object."""
    what, op, seed, n = s[1:5]
    rng = Rnd(seed)
    p = lv.path(op[2])
    out = []
    asked = 0

    def look():
        nonlocal asked
        asked += 1
        if asked > 8:
            return None, None
        a = [lv.do(["ask", op[1], q]) for q in hist.asks(op[1], lv.w.spec)]
        t = None
        if whole and rewritten(lv, op[1]) != whole:
            a.append(1)
        if op[1][0] == "w" and op[3]:
            t = [lv.do(u[:1]+[op[1]]+u[1:]) for u in then(lv.w.spec)]
            t.append([lv.do(["ask", op[1], q]) for q in hist.asks(op[1], lv.w.spec)])
        return a, t
    if what == "save":
        lv.obj(op[1])
        r, cnt = do_faulted(lv, lambda: lv.do(op), dict(kind="w"))
        good = ref = None
        if r[0] == "ok":
            good = S.disk_get(p)
            cnt["size"] = len(good or b"")
            out.append((None, r, 0, fload(lv, op[1], op[2])))
            x = op[1][0]+"?"
            ref = rewritten(lv, x) if lv.do(["load", x, op[2], 1 if x[0] == "w" else 0])[0] == "ok" else None
            lv.x.pop(x, None)
            lv.scribble()
            if lv.do(op)[0] != "ok" or S.disk_get(p) != good:
                good = ref = None
    else:
        d = S.disk_get(p)
        if d is None:
            return []
        lv.x.pop(op[1], None)
        whole = rewritten(lv, op[1]) if lv.do(op)[0] == "ok" else None
        if whole != rewritten(lv, op[1]):
            whole = None
        lv.x.pop(op[1], None)
        if what == "read":
            r, cnt = do_faulted(lv, lambda: lv.do(op), dict(kind="r"))
    for j in range(n):
        if what == "cut":
            f = draw_cut(rng) if rng.random() < 0.5 else 2880*rng.randint(1, max(1, len(d)//2880))
        else:
            k = rng.choice(["r", "r", "r", "o", "small"]) if what == "read" else rng.choice(
                ["w", "w", "w", "o", "c", "cap", "cap", "small"])
            if k == "cap" and "size" not in cnt:
                k = "w"
            f = aim(rng, [None, None, dict(kind=k)], cnt)[2]
        if len(s) > 5 and s[5] != j:
            continue
        if what == "save":
            r, m = do_faulted(lv, lambda: lv.do(op), f)
            if r[0] == "ok" and good and S.disk_get(p) == good:
                out.append((f, r, 0, None))
                continue
            fl = fload(lv, op[1], op[2], ref if r[0] == "ok" else None) if r[0] == "ok" or rng.random() < 0.3 else (
                ("exc",), None, None)
            out.append((f, r, m.get("wend_lost", 0), fl))
            continue
        lv.x.pop(op[1], None)
        if what == "cut":
            S.disk_put(p, cut_at(d, f))
            r = lv.do(op)
        else:
            r, _ = do_faulted(lv, lambda: lv.do(op), f)
        out.append((f, r)+(look() if r[0] == "ok" else (None, None)))
    if what == "cut":
        S.disk_put(p, d)
    lv.x.pop("x?", None)
    if what != "save":
        lv.x.pop(op[1], None)
    return out


def then(spec):
    """Changes to a loaded workspace."""
    return [["bins", list(spec["B"])[-1]], ["beams", 1, 2, "ok"]]


def run_case(case, cfg, timeout=150):
    spec = case["spec"]

    def job():
        gc.freeze()
        lv = hist.Live(spec)
        w = lv.w
        out = []
        sett0 = ops.settings()
        for s in case["steps"]:
            e = {}
            made = list(w.made)
            if s[0] == "cut":
                p = lv.path(s[1])
                d = S.disk_get(p)
                if d is not None:
                    S.disk_put(p, cut_at(d, s[2]))
            elif s[0] == "sweep":
                e["all"] = sweep(lv, s)
                if s[1] == "save":
                    e["again"] = lv.do(s[2])
                    e["tgt"] = probe(lv, [s[2][1]])[s[2][1]]
            elif s[0] == "op":
                e["got"] = lv.do(s[1])
                if s[1][0] == "load" or (e["got"][0] == "exc" and s[1][0] in hist.MUT):
                    e["tgt"] = probe(lv, [s[1][1]])[s[1][1]]
            elif s[0] == "req":
                e["got"], e["made"] = w.do(s[1]), made
            elif s[0] == "fault":
                lv.obj(s[1][1])
                others = sorted(lv.x)
                e["got"], e["n"] = do_faulted(lv, lambda: lv.do(s[1]), s[2])
                e["after"] = probe(lv, others)
                if s[1][0] == "save" and s[1][2] != "nodir":
                    e["file"] = fload(lv, s[1][1], s[1][2])
                e["again"] = lv.do(s[1])
                e["after2"] = probe(lv, [s[1][1]])
                if s[1][0] == "save" and s[1][2] != "nodir":
                    e["file2"] = fload(lv, s[1][1], s[1][2])
                    e["n"]["size"] = len(S.disk_get(lv.path(s[1][2])) or b"")
            elif s[0] == "freq":
                e["made"] = made
                e["got"], e["n"] = do_faulted(lv, lambda: w.do(s[1]), s[2])
                e["made2"] = list(w.made)
                e["again"] = w.do(s[1])
                names = {m[0] for m in calls.relevant(spec, s[1], w.made)}
                e["made3"] = list(w.made)
                e["probes"] = [(q, w.do(q)) for q in ops.probes(spec, sorted(names))]
                gc.collect()
            e["open"] = S.rt.simrt_disk_open()
            e["set"] = ops.settings()
            out.append(e)
        fin = probe(lv, sorted(lv.x))
        return out, fin, w.changed_arrays(), w.changed_results(), sett0
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


# -------------------------------------------------------------------- judging
class Ctx:
    def __init__(self, spec):
        self.cache = {}
        self.orc = hist.Oracle(spec)

    def runs(self):
        return len(self.cache)+self.orc.runs


def sig_of(o):
    if o.status == "event":
        return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
    return o.status, "", "ended with %s %s" % (o.status, o.detail[:400])


def team_oom(o):
    """An allocation failed inside a parallel region with several threads, and
    the error cannot leave it."""
    return o.status == "event" and o.rep.get("ev_kind") == THROW_IN_TEAM and o.rep.get("lastfail_inteam", 0) > 1


def probe_finding(res, deadline):
    """Meet the known finding once in every run, whatever the seed."""
    rng = Rnd(20)
    while True:
        case = gen_case(rng, "E01")
        w = case["spec"]["W"]
        if "W0" in w and not w["W0"]["kw"].get("l_toeplitz"):
            break
    d = w["W0"]
    case["steps"] = [["fault", ["comp", "w0", d["f1"], d["f2"], d["b"], dict(normalization="MASTER")], dict(kind="alloc")]]
    ctx = Ctx(case["spec"])
    cfg = dict(REF, nthreads=4)
    o = run_case(case, cfg)
    if o.status != "ok":
        return
    n = o.value[0][0]["n"]["alloc"]
    for at in range(n):
        c = dict(case, steps=[[case["steps"][0][0], case["steps"][0][1], dict(kind="alloc", at=at, len=1)]])
        o = run_case(c, cfg)
        res.evals += 1
        if team_oom(o) or time.monotonic() > deadline:
            report(res, "E01", judge(c, o, ctx), o, c, cfg)
            return


def probe_wend(res):
    """The same for the write that fails once while CFITSIO closes a header."""
    rng = Rnd(1)
    while True:
        case = gen_case(rng, "D01", True)
        d = case["spec"]["W"].get("W0")
        if d and all(case["spec"]["F"][d[f]]["spin"] for f in ("f1", "f2")) and not d["kw"].get("l_toeplitz"):
            break
    case["steps"] = [["op", ["comp", "w0", d["f1"], d["f2"], d["b"], dict(normalization="MASTER")]]]+[
        ["fault", ["save", "w0", "Wf0"], dict(kind="w", at=i, wk=6, frac=0)] for i in range(10)]
    o = run_case(case, REF)
    res.evals += 1
    report(res, "D01", judge(case, o, Ctx(case["spec"])), o, case, REF)


def report(res, pid, v, o, case, cfg):
    if v is None:
        return
    sg = dict(kind=v[0], what=v[1])
    if team_oom(o):
        sg["team_oom"] = True
    res.violation(sg, v[2], dict(property=pid, engine="stage", case=case, cfg=cfg))


def judge(case, o, ctx):
    spec, orc = case["spec"], ctx.orc
    if o.status != "ok":
        return sig_of(o)
    out, fin, arrs, res, sett0 = o.value
    st, files = {}, {}
    sett = ops.settings()

    def fits(n, pr, state):
        """First disagreement of these answers with a state, or None."""
        for q, g in zip(hist.asks(n, spec), pr):
            d = hist.answers_as(spec, orc, n, q, g, state)
            if d:
                return d
        return None

    def changed(t, state):
        """The same after changes to a loaded workspace."""
        if not t:
            return None
        for u, g in zip(then(spec), t):
            if g[0] != "ok":
                return "raises", "%s on the loaded workspace raised %s (%s), state %s" % (u, g[1], g[2], state)
        u = then(spec)
        d = fits("w?", t[-1], dict(state, bins=u[0][1], beams=u[1][1:3]))
        return d and (d[0], "changed by %s, " % (u,)+d[1])

    def one_of(n, pr, states):
        """A state all the answers agree with; or the disagreement."""
        bad = None
        for s in states:
            d = fits(n, pr, s)
            if d is None:
                return s, None
            bad = bad or d
        return None, bad

    def flagged(n, s, flag):
        """The state after loading s with this flag."""
        s = dict(s)
        if n[0] == "w":
            s["unb"] = bool(flag)
        elif n[0] == "c":
            s["only0"] = int(bool(s["only0"] or flag))
        return s

    def request(q, got, made, what, i, text=True):
        ref = calls.fresh(spec, q, calls.relevant(spec, q, made), sett, ctx.cache)
        if ref.status != "ok":
            return "single "+ref.status, q[0], "on fresh objects %s: %s %s" % (
                q, ref.detail[:200], ref.rep.get("ev_text", ""))
        d = ops.differ(ref.value, got)
        return d and (what+d[0], q[0], "step %d %s: %s" % (i, q, d[1]))

    def swept(s, e, where):
        op = s[2]
        n = op[1]
        if s[1] == "save":
            old = st.get(n)
            must = hist.advance(spec, st, {}, op, orc)[0]
            prev = files.get(op[2], ([], True))[0]
            for f, r, lost, fl in e["all"]:
                if fl is None:      # the very file of a save without faults
                    continue
                fr, p, t = fl
                if r[0] == "ok":
                    if not must:
                        return "accepted", "save", where+"%s: returned normally although it cannot be done" % (f,)
                    bad = (fits(n[0]+"?", p, old) or changed(t, old) or len(p) > len(hist.asks(n, spec)) and (
                        "", "another file is saved again than from the intact file")) if fr[0] == "ok" else ("", "the file does not load: %s %s" % fr[1:3])
                    if bad and lost:
                        return WEND, "save", where+"a write failed once, inside ffwend; the file lacks what was written"
                    if bad:
                        return "unfaithful file", "save", where+"%s: returned normally but from the file %s" % (f, bad[1])
                elif fr[0] == "ok":
                    x, bad = one_of(n[0]+"?", p, ([old] if old else [])+prev) if old or prev else (None, ("", "content nobody saved"))
                    bad = bad or changed(t, x)
                    if bad:
                        return "damaged file", "save", where+"%s: raised and left a file that loads with other content: %s" % (f, bad[1])
            if must and e["again"][0] != "ok":
                return "repeat raises", "save", where+"without a fault it raised %s (%s)" % e["again"][1:3]
            d = fits(n, e["tgt"], old)
            if d:
                return "after failure", "save", where+"afterwards "+d[1]
            if must:
                files[op[2]] = ([dict(old)], True)
            return None
        fs, sure = files.get(op[2], ([], True))
        for f, r, p, t in e["all"]:
            if r[0] != "ok":
                continue
            if not fs:
                return "accepted", "load", where+"%s: loaded a file that nobody saved" % (f,)
            if p is None:
                continue
            x, bad = one_of(n, p, [flagged(n, z, op[3]) for z in fs])
            bad = bad or changed(t, x)
            if not bad and len(p) > len(hist.asks(n, spec)):
                bad = "", "saved again, the file is another one than saved from the intact file"
            if bad:
                return "damaged file", "load", where+"%s: %s" % (f, bad[1])
        return None

    for i, (s, e) in enumerate(zip(case["steps"], out)):
        where = "step %d %s: " % (i, s)
        if e["open"] and not any(q[0] in ("fault", "freq") and q[2]["kind"] in ("intr", "alloc", "gsl", "np")
                                 for q in case["steps"][:i+1]):
            return "file left open", "disk", where+"afterwards %d files are still open" % e["open"]
        if e["set"] != sett0:
            return "settings changed", s[1][0], where+"afterwards the defaults are %s instead of %s" % (e["set"], sett0)
        if s[0] == "cut":
            if s[1] in files:
                files[s[1]] = (files[s[1]][0], False)
            continue
        if s[0] == "sweep":
            v = swept(s, e, where)
            if v:
                return v
            continue
        if s[0] == "req":
            v = request(s[1], e["got"], e["made"], "", i)
            if v:
                return v
            continue
        if s[0] == "freq":
            g = e["got"]
            if g[0] == "ok" or (g[0] == "exc" and s[2]["kind"] == "intr"):
                v = request(s[1], g, e["made2"], "faulted ", i)
                if v:
                    return v
                if s[2]["kind"] == "intr" and e["n"]["fired"] and not e["n"]["swallowed_in_del"]:
                    return "interrupt lost", s[1][0], where+"the interruption in %s did not reach the caller" % e["n"]["where"]
            v = request(s[1], e["again"], e["made3"], "repeated ", i)
            if v:
                return v
            for q, a in e["probes"]:
                v = request(q, a, e["made3"], "later ", i)
                if v:
                    return v
            continue
        op = s[1]
        n, got = op[1], e["got"]
        old = st.get(n)
        if op[0] == "new":
            st[n] = None
            continue
        if op[0] == "ask" and s[0] == "op":
            d = hist.answers_as(spec, orc, n, op[2], got, old)
            if d:
                return d[0], op[2], where+d[1]
            continue
        kin = {f: v for f, v in files.items() if f[0].lower() == n[0]}
        sure = {f: v[0][0] for f, v in kin.items() if v[1]}
        must, new, died = hist.advance(spec, st, sure, op, orc)
        if died:
            return died
        if op[0] == "ask":
            must = hist.allowed(n, op[2], old)
        unsure = op[0] == "load" and op[2] in kin and not kin[op[2]][1]
        cand = [flagged(n, x, op[3]) for x in files[op[2]][0]] if unsure else [new]
        if s[0] == "op":
            ok = got[0] == "ok"
            if unsure:
                # a file that may be incomplete: exact content or an exception
                a = cand if ok else [old, None]
                x, bad = one_of(n, e["tgt"], a)
                if bad:
                    return "damaged file" if ok else "after failure", op[0], where+bad[1]
                st[n] = x
                continue
            if must and not ok:
                return "raises", op[0], where+"raised %s (%s), state %s" % (got[1], got[2], old)
            if ok and not must:
                return "accepted", op[0], where+"returned normally although it cannot be done (state %s)" % (old,)
            if ok:
                if op[0] == "save":
                    files[op[2]] = ([dict(old)], True)
                st[n] = new
                if "tgt" in e:
                    d = fits(n, e["tgt"], new)
                    if d:
                        return d[0], op[0], where+d[1]
            elif op[0] in hist.MUT:
                x, bad = one_of(n, e["tgt"], [old, None] if op[0] in ("comp", "load") else [old])
                if bad:
                    return "after failure", op[0], where+bad[1]
                st[n] = x
            continue
        # ---- a faulted operation
        kind = s[2]["kind"]
        intr = kind == "intr"
        ok = got[0] == "ok"
        if kind == "kill" and got[0] not in ("ok", "exc", "killed"):
            return "crash", op[0], where+"%s %s" % got[:2]
        if ok and not must and not unsure:
            return "accepted", op[0], where+"returned normally although it cannot be done (state %s)" % (old,)
        if intr:
            if ok and e["n"]["fired"] and not e["n"]["swallowed_in_del"]:
                return "interrupt lost", op[0], where+"the interruption in %s did not reach the caller" % e["n"]["where"]
            if op[0] != "ask" and got[0] == "exc" and must and not e["n"]["fired"]:
                return "raises", op[0], where+"raised %s (%s), state %s" % (got[1], got[2], old)
        if op[0] == "ask" and (ok or (intr and not e["n"]["fired"])):
            d = hist.answers_as(spec, orc, n, op[2], got, old)
            if d:
                return "faulted "+d[0], op[2], where+d[1]
        # the others are as they were
        for m, pr in sorted(e["after"].items()):
            if m != n:
                d = fits(m, pr, st.get(m))
                if d:
                    return "other object", op[0], where+"afterwards "+d[1]
        pr = e["after"][n]
        mut = op[0] in hist.MUT
        if intr:
            for q, g in zip(hist.asks(n, spec), pr):
                if g[0] == "exc":
                    continue
                ds = [hist.answers_as(spec, orc, n, q, g, x) for x in ([old]+cand if mut and must else [old])]
                if all(ds):
                    return "after interruption", op[0], where+"(%s) afterwards %s" % (e["n"]["where"], ds[0][1])
            base = old
        else:
            if kind == "kill":
                a = [old]
            elif ok and mut:
                a = cand
            elif mut and op[0] in ("comp", "load"):
                a = [old, None]
            else:
                a = [old]
            base, bad = one_of(n, pr, a)
            if bad:
                return "after failure" if not ok else "faulted result", op[0], where+"afterwards "+bad[1]
        if op[0] == "save" and "file" in e:
            r, p, t = e["file"]
            prev = files.get(op[2], ([], True))
            if ok:
                if e["n"].get("wend_lost") and (r[0] != "ok" or fits(n[0]+"?", p, old)):
                    return WEND, "save", where+"a write failed once, inside ffwend; the file lacks what was written"
                if r[0] != "ok":
                    return "incomplete file", "save", where+"returned normally but the file does not load: %s %s" % r[1:3]
                d = fits(n[0]+"?", p, old) or changed(t, old)
                if d:
                    return "unfaithful file", "save", where+"returned normally but from the file "+d[1]
            elif r[0] == "ok":
                a = ([old] if old else [])+prev[0]
                x, bad = one_of(n[0]+"?", p, a) if a else (None, ("", "content nobody saved"))
                bad = bad or changed(t, x)
                if bad:
                    return "damaged file", "save", where+"raised and left a file that loads with other content: "+bad[1]
        # once more, undisturbed
        ag = e["again"]
        if unsure:
            x, bad = one_of(n, e["after2"][n], cand if ag[0] == "ok" else [base, None])
            if bad:
                return "repeated", op[0], where+"repeated: "+bad[1]
            st[n] = x
            continue
        must2 = must
        if op[0] != "ask" and must2 and ag[0] != "ok":
            return "repeat raises", op[0], where+"repeated, it raised %s (%s); state %s" % (ag[1], ag[2], base)
        if ag[0] == "ok" and not must2:
            return "accepted", op[0], where+"repeated, it returned normally although it cannot be done"
        if op[0] == "ask":
            d = hist.answers_as(spec, orc, n, op[2], ag, old)
            if d:
                return "repeated "+d[0], op[2], where+"repeated: "+d[1]
        if ag[0] == "ok":
            x, bad = one_of(n, e["after2"][n], [new])
            st[n] = new
        else:
            a = [old]
            if mut and op[0] in ("comp", "load"):
                a = [old, None]
            x, bad = one_of(n, e["after2"][n], a)
            st[n] = x
        if bad:
            return "repeated", op[0], where+"after repeating it "+bad[1]
        if op[0] == "save" and "file2" in e and ag[0] == "ok":
            r, p, t = e["file2"]
            if r[0] != "ok":
                return "incomplete file", "save", where+"repeated, the file does not load: %s %s" % r[1:3]
            d = fits(n[0]+"?", p, old) or changed(t, old)
            if d:
                return "unfaithful file", "save", where+"repeated, from the file "+d[1]
            files[op[2]] = ([dict(old)], True)
            if kind == "kill" and e["n"].get("killed"):
                pass
    for n, pr in sorted(fin.items()):
        d = fits(n, pr, st.get(n))
        if d:
            return "final "+d[0], n[0], "at the end "+d[1]
    if arrs:
        return "input changed", arrs[0], "the caller's array %s was modified" % arrs[0]
    if res:
        return "result changed", res[0][0], "answer '%s' of %s changed after it was handed out" % (res[1], res[0])
    return None


# ---------------------------------------------------------------------- tasks
def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    if pid == "E01" and i == 0:
        probe_finding(res, deadline)
    if pid == "D01" and i == 0:
        probe_wend(res)
    case = gen_case(rng, pid)
    ctx = Ctx(case["spec"])
    cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
    if rng.random() < 0.1:
        cfg = dict(draw_cfg(rng, 2e5), record=0, step_cap=0)
    counts = None
    K = 8 if tier == "quick" else 24
    for k in range(K):
        if k and time.monotonic() > deadline:
            break
        c = case
        if counts is not None:
            c = dict(case, steps=aimed(rng, case["steps"], counts, k))
        o = run_case(c, cfg)
        r0 = ctx.runs()
        v = judge(c, o, ctx)
        res.evals += 1+ctx.runs()-r0
        res.fault(o.rep)
        res.distinct.add(sub(repr(c["steps"]), case["spec"]["ds"]))
        res.count["steps"] += len(c["steps"])
        if o.status == "ok":
            for s, e in zip(c["steps"], o.value[0]):
                if s[0] in ("fault", "freq") and counts is not None:
                    n = e["n"]
                    kd = s[2]["kind"]
                    hit = n.get("fired") or n.get("killed") or n.get("npf") or (
                        "at" in s[2] and kd in n and n[kd] > s[2]["at"]) or kd in ("cap", "small")
                    res.count["inj_%s%s" % (kd, "" if hit else "_missed")] += 1
                    if e["got"][0] == "ok":
                        res.count["inj_%s_absorbed" % kd] += 1
                if s[0] == "cut":
                    res.count["inj_cut"] += 1
                if s[0] == "sweep":
                    res.count["inj_%s_sweep" % s[1]] += len(e["all"])
        if v is not None:
            report(res, pid, v, o, c, cfg)
            if not team_oom(o):
                break
        if counts is None:
            if o.status != "ok":
                break
            counts = o.value[0]
    if i < 4:
        res.samples.append(dict(case=c, schedule=cfg))
    return res


def replay(rd):
    return judge(rd["case"], run_case(rd["case"], rd["cfg"]), Ctx(rd["case"]["spec"]))


def minimise(rd, sig, deadline):
    ctx = Ctx(rd["case"]["spec"])

    def bad(steps, cfg=None):
        c = dict(rd["case"], steps=steps)
        k = judge(c, run_case(c, cfg or rd["cfg"]), ctx)
        return k is not None and k[0] == sig["kind"]
    if not bad(rd["case"]["steps"]):
        return rd
    cfg = rd["cfg"]
    if bad(rd["case"]["steps"], REF):
        cfg = REF
    steps = ddmin(rd["case"]["steps"], lambda x: bad(x, cfg), deadline)
    for i, s in enumerate(steps):
        if s[0] != "sweep":
            continue
        for j in range(s[4]):
            x = steps[:i]+[s[:5]+[j]]+steps[i+1:]
            if time.monotonic() < deadline and bad(x, cfg):
                steps = x
                break
    return dict(rd, case=dict(rd["case"], steps=steps), cfg=cfg)
