"""The numbers of every call arrive in arrays of other layouts, which the caller
overwrites or frees as soon as the call is over: no answer may change."""
import gc

import numpy as np

import hist
import leak
import ops
import simlib as S
import workloads as W
from harness import Result, Rnd, ddmin, sub
from sched import REF, draw_cfg

NARROW = {"f": ["f4"], "i": ["i2", "i4"]}
WHOLE = ["i2", "i4", "i8", "u1", "f2", "f4", "?"]
LAYOUTS = ["plain", "strided", "reversed", "fortran", "swapped", "unaligned", "readonly", "inner", "list", "outer", "narrow", "narrow"]


def lay(a, how, r, short=0):
    """(array with the numbers of a, memory that carries it)"""
    a = np.array(a)
    if how == "strided":
        b = np.full(a.shape[:-1]+(2*a.shape[-1]+1,), 7).astype(a.dtype)
        v = b[..., 1::2]
    elif how == "outer":            # only the first axis has gaps
        b = np.full((2*a.shape[0],)+a.shape[1:], 7).astype(a.dtype)
        v = b[::2]
    elif how == "reversed":
        b = np.empty_like(a)
        v = b[(slice(None, None, -1),)*a.ndim]
    elif how == "fortran":
        b = np.empty(a.shape, dtype=a.dtype, order="F")
        v = b
    elif how == "swapped":
        b = np.empty(a.shape, dtype=a.dtype.newbyteorder())
        v = b
    elif how == "narrow":           # the numbers fit
        fit = WHOLE if short == 2 and a.dtype.kind == "f" else NARROW[a.dtype.kind]
        fit = [t for t in fit if np.array_equal(a.astype(t).astype(a.dtype), a)]
        b = np.empty(a.shape, dtype=fit[int(r.integers(len(fit)))])
        v = b
    elif how == "unaligned":
        b = np.zeros(a.nbytes+16, dtype=np.uint8)
        o = int(r.integers(1, 8))
        v = np.ndarray(a.shape, dtype=a.dtype, buffer=b, offset=o)
    elif how == "inner":            # a part of something larger
        b = np.full(tuple(n+2 for n in a.shape), 7).astype(a.dtype)
        v = b[(slice(1, -1),)*a.ndim]
    else:
        b = np.empty_like(a)
        v = b
    v[...] = a
    return v, b


def single(a, short):
    """Numbers of single precision, or whole numbers."""
    if short == 2 and a.dtype.kind == "f" and a.size and np.isfinite(a).all():
        return np.ceil(a) if a.min() >= 0 and a.max() <= 2 else np.rint(a)
    return a.astype("f4").astype(a.dtype) if a.dtype.kind == "f" else a


class Plain:
    def __init__(self, short):
        self.short = short

    def __call__(self, a, seq=False, exact=False):
        return single(np.asarray(a), self.short) if self.short else a


class Lender:
    def __init__(self, short, layouts, scribble, seed):
        self.short = short
        self.layouts, self.scribble = layouts, scribble
        self.r = np.random.default_rng(seed)
        self.out = []
        self.used = {}
        self.bad = None

    def __call__(self, a, seq=False, exact=False):
        a = np.asarray(a)
        if not a.ndim or not a.size:
            return a
        how = self.layouts[int(self.r.integers(len(self.layouts)))]
        if how == "list" and not seq or how == "narrow" and (exact or not self.short or a.dtype.kind not in NARROW):
            how = "plain"
        if self.short:
            a = single(a, self.short)
        self.used[how] = self.used.get(how, 0)+1
        v, b = lay(a, how, self.r, self.short)
        self.out.append((v, b, a.copy(), b.tobytes(), how))
        if how == "readonly":
            v = v.view()
            v.flags.writeable = False
        if how == "list":
            return list(v)
        return v

    def over(self):
        """The call is over: look at the arrays, then use them for something else."""
        for v, b, a, t, how in self.out:
            if b.tobytes() != t:
                self.bad = self.bad or how
            if self.scribble == "nan" and b.dtype.kind == "f":
                b[...] = np.nan
            elif self.scribble != "keep":
                b[...] = self.r.integers(1, 100, b.shape)
        if self.scribble != "keep":
            self.out = []


def run_case(case, lend, cfg, timeout=200):
    """Outcome of every step; what was modified."""
    def job():
        gc.freeze()
        w = ops.World(case["spec"])
        lv = hist.Live(case["spec"], w)
        W.lend = Plain(case["short"])
        le = None
        if lend is not None:
            le = W.lend = Lender(case["short"], *lend)
            lv.scribble = lambda: None      # le does
        out = []
        for s in case["steps"]:
            out.append(w.do(s[1]) if s[0] == "req" else lv.do(s[1]))
            if le:
                le.over()
        return out, le and le.bad, w.changed_results(), le and le.used
    S.disk_new()
    S.configure(**cfg)
    return S.run_forked(job, timeout)


def judge(case, ref, o):
    if o.status == "event":
        return "event", str(o.rep.get("ev_kind")), o.rep.get("ev_text", "")
    if o.status != "ok":
        return o.status, "", "ended with %s %s" % (o.status, o.detail[:300])
    for i, (s, a, b) in enumerate(zip(case["steps"], ref.value[0], o.value[0])):
        d = ops.differ(a, b)
        if d is not None:
            return d[0], s[1][0], "step %d %s %s" % (i, s, d[1].replace("fresh objects", "plain arrays of its own"))
    if o.value[1]:
        return "input changed", o.value[1], "an array of the caller (%s) was modified" % o.value[1]
    if o.value[2]:
        return "result changed", o.value[2][0][0], "answer '%s' of %s changed when the caller reused its arrays" % (
            o.value[2][1], o.value[2][0])
    return None


def task(pid, i, seed, tier, deadline):
    rng = Rnd(seed)
    res = Result()
    case = leak.gen_case(rng)
    case["short"] = [0, 0, 0, 0, 0, 0, 1, 1, 2, 2][case.pop("order") % 10]
    ref = run_case(case, None, REF)
    res.evals += 1
    if ref.status != "ok":
        # other properties speak about this
        res.count["references_failed"] += 1
        return res
    for n in range(3):
        lay_ = list(LAYOUTS) if n == 0 else rng.sample(LAYOUTS, rng.randint(1, 3))
        lend = [lay_, rng.choice(["nan", "nan", "other", "keep"]), rng.getrandbits(40)]
        cfg = dict(REF, fill=rng.choice([2, 3, 4]), seed=rng.getrandbits(40))
        if rng.random() < 0.2:
            cfg = dict(draw_cfg(rng, 2e5), record=0, step_cap=0)
        o = run_case(case, lend, cfg)
        res.evals += 1
        res.fault(o.rep)
        res.distinct.add(sub(repr(case["steps"]), case["spec"]["ds"], repr(lend)))
        if o.status == "ok":
            for k, v in o.value[3].items():
                res.count["layout_"+k] += v
            res.count["scribble_"+lend[1]] += 1
        v = judge(case, ref, o)
        if v is not None:
            res.violation(dict(kind=v[0], what=v[1]), v[2],
                          dict(property=pid, engine="carry", case=case, lend=lend, cfg=cfg))
            break
    for s in case["steps"]:
        res.count["%s_%s" % (s[0], s[1][0])] += 1
    if i < 4:
        res.samples.append(dict(case=case, lend=lend, schedule=cfg))
    return res


def replay(rd):
    ref = run_case(rd["case"], None, REF)
    if ref.status != "ok":
        return "reference", "", "with plain arrays: %s" % ref.detail[:200]
    return judge(rd["case"], ref, run_case(rd["case"], rd["lend"], rd["cfg"]))


def minimise(rd, sig, deadline):
    def bad(steps, lend=None, cfg=None):
        c = dict(rd["case"], steps=steps)
        ref = run_case(c, None, REF)
        if ref.status != "ok":
            return False
        k = judge(c, ref, run_case(c, lend or rd["lend"], cfg or rd["cfg"]))
        return k is not None and k[0] == sig["kind"]
    steps, lend, cfg = rd["case"]["steps"], rd["lend"], rd["cfg"]
    if not bad(steps):
        return rd
    if bad(steps, None, REF):
        cfg = REF
    if lend[1] != "keep" and bad(steps, [lend[0], "keep", lend[2]], cfg):
        lend = [lend[0], "keep", lend[2]]
    for x in ["plain"]+lend[0]:
        if bad(steps, [[x], lend[1], lend[2]], cfg):
            lend = [[x], lend[1], lend[2]]
            break
    steps = ddmin(steps, lambda x: bad(x, lend, cfg), deadline)
    return dict(rd, case=dict(rd["case"], steps=steps), cfg=cfg, lend=lend)
