"""Check driver: seeded tasks over worker processes, minimisation, replay
files, known findings and evidence. Nothing in here decides anything about a
simulated run except its seed."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")


def sub(*keys):
    """Derive a 63-bit seed from the keys."""
    h = hashlib.blake2b(repr(keys).encode(), digest_size=8).digest()
    return struct.unpack("<Q", h)[0] >> 1


class Rnd(random.Random):
    def __init__(self, *keys):
        super().__init__(sub(*keys))

    def chance(self, p):
        return self.random() < p


class Result:
    """What one task did."""

    def __init__(self):
        self.evals = 0          # simulated executions
        self.steps = 0          # simulated time: scheduling points passed
        self.distinct = set()   # hashes of distinct non-trivial executions
        self.count = Counter()  # probes and fault counters
        self.samples = []
        self.viol = []          # dict(sig=, msg=, replay=)
        self.known = []

    def fault(self, rep):
        """Account for what one simulated execution met."""
        c = self.count
        self.steps += rep.get("steps", 0)
        for k in ("switches", "hot_preempt", "stalls", "dyn_chunks",
                  "criticals", "barriers", "n_alloc_failed", "n_gsl_failed",
                  "f_eio_w", "f_enospc", "f_short_w", "f_eio_r", "f_short_r",
                  "f_kill", "f_torn", "f_open_fail", "f_close_fail"):
            v = rep.get(k, 0)
            if v:
                c[k] += v

    def violation(self, sig, msg, replay):
        self.viol.append(dict(sig=sig, msg=msg, replay=replay))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def match_known(v, known):
    """A finding matches when every key of its `match` equals the violation's."""
    for k in known:
        if all(v["sig"].get(a) == b for a, b in k["match"].items()):
            return k
    return None


# ------------------------------------------------------------------- workers
def _worker(w, wfd, pid, engine, seed, tier, deadline, nw, maxtasks):
    def send(kind, obj):
        b = pickle.dumps((kind, obj), protocol=4)
        os.write(wfd, struct.pack("<I", len(b)))
        while b:
            n = os.write(wfd, b[:1 << 16])
            b = b[n:]
    i = w
    while time.monotonic() < deadline and i < maxtasks:
        try:
            r = engine.task(pid, i, sub(seed, pid, i), tier, deadline)
            send("result", (i, r))
        except BaseException:
            send("error", (i, traceback.format_exc()))
            return
        i += nw
    send("done", w)


class HarnessError(Exception):
    pass


def explore(pid, engine, seed, tier, seconds, nw=8, maxtasks=1 << 30,
            known=()):
    """Run tasks until the time is used up or a violation is found."""
    tot = Result()
    tot.tasks = 0
    t0 = time.monotonic()
    deadline = t0 + seconds
    kids = {}
    for w in range(nw):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.close(r)
                import simlib
                simlib.private()
                _worker(w, wr, pid, engine, seed, tier, deadline, nw,
                        maxtasks)
            finally:
                os._exit(0)
        os.close(wr)
        kids[r] = [pid_, b"", False]
    first = None
    hard = deadline + 240
    knownhits = {}
    try:
        while kids:
            now = time.monotonic()
            if now > hard:
                raise HarnessError("workers did not finish in time")
            if first is not None and now > first + 1.0:
                break
            rl, _, _ = select.select(list(kids), [], [], 0.5)
            for fd in rl:
                b = os.read(fd, 1 << 20)
                k = kids[fd]
                if not b:
                    os.close(fd)
                    del kids[fd]
                    _, st = os.waitpid(k[0], 0)
                    if not k[2]:
                        raise HarnessError("a worker died (status %d)" % st)
                    continue
                k[1] += b
                while len(k[1]) >= 4:
                    n, = struct.unpack("<I", k[1][:4])
                    if len(k[1]) < 4 + n:
                        break
                    kind, obj = pickle.loads(k[1][4:4 + n])
                    if kind == "done":
                        k[2] = True
                    k[1] = k[1][4 + n:]
                    if kind == "error":
                        raise HarnessError("task %d: %s" % obj)
                    if kind != "result":
                        continue
                    i, r = obj
                    tot.tasks += 1
                    tot.evals += r.evals
                    tot.steps += r.steps
                    tot.distinct |= r.distinct
                    tot.count.update(r.count)
                    if len(tot.samples) < 6:
                        tot.samples += r.samples[:2]
                    for v in r.viol:
                        v["task"] = i
                        kf = match_known(v, known)
                        if kf is not None:
                            knownhits[kf["id"]] = knownhits.get(kf["id"], 0) + 1
                            continue
                        tot.viol.append(v)
                        if first is None:
                            first = time.monotonic()
    finally:
        for fd, k in kids.items():
            try:
                os.killpg(k[0], signal.SIGKILL)
            except OSError:
                try:
                    os.kill(k[0], signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(k[0], 0)
            except OSError:
                pass
    tot.wall = time.monotonic() - t0
    tot.knownhits = knownhits
    return tot


def write_replay(rd, tag=""):
    os.makedirs(REPLAYS, exist_ok=True)
    b = json.dumps(rd, sort_keys=True, default=_js)
    h = hashlib.blake2b(b.encode(), digest_size=6).hexdigest()
    p = os.path.join(REPLAYS, "%s-%s%s.json" % (rd["property"], h, tag))
    with open(p, "w") as f:
        f.write(json.dumps(rd, indent=1, default=_js))
    return p


def _js(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


def ddmin(items, bad, deadline):
    """Smallest sublist (found within the time) for which bad(sub) holds."""
    n = 2
    items = list(items)
    if items and bad([]):
        return []
    while len(items) >= 2 and time.monotonic() < deadline:
        ch = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + ch:]
            if bad(cand):
                items = cand
                n = max(n - 1, 2)
                some = True
            else:
                i += ch
        if not some:
            if ch == 1:
                break
            n = min(len(items), n * 2)
    return items
