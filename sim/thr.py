"""Simulated caller threads and interruptions.

Callers are real Python threads of which exactly one may run; at every
bytecode of the library's Python code (and wherever its C wrapper gives up the
interpreter lock) the seeded scheduler may hand over to another. An
interruption raises KeyboardInterrupt at one of the places where CPython
itself would deliver a signal: on entry of a function, after a call, at a
backward jump."""
import _thread
import dis
import os
import sys
import threading

mon = sys.monitoring
TOOL = 4
EV = mon.events
_dir = None
sim = None        # the scheduler in control, or None
intr = None       # the interruption plan, or None
_eligible = {}    # code -> bitmap of offsets where an interrupt may arrive


def watch(d):
    """Which directory holds the code whose bytecodes count."""
    global _dir
    _dir = d + os.sep
    mon.use_tool_id(TOOL, "nmtsim")
    mon.register_callback(TOOL, EV.INSTRUCTION, _instr)


def on():
    mon.set_events(TOOL, EV.INSTRUCTION)


def off():
    mon.set_events(TOOL, 0)


def _eligible_of(code):
    e = _eligible.get(code)
    if e is None:
        ok = set()
        prev = None
        for i in dis.get_instructions(code, adaptive=False):
            if prev is not None and (prev in ("RESUME", "JUMP_BACKWARD") or prev.startswith("CALL")
                                     and not prev.startswith("CALL_INTRINSIC")):
                ok.add(i.offset)
            if i.opname != "CACHE" and i.opname != "EXTENDED_ARG":
                prev = i.opname
            # the target of a backward jump
            if i.opname.startswith("JUMP_BACKWARD") and i.opname != "JUMP_BACKWARD_NO_INTERRUPT":
                ok.add(i.argval)
        e = _eligible[code] = ok
    return e


_stores = {}      # code -> offsets of the instructions that follow a store others may see
SHARED = ("STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR")


def _stores_of(code):
    e = _stores.get(code)
    if e is None:
        e, prev = set(), None
        for i in dis.get_instructions(code, adaptive=False):
            if prev in SHARED:
                e.add(i.offset)
            if i.opname not in ("CACHE", "EXTENDED_ARG"):
                prev = i.opname
        _stores[code] = e
    return e


def _instr(code, off_):
    if not code.co_filename.startswith(_dir):
        return mon.DISABLE
    if intr is not None:
        intr.at(code, off_)
    elif sim is not None:
        e = _stores.get(code)
        if e is None:
            e = _stores_of(code)
        sim.point(False, (code, off_) if off_ in e else None)


# ------------------------------------------------------------- caller threads
class Callers:
    """Run the jobs as threads under a seeded schedule.

    gap: mean number of scheduling points between switches; plan: explicit
    switches [(step, thread)] instead of seeded ones."""

    def __init__(self, jobs, rng, gap, plan=None, cap=3000000, after=0.):
        self.jobs = jobs
        self.n = len(jobs)
        self.rng = rng
        self.gap = gap
        self.after = after      # how often a switch follows a store
        self.stored = {}        # where in the code -> the steps that follow it there
        self.plan = list(plan) if plan is not None else None
        self.lk = [_thread.allocate_lock() for _ in jobs]
        self.over = _thread.allocate_lock()
        self.done = [False]*self.n
        self.cur = 0
        self.step = 0
        self.cap = cap
        self.trace = []
        self.res = [None]*self.n
        self.ids = {}
        self.arm()

    def arm(self):
        if self.plan is not None:
            self.next = self.plan[0][0] if self.plan else 1 << 62
        else:
            self.next = self.step+1+int(self.rng.expovariate(1.0/self.gap))

    def point(self, must=False, stored=None):
        me = self.ids.get(_thread.get_ident())
        if me is None or me != self.cur:
            return
        self.step += 1
        if stored:
            self.stored.setdefault(stored, []).append(self.step)
            if self.after and self.rng.random() < self.after:
                must = True
        if self.step < self.next and not must:
            return
        if self.plan is not None:
            to = None
            while self.plan and self.plan[0][0] <= self.step:
                to = self.plan.pop(0)[1]
            if must and (to is None or self.done[to]):
                to = self.other(me)
        else:
            to = self.other(me)
        self.arm()
        if to is None or to == me or self.done[to]:
            return
        self.trace.append((self.step, to))
        self.hand(me, to)

    def other(self, me):
        c = [i for i in range(self.n) if i != me and not self.done[i]]
        if not c:
            return None
        return c[self.rng.randrange(len(c))] if self.rng else c[0]

    def hand(self, me, to):
        self.cur = to
        self.lk[to].release()
        self.lk[me].acquire()

    def body(self, i):
        self.lk[i].acquire()
        self.ids[_thread.get_ident()] = i
        try:
            self.res[i] = self.jobs[i]()
        except BaseException as e:  # noqa
            self.res[i] = e
        self.done[i] = True
        self.step += 1
        left = [k for k in range(self.n) if not self.done[k]]
        if not left:
            self.over.release()
            return
        to = left[0]
        if self.plan is not None:
            while self.plan and self.plan[0][0] <= self.step:
                k = self.plan.pop(0)[1]
                if not self.done[k]:
                    to = k
        elif self.rng:
            to = left[self.rng.randrange(len(left))]
        self.arm()
        self.trace.append((self.step, to))
        self.cur = to
        self.lk[to].release()

    def run(self):
        global sim
        sim = self
        self.over.acquire()
        for l in self.lk:
            l.acquire()
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        on()
        self.cur = 0 if not self.rng or self.plan is not None else self.rng.randrange(self.n)
        if self.plan is not None and self.plan and self.plan[0][0] == 0:
            self.cur = self.plan.pop(0)[1]
            self.arm()
        self.trace.append((0, self.cur))
        self.lk[self.cur].release()
        self.over.acquire()
        off()
        sim = None
        return self.res


def caller():
    """A name for the calling thread, '' outside simulated callers."""
    i = sim.ids.get(_thread.get_ident()) if sim is not None else None
    return "" if i is None else "c%d-" % i


def gil_point():
    """The wrapper gives up the interpreter lock around library code."""
    if sim is not None:
        sim.point()


class SimLock:
    """A lock created by the library: waiting for it lets others run."""

    def __init__(self, real):
        self._l = real()

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or sim is None or _thread.get_ident() not in sim.ids:
            return self._l.acquire(blocking, timeout)
        n = 0
        while not self._l.acquire(False):
            sim.point(True)
            n += 1
            if n > 20000:
                raise RuntimeError("a caller waits for a lock that is never released")
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


def seam_locks():
    rl, rr = threading.Lock, threading.RLock

    def lib():
        f = sys._getframe(2)
        return _dir_of(f)
    threading.Lock = lambda: SimLock(rl) if lib() else rl()
    threading.RLock = lambda *a: SimLock(rr) if lib() else rr(*a)


def _dir_of(f):
    return "pymaster" in f.f_code.co_filename


# --------------------------------------------------------------- interruptions
class Interrupt:
    """Counts the places where a signal could arrive; raises at number k."""

    def __init__(self, k=-1):
        self.k = k
        self.n = 0
        self.where = None
        self.in_del = False    # the interpreter drops exceptions in there

    def at(self, code, o):
        if o in _eligible_of(code):
            i = self.n
            self.n += 1
            if i == self.k:
                self.where = "%s, offset %d" % (code.co_qualname, o)
                f = sys._getframe(2)
                while f is not None:
                    if f.f_code.co_name in ("__del__", "_remove", "_callback"):
                        self.in_del = True
                    f = f.f_back
                raise KeyboardInterrupt()

    def run(self, f):
        global intr
        intr = self
        on()
        try:
            return f()
        finally:
            intr = None
            off()
