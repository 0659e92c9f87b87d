"""Python side of the simulator: loads the simulated extension in place of the
shipped one, imports pymaster from the repository's working tree and runs each
simulated execution in a fork of this (warm) process."""
import ctypes as ct
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NMT_SIM_REPO", "/repo")
EXIT_EVENT, EXIT_KILLED = 86, 87

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "DUCC0_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True


class Report(ct.Structure):
    _fields_ = [(n, ct.c_uint64) for n in
                "steps switches regions maxteam ileave_hash deadlock "
                "n_alloc n_alloc_failed n_gslalloc n_gsl_failed n_fftwalloc "
                "n_open n_write n_read n_close n_remove n_flush "
                "f_eio_w f_enospc f_short_w f_eio_r f_short_r f_kill f_torn "
                "f_open_fail f_close_fail "
                "conflicts hot_preempt stalls dyn_chunks criticals barriers "
                "redzone_bad double_free uaf_write wend_lost ntrace".split()] + [
        ("ev_kind", ct.c_int), ("in_team", ct.c_int), ("ev_tid", ct.c_int),
        ("lastfail_inteam", ct.c_int),
        ("ev_text", ct.c_char * 512), ("region", ct.c_char * 128),
        ("lastfail_region", ct.c_char * 128)]


class Cfg(ct.Structure):
    _fields_ = [("seed", ct.c_uint64), ("nthreads", ct.c_int),
                ("vary_team", ct.c_int), ("mode", ct.c_int),
                ("mean_gap", ct.c_double), ("p_hot", ct.c_double),
                ("order", ct.c_int), ("p_stall", ct.c_double),
                ("profile", ct.c_int), ("fill", ct.c_int),
                ("step_cap", ct.c_uint64), ("fail_alloc_at", ct.c_int64),
                ("fail_alloc_len", ct.c_int64), ("fail_gsl_at", ct.c_int64),
                ("fail_fftw_at", ct.c_int64), ("record", ct.c_int)]


class Sw(ct.Structure):
    _fields_ = [("step", ct.c_uint64), ("to", ct.c_int), ("forced", ct.c_int)]


DEFAULT = dict(seed=1, nthreads=1, vary_team=0, mode=0, mean_gap=200.0,
               p_hot=0.0, order=0, p_stall=0.0, profile=0, fill=1,
               step_cap=0, fail_alloc_at=-1, fail_alloc_len=1,
               fail_gsl_at=-1, fail_fftw_at=-1, record=0)

rt = None
npfill = None
nmt = None
so_path = None
_syms = None


def init():
    """Build (if needed) and load the simulated extension, import pymaster."""
    global rt, nmt, so_path, npfill
    if rt is not None:
        return nmt
    sys.path.insert(0, HERE)
    import build
    so_path, np_path = build.build()
    import importlib.machinery
    import importlib.util
    loader = importlib.machinery.ExtensionFileLoader("_nmtlib", so_path)
    spec = importlib.util.spec_from_file_location("_nmtlib", so_path,
                                                  loader=loader)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy  # noqa: F401
    mod = importlib.util.module_from_spec(spec)
    sys.modules["_nmtlib"] = mod
    import thr
    thr.seam_locks()
    loader.exec_module(mod)
    ld = importlib.machinery.ExtensionFileLoader("_npfill", np_path)
    npfill = importlib.util.module_from_spec(
        importlib.util.spec_from_file_location("_npfill", np_path, loader=ld))
    ld.exec_module(npfill)
    npfill.install()
    rt = ct.CDLL(so_path)
    for f, r in (("simrt_config", ct.POINTER(Cfg)),
                 ("simrt_report", ct.POINTER(Report)),
                 ("simrt_trace", ct.POINTER(Sw)),
                 ("simrt_plan", ct.POINTER(Sw)),
                 ("simrt_hot", ct.POINTER(ct.c_uint8)),
                 ("simrt_counter", ct.c_uint64), ("simrt_steps", ct.c_uint64),
                 ("simrt_live", ct.c_uint64), ("simrt_live_seq", ct.c_uint64),
                 ("simrt_nhot", ct.c_uint64), ("simrt_trace_len", ct.c_uint64),
                 ("simrt_disk_size", ct.c_int64),
                 ("simrt_disk_get", ct.c_int64),
                 ("simrt_disk_new", ct.c_void_p)):
        getattr(rt, f).restype = r
    rt.simrt_set_gil_hook(ct.py_object(thr.gil_point))
    ok = rt.simrt_setup()
    if ok & 31 != 31:
        raise RuntimeError("could not take over GSL/CFITSIO symbols: %d" % ok)
    import warnings
    warnings.filterwarnings("ignore")
    import pyfs
    import pymaster
    pyfs.install(rt)
    thr.watch(os.path.dirname(os.path.abspath(pymaster.__file__)))
    if os.path.dirname(os.path.abspath(pymaster.__file__)) != \
            os.path.join(os.path.abspath(REPO), "pymaster"):
        raise RuntimeError("pymaster imported from %s" % pymaster.__file__)
    if sys.modules["_nmtlib"] is not mod:
        raise RuntimeError("simulated extension was displaced")
    nmt = pymaster
    return nmt


def private():
    """To be called in every process that runs simulations of its own."""
    rt.simrt_private()


def configure(**kw):
    c = rt.simrt_config().contents
    d = dict(DEFAULT)
    d.update(kw)
    for k, v in d.items():
        setattr(c, k, v)
    npfill.configure(d["seed"] & (2**63-1), d["fill"])
    rt.simrt_begin()


def set_plan(plan):
    p = rt.simrt_plan()
    for i, (s, t, f) in enumerate(plan):
        p[i].step, p[i].to, p[i].forced = s, t, f
    rt.simrt_set_plan_len(ct.c_uint64(len(plan)))


def get_trace():
    n = rt.simrt_trace_len()
    t = rt.simrt_trace()
    return [(t[i].step, t[i].to, t[i].forced) for i in range(n)]


def get_hot():
    h = ct.string_at(rt.simrt_hot(), 1 << 16)
    return [i for i, v in enumerate(h) if v]


def set_hot(l):
    h = rt.simrt_hot()
    ct.memset(h, 0, 1 << 16)
    for i in l:
        h[i] = 1


def report():
    r = rt.simrt_report().contents
    d = {}
    for n, t in Report._fields_:
        v = getattr(r, n)
        d[n] = v.decode(errors="replace") if isinstance(v, bytes) else v
    for k in ("ev_text", "region", "lastfail_region"):
        d[k] = resolve(d[k])
    return d


def resolve(text):
    """Replace {+offset} by the function's name."""
    global _syms
    import bisect
    import re
    if "{+" not in text:
        return text
    if _syms is None:
        nm = subprocess.run(["nm", so_path], stdout=subprocess.PIPE).stdout
        _syms = sorted((int(l.split()[0], 16), l.split()[2]) for l in
                       nm.decode().splitlines()
                       if len(l.split()) == 3 and l.split()[1] in "tT")

    def f(m):
        i = bisect.bisect_right(_syms, (int(m.group(1), 16), "~")) - 1
        return _syms[i][1]
    return re.sub(r"\{\+([0-9a-f]+)\}", f, text)


class Outcome:
    """What one simulated execution did.

    status: ok (value), exc (exception escaped the workload itself),
    event (the simulator stopped it, see report), killed (simulated kill),
    signal (process died), timeout."""

    def __init__(self, status, value=None, rep=None, detail=""):
        self.status, self.value, self.rep, self.detail = \
            status, value, rep or {}, detail

    def __repr__(self):
        return "<%s %s %s>" % (self.status, self.detail,
                               self.rep.get("ev_text", ""))


def run_forked(fn, timeout=120.0):
    """Run fn() in a fork; everything it changed but the simulated disk and
    the report page is forgotten."""
    rt.simrt_clear_report()
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("SIM_DEBUG"):
                os.dup2(dn, 2)
            os.dup2(dn, 1)
            signal.alarm(0)
            try:
                msg = ("ok", fn())
            except BaseException as e:  # noqa: B902
                msg = ("exc", "%s: %s\n%s" % (type(e).__name__, e,
                                              traceback.format_exc()[-1500:]))
            data = pickle.dumps(msg, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    import select
    chunks = []
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    rep = report()
    if timed:
        return Outcome("timeout", rep=rep, detail="%.0fs" % timeout)
    if os.WIFSIGNALED(st):
        return Outcome("signal", rep=rep, detail="signal %d (%s)" % (
            os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name))
    ex = os.WEXITSTATUS(st)
    if ex == EXIT_EVENT:
        return Outcome("event", rep=rep)
    if ex == EXIT_KILLED:
        return Outcome("killed", rep=rep)
    if ex or not chunks:
        return Outcome("signal", rep=rep, detail="exit status %d" % ex)
    kind, val = pickle.loads(b"".join(chunks))
    return Outcome(kind, val, rep, val if kind == "exc" else "")


# ------------------------------------------------------------ simulated disk
PFX = "/simdisk/"


def disk_new():
    if not rt.simrt_disk_new():
        raise MemoryError("simulated disk")


def disk_faults(w=-1, wk=0, r=-1, rk=0, o=-1, c=-1, frac=500, cap=0, small=0):
    rt.simrt_disk_faults(ct.c_int64(w), wk, ct.c_int64(r), rk, ct.c_int64(o),
                         ct.c_int64(c), ct.c_uint64(frac), ct.c_uint64(cap),
                         small)


def disk_counts():
    a = (ct.c_uint64 * 4)()
    rt.simrt_disk_counts(a)
    return dict(zip(("w", "r", "o", "c"), list(a)))


def disk_get(name):
    n = rt.simrt_disk_size(name.encode())
    if n < 0:
        return None
    b = ct.create_string_buffer(int(n) or 1)
    rt.simrt_disk_get(name.encode(), b, ct.c_uint64(n))
    return b.raw[:n]


def disk_put(name, data):
    if rt.simrt_disk_put(name.encode(), data, ct.c_uint64(len(data))):
        raise MemoryError("simulated disk full")


def disk_rm(name):
    rt.simrt_disk_rm(name.encode())
