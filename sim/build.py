"""Build the simulated extension module from /repo's current working tree.

Objects are cached by content (sources, headers, flags, compiler) under
/verif/build (ignored by git); nothing is written inside /repo."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NMT_SIM_REPO", "/repo")
OUT = os.path.join(os.path.dirname(HERE), "build")
PY = "/opt/venv/bin/python"

CFLAGS = ["-fopenmp", "-O1", "-g", "-fPIC", "-w", "-fno-omit-frame-pointer"]
REDEF_SRC = dict(malloc="simrt_malloc", calloc="simrt_calloc",
                 realloc="simrt_realloc", free="simrt_free",
                 strdup="simrt_strdup", fftw_malloc="simrt_fftw_malloc", fftw_free="simrt_fftw_free",
                 fftw_plan_dft_r2c_2d="simrt_fftw_r2c_2d", fftw_plan_dft_c2r_2d="simrt_fftw_c2r_2d",
                 fftw_destroy_plan="simrt_fftw_destroy",
                 longjmp="simrt_longjmp", __longjmp_chk="simrt_longjmp_chk",
                 _longjmp="simrt_longjmp_u", siglongjmp="simrt_longjmp_s",
                 exit="simrt_exit",
                 fopen="simrt_fopen", fopen64="simrt_fopen64", remove="simrt_remove", unlink="simrt_unlink",
                 rename="simrt_rename", access="simrt_access", stat="simrt_stat", stat64="simrt_stat64")
REDEF_WRAP = dict(malloc="simrt_malloc_nf", calloc="simrt_calloc_nf",
                  free="simrt_free", longjmp="simrt_longjmp",
                  __longjmp_chk="simrt_longjmp_chk", exit="simrt_exit",
                  PyEval_SaveThread="simrt_savethread",
                  PyEval_RestoreThread="simrt_restorethread")
LIBS = ["-lchealpix", "-lcfitsio", "-lgsl", "-lgslcblas", "-lfftw3", "-lm"]

EXPORT = ("{ global: PyInit__nmtlib; simrt_setup; simrt_config; "
          "simrt_report; simrt_begin; simrt_clear_report; "
          "simrt_reset_counters; simrt_live*; simrt_private; simrt_counter; simrt_steps; "
          "simrt_hot; simrt_nhot; simrt_trace*; simrt_plan; "
          "simrt_set_plan_len; simrt_disk*; simrt_fopen; simrt_remove; simrt_rename; simrt_open_handles; simrt_set_gil_hook; "
          "nmt_*; fs_*; he_*; local: *; };\n")


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd),
                                     r.stdout.decode(errors="replace")[-4000:]))


def _obj(src, flags, redef, hdr):
    key = _sha(_read(src), hdr, " ".join(flags), repr(sorted(redef.items())),
               os.path.basename(src))
    o = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        _run(["gcc"] + flags + ["-c", src, "-o", tmp])
        if redef:
            _run(["objcopy"] + sum((["--redefine-sym", "%s=%s" % kv]
                                    for kv in sorted(redef.items())), []) + [tmp])
        os.replace(tmp, o)
    return o


def build():
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "inc"), exist_ok=True)
    cfgh = os.path.join(OUT, "inc", "config.h")
    if not os.path.exists(cfgh):
        with open(cfgh, "w") as f:
            f.write("/* fallback */\n")
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()


def _build():
    import sysconfig  # noqa: F401
    info = subprocess.run(
        [PY, "-c", "import sysconfig,numpy;print(sysconfig.get_path('include'));"
         "print(numpy.get_include())"], stdout=subprocess.PIPE, check=True)
    pyinc, npinc = info.stdout.decode().split()
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    hdrs = sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    hdr = b"".join(_read(h) for h in hdrs)
    ch = os.path.join(REPO, "config.h")
    if os.path.exists(ch):
        hdr += _read(ch)
    inc = ["-I" + REPO, "-I" + os.path.join(REPO, "src"),
           "-I" + os.path.join(REPO, "pymaster"),
           "-I" + os.path.join(REPO, "_deps", "include"),
           "-idirafter", os.path.join(OUT, "inc")]
    wrap = os.path.join(REPO, "pymaster", "namaster_wrap.c")
    jobs = [(s, CFLAGS + ["-fsanitize=thread"] + inc, REDEF_SRC, hdr)
            for s in srcs]
    jobs.append((wrap, ["-fopenmp", "-O0", "-fPIC", "-w", "-I" + pyinc,
                        "-I" + npinc] + inc, REDEF_WRAP, hdr))
    jobs.append((os.path.join(HERE, "simrt.c"), ["-O2", "-g", "-fPIC", "-w"],
                 {}, b""))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _obj(*j), jobs))
    np_src = os.path.join(HERE, "npfill.c")
    npso = os.path.join(OUT, "np-" + _sha(_read(np_src), pyinc, npinc),
                        "_npfill.so")
    if not os.path.exists(npso):
        os.makedirs(os.path.dirname(npso), exist_ok=True)
        tmp = npso + ".tmp%d" % os.getpid()
        _run(["gcc", "-O2", "-fPIC", "-w", "-shared", "-I" + pyinc,
              "-I" + npinc, np_src, "-o", tmp])
        os.replace(tmp, npso)
    key = _sha(*objs, *LIBS, EXPORT)
    so = os.path.join(OUT, "sim-%s" % key, "_nmtlib.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        vs = os.path.join(OUT, "simrt.map")
        with open(vs, "w") as f:
            f.write(EXPORT)
        tmp = so + ".tmp%d" % os.getpid()
        _run(["gcc", "-shared", "-o", tmp] + objs +
             ["-Wl,-Bsymbolic", "-Wl,-z,defs", "-Wl,-z,lazy",
              "-Wl,--version-script=" + vs,
              "-Wl,--unresolved-symbols=ignore-all"] + LIBS)
        # unresolved symbols may only be CPython's own
        nm = subprocess.run(["nm", "-D", "--undefined-only", tmp],
                            stdout=subprocess.PIPE, check=True).stdout.decode()
        bad = [l.split()[-1] for l in nm.splitlines()
               if any(k in l for k in ("GOMP_", "omp_", "__tsan", "GOACC"))]
        if bad:
            raise BuildError("runtime symbols not simulated: %s" % bad)
        os.replace(tmp, so)
    return so, npso


if __name__ == "__main__":
    try:
        print(*build())
    except BuildError as e:
        print("BUILD ERROR", e, file=sys.stderr)
        sys.exit(2)
