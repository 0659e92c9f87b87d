"""Python's own file calls on names of the simulated disk.

pymaster may look at files itself (os.path.exists, os.replace, open...): those
calls, too, act on the simulated disk and meet its faults. Its clock advances
slowly, so that a file rewritten at once often keeps its time, as on real disks."""
import builtins
import ctypes as ct
import errno
import io
import os
import stat as st

PFX = "/simdisk/"
T0 = 1700000000
_rt = None
_libc = None
_real = {}


def _name(p):
    """The name on the simulated disk, or None."""
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith(PFX[:-1]):
        return None
    q = os.path.normpath(p)
    return q if q == PFX[:-1] or q.startswith(PFX) else None


def _fail(n, e=None):
    e = e or ct.get_errno() or errno.ENOENT
    raise OSError(e, os.strerror(e), n)


def _size(n):
    return _rt.simrt_disk_size(n.encode())


def _stat(p, *a, **k):
    n = _name(p)
    if n is None:
        return _real["stat"](p, *a, **k)
    if n == PFX[:-1]:
        return os.stat_result((st.S_IFDIR | 0o755, 2, 1, 1, 0, 0, 4096, T0, T0, T0))
    s = _size(n)
    if s < 0:
        _fail(n, errno.ENOENT)
    t = T0+_rt.simrt_disk_mtime(n.encode())
    i = 10+_rt.simrt_disk_ino(n.encode())
    return os.stat_result((st.S_IFREG | 0o644, i, 1, 1, 0, 0, s, t, t, t, t, t, t, t*10**9, t*10**9, t*10**9))


def _access(p, mode, *a, **k):
    n = _name(p)
    if n is None:
        return _real["access"](p, mode, *a, **k)
    return n == PFX[:-1] or _size(n) >= 0


def _remove(which):
    def remove(p, *a, **k):
        n = _name(p)
        if n is None:
            return _real[which](p, *a, **k)
        if _rt.simrt_remove(n.encode()):
            _fail(n, errno.ENOENT)
    return remove


def _rename(which):
    def rename(p, q, *a, **k):
        n, m = _name(p), _name(q)
        if n is None and m is None:
            return _real[which](p, q, *a, **k)
        if n is None or m is None:
            _fail(p, errno.EXDEV)
        if _rt.simrt_rename(n.encode(), m.encode()):
            _fail(n, errno.ENOENT)
    return rename


def _mkdir(p, *a, **k):
    n = _name(p)
    if n is None:
        return _real["mkdir"](p, *a, **k)
    _fail(n, errno.EEXIST if n == PFX[:-1] else errno.ENOSPC)


def _listdir(p=".", *a):
    n = _name(p)
    if n is None:
        return _real["listdir"](p, *a)
    b = ct.create_string_buffer(1 << 14)
    _rt.simrt_disk_names(b, len(b))
    return sorted(os.path.basename(x) for x in b.value.decode().split("\n") if x)


def _touch(which):
    def touch(p, *a, **k):
        n = _name(p)
        if n is None:
            return _real[which](p, *a, **k)
        if n != PFX[:-1] and _size(n) < 0:
            _fail(n, errno.ENOENT)
    return touch


class _Raw(io.RawIOBase):
    def __init__(self, n, mode):
        super().__init__()
        self.name, self.mode = n, mode
        ct.set_errno(0)
        self._f = _rt.simrt_fopen(n.encode(), (mode.replace("x", "w")+"b").encode())
        if not self._f:
            _fail(n)

    def readable(self):
        return self.mode[0] == "r" or "+" in self.mode

    def writable(self):
        return self.mode[0] != "r" or "+" in self.mode

    def seekable(self):
        return True

    def seek(self, o, wh=0):
        if _libc.fseek(self._f, o, wh):
            _fail(self.name)
        return self.tell()

    def tell(self):
        return _libc.ftell(self._f)

    def readinto(self, b):
        m = ct.create_string_buffer(len(b) or 1)
        ct.set_errno(0)
        k = _libc.fread(m, 1, len(b), self._f)
        if not k and _libc.ferror(self._f):
            _fail(self.name)
        b[:k] = m.raw[:k]
        return k

    def write(self, b):
        b = bytes(b)
        ct.set_errno(0)
        k = _libc.fwrite(b, 1, len(b), self._f)
        if _libc.fflush(self._f) or (b and not k):
            _fail(self.name)
        return k

    def close(self):
        if not self.closed:
            f, self._f = self._f, None
            super().close()
            ct.set_errno(0)
            if f and _libc.fclose(f):
                _fail(self.name)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    n = _name(file)
    if n is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = mode.replace("b", "").replace("t", "")
    if m[0] == "x" and _size(n) >= 0:
        _fail(n, errno.EEXIST)
    r = _Raw(n, m)
    if "b" in mode and buffering == 0:
        return r
    B = io.BufferedRandom if "+" in m else io.BufferedReader if m[0] == "r" else io.BufferedWriter
    return B(r) if "b" in mode else io.TextIOWrapper(B(r), encoding, errors, newline)


def install(rt):
    global _rt, _libc
    _rt = rt
    _libc = ct.CDLL(None, use_errno=True)
    for f in ("fread", "fwrite"):
        g = getattr(_libc, f)
        g.restype = ct.c_size_t
        g.argtypes = [ct.c_char_p, ct.c_size_t, ct.c_size_t, ct.c_void_p]
    _libc.fseek.argtypes = [ct.c_void_p, ct.c_long, ct.c_int]
    _libc.ftell.argtypes = _libc.fclose.argtypes = _libc.fflush.argtypes = _libc.ferror.argtypes = [ct.c_void_p]
    _libc.ftell.restype = ct.c_long
    rt.simrt_fopen.restype = ct.c_void_p
    rt.simrt_disk_mtime.restype = ct.c_int64
    for f, g in (("stat", _stat), ("lstat", _stat), ("access", _access), ("remove", _remove("remove")),
                 ("unlink", _remove("unlink")), ("rename", _rename("rename")), ("replace", _rename("replace")),
                 ("chmod", _touch("chmod")),
                 ("utime", _touch("utime")), ("mkdir", _mkdir), ("listdir", _listdir)):
        _real[f] = getattr(os, f)
        setattr(os, f, g)
        for t in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if _real[f] in t:
                t.add(g)
    _real["open"] = builtins.open
    builtins.open = io.open = _open
