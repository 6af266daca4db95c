"""File-system seam.  Installed once per process, before MaterSDK is imported; everything
passes straight through unless a simulator is active and the path is in its scratch."""
import builtins
import io
import os
import random
import shutil
import time
import tokenize

from . import core
from .core import REAL, SimCrash

_installed = False


def S():
    s = core.CUR
    return s if s is not None and s.active else None


class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd, opener, sim, path):
        self._sim, self._path, self._wr = sim, path, any(c in mode for c in "wax+")
        super().__init__(file, mode, closefd=closefd, opener=opener)

    def _live(self):
        s = self._sim
        return s is core.CUR and s.active

    def readinto(self, b):
        if not self._live():
            return super().readinto(b)
        mv = memoryview(b).cast("B")
        act = self._sim.op("read", self._path)
        if act is not None and act["do"] == "short" and len(mv) > 1:
            mv = mv[:max(1, int(len(mv) * act["frac"]))]
        return super().readinto(mv)

    def read(self, n=-1):
        if not self._live():
            return super().read(n)
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def readall(self):
        if not self._live():
            return super().readall()
        out = []
        while True:
            buf = bytearray(max(self._sim.bufsize, 64))
            k = self.readinto(buf)
            if not k:
                return b"".join(out)
            out.append(bytes(buf[:k]))

    def write(self, b):
        if not self._live():
            if self._sim.dead:
                raise SimCrash()
            return super().write(b)
        mv = memoryview(b).cast("B")
        act = self._sim.op("write", self._path, str(len(mv)))
        if act is not None:
            k = int(len(mv) * act.get("frac", 0.5))
            if act["do"] == "torn":
                if k:
                    super().write(mv[:k])
                self._sim.dead = True
                self._sim.crash_child()
                raise SimCrash()
            if act["do"] == "partial":          # part of it, then the disk is full
                if k:
                    super().write(mv[:k])
                self._sim.add_sticky(act.get("sticky"), "ENOSPC")
                raise core.mkerr("ENOSPC", self._path)
            if act["do"] == "short" and len(mv) > 1:
                return super().write(mv[:max(1, k)])
        return super().write(mv)

    def truncate(self, size=None):
        if self._live():
            self._sim.op("truncate", self._path)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        if not self._live() or self._sim.dead:
            return super().close()
        err = None
        try:
            self._sim.op("close_w" if self._wr else "close_r", self._path)
        except OSError as e:
            err = e
        finally:
            super().close()
            if self._wr and not self._sim.dead:
                self._sim.stamp(self._path)
        if err is not None:
            raise err


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    s = S()
    if s is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = s.inside(file)
    if path is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if not isinstance(file, int):
        s.op("open_w" if writing else "open_r", path, mode.replace("t", ""))
    # let the real open check the mode string (and fail the way it fails)
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    binary = "b" in mode
    if binary and "t" in mode or (binary and encoding is not None):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(file, rawmode, closefd, opener, s, path)
    try:
        line_buffering = False
        if buffering == 1:
            buffering, line_buffering = -1, True
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        size = s.bufsize if buffering < 0 else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        enc = io.text_encoding(encoding)
        txt = io.TextIOWrapper(buf, enc, errors, newline, line_buffering)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _shuffled(s, path, items, key):
    items = sorted(items, key=key)
    random.Random(f"{s.order_salt}/{s.rel(path)}").shuffle(items)
    return items


def sim_scandir(path="."):
    s = S()
    p = s.inside(path) if s else None
    if p is None:
        return REAL["scandir"](path)
    s.op("scandir", p)
    with REAL["scandir"](path) as it:
        return SimScandir(_shuffled(s, p, list(it), lambda e: e.name))


def sim_listdir(path="."):
    s = S()
    p = s.inside(path) if s else None
    if p is None:
        return REAL["listdir"](path)
    s.op("scandir", p)
    return _shuffled(s, p, REAL["listdir"](path), None)


def _wrap1(name, cls, stamp=False):
    real = REAL[name]

    def f(path, *a, dir_fd=None, **k):
        s = S()
        p = s.inside(path, dir_fd) if s else None
        if p is not None:
            s.op(cls, p)
        if dir_fd is not None:
            k["dir_fd"] = dir_fd
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _wrap2(name):
    real = REAL[name]

    def f(src, dst, **k):
        s = S()
        p = s.inside(dst, k.get("dst_dir_fd")) if s else None
        if p is not None:
            s.op("rename" if name in ("rename", "replace") else name, p)
        r = real(src, dst, **k)
        return r
    f.__name__ = name
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = S()
    p = s.inside(path, dir_fd) if s else None
    if p is not None and not flags & os.O_DIRECTORY:
        s.op("open_w" if flags & (os.O_WRONLY | os.O_RDWR) else "open_r", p)
    return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)


def sim_os_write(fd, data):
    s = S()
    p = s.inside(fd) if s else None
    if p is not None:
        mv = memoryview(data).cast("B")
        act = s.op("write", p, str(len(mv)))
        if act is not None:
            k = int(len(mv) * act.get("frac", 0.5))
            if act["do"] == "torn":
                if k:
                    REAL["write"](fd, mv[:k])
                s.dead = True
                s.crash_child()
                raise SimCrash()
            if act["do"] == "partial":          # the system call writes what fits; the next one fails
                s.add_sticky(act.get("sticky") or ["write"], "ENOSPC")
                if not k:
                    raise core.mkerr("ENOSPC", p)
                return REAL["write"](fd, mv[:k])
            if act["do"] == "short" and len(mv) > 1:
                return REAL["write"](fd, mv[:max(1, k)])
    return REAL["write"](fd, data)


def sim_os_read(fd, n):
    s = S()
    p = s.inside(fd) if s else None
    if p is not None:
        act = s.op("read", p)
        if act is not None and act["do"] == "short" and n > 1:
            n = max(1, int(n * act["frac"]))
    return REAL["read"](fd, n)


def sim_fsync(fd):
    s = S()
    p = s.inside(fd if isinstance(fd, int) else fd.fileno()) if s else None
    if p is not None:
        s.op("fsync", p)
    return REAL["fsync"](fd)


def _clock(real, scale, base=0):
    def f():
        s = S()
        if s is None:
            return real()
        s.advance(1000)
        return s.clock_ns if scale is None else s.clock_ns / scale
    return f


def sim_sleep(x):
    s = S()
    if s is None:
        return _real_sleep(x)
    s.advance(int(x * 1e9))


_real_sleep = time.sleep


def sim_cpu_count():
    s = S()
    return REAL["cpu_count"]() if s is None else s.cores


def sim_affinity(pid=0):
    s = S()
    return _real_aff(pid) if s is None else set(range(s.cores))


_real_aff = os.sched_getaffinity


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    tokenize._builtin_open = sim_open
    os.open = sim_os_open
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.mkdir = _wrap1("mkdir", "mkdir")
    os.rmdir = _wrap1("rmdir", "rmdir")
    os.unlink = _wrap1("unlink", "unlink")
    os.remove = _wrap1("remove", "unlink")
    os.truncate = _wrap1("truncate", "truncate")
    os.rename = _wrap2("rename")
    os.replace = _wrap2("replace")
    os.link = _wrap2("link")
    os.symlink = _wrap2("symlink")
    os.write = sim_os_write
    os.read = sim_os_read
    os.fsync = sim_fsync
    shutil._USE_CP_SENDFILE = False
    os.cpu_count = sim_cpu_count
    os.sched_getaffinity = sim_affinity
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    time.time = _clock(time.time, 1e9)
    time.time_ns = _clock(time.time_ns, None)
    time.sleep = sim_sleep
    import multiprocessing
    import multiprocessing.context
    multiprocessing.cpu_count = lambda: sim_cpu_count()
    _old_cc = multiprocessing.context.BaseContext.cpu_count
    multiprocessing.context.BaseContext.cpu_count = \
        lambda self: _old_cc(self) if S() is None else S().cores
    try:
        import numpy.lib.format as nf
        real_isfile = nf.isfileobj
        # np.save/np.load would hand the descriptor to C; keep the bytes on our path
        nf.isfileobj = lambda f: False if S() is not None else real_isfile(f)
    except Exception:
        pass
    from . import pool
    pool.install()
