"""The simulator: one object owns every nondeterministic choice of a run.

A *run* executes real MaterSDK code inside this process, on real files in a scratch
folder.  Every file-system operation of that code passes `Sim.op` (see fs.py), every pool
task passes the scheduler in pool.py, clocks and random generators are simulated.  A
*phase* is one simulated process lifetime (or one call): operations are numbered from 1
within the phase, per class, and the phase's fault list says what happens at which one.
"""
import collections
import contextlib
import errno
import gc
import hashlib
import io
import json
import linecache
import os
import random
import shutil
import sys
import tempfile
import traceback

# originals, captured before fs.install() replaces them
REAL = {
    "open": io.open, "os_open": os.open, "mkdir": os.mkdir, "rmdir": os.rmdir,
    "unlink": os.unlink, "remove": os.remove, "rename": os.rename, "replace": os.replace,
    "scandir": os.scandir, "listdir": os.listdir, "truncate": os.truncate,
    "utime": os.utime, "link": os.link, "symlink": os.symlink, "stat": os.stat,
    "cpu_count": os.cpu_count, "fsync": os.fsync, "write": os.write, "read": os.read,
    "ftruncate": os.ftruncate,
}


class SimCrash(BaseException):
    """The simulated process was killed: nothing of it runs any more."""


class SimHang(BaseException):
    """The code under test waits for something that can never happen."""


class SimInterrupt(KeyboardInterrupt):
    """The user presses Ctrl-C inside the simulated process."""


REPO = os.path.realpath(os.environ.get("VERIF_REPO") or "/repo") + os.sep + "matersdk" + os.sep


class CallFaults:
    """Failing allocations: every call made by or into code of the library is numbered; the
    n-th one fails.  n = None only counts."""
    def __init__(self, n=None, exc="MemoryError"):
        self.n, self.exc, self.count, self.fired = n, exc, 0, None
        self.mine = {}

    def __call__(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            k = self.mine.get(c)
            if k is None:
                k = self.mine[c] = c.co_filename.startswith(REPO)
            if not k:
                b = frame.f_back
                if b is None or not self.mine.get(b.f_code):
                    return
        elif event == "c_call":
            c = frame.f_code
            if not self.mine.get(c):
                return
        else:
            return
        self.count += 1
        if self.count == self.n:
            sys.setprofile(None)
            self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}" + (f":{getattr(arg, '__name__', '')}" if event == "c_call" else "")
            raise (SimInterrupt if self.exc == "KeyboardInterrupt" else MemoryError)("injected")


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


MUTATING = {"write", "open_w", "mkdir", "unlink", "rmdir", "rename", "truncate", "link", "symlink"}
CUR = None            # the simulator of this process (one at a time)


def current():
    return CUR


class Outcome:
    """What a simulated call did: ok / exc / crash / hang."""
    __slots__ = ("kind", "value", "exc", "tb")

    def __init__(self, kind, value=None, exc=None, tb=""):
        self.kind, self.value, self.exc, self.tb = kind, value, exc, tb

    def __repr__(self):
        if self.kind == "exc":
            return f"exc({type(self.exc).__name__}: {str(self.exc)[:120]})"
        return self.kind


class Sim:
    def __init__(self, seed, opts=None):
        opts = opts or {}
        self.seed = seed
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="msim.", dir=base))
        self.active = False
        self.dead = False
        self.log = []
        self.injected = collections.Counter()
        self.opcount = collections.Counter()      # over the whole run
        self.counts = collections.Counter()       # of the present phase
        self.total = 0
        self.faults = {}
        self.sticky = []
        self.handlers = {}
        self.bufsize = opts.get("bufsize", 8192)
        self.gran_ns = opts.get("gran_ns") or (1, 10**9)[hashlib.sha256(str(seed).encode()).digest()[0] & 1]   # of file times
        self.step_ns = opts.get("step_ns", 1_000_000)
        self.cores = opts.get("cores", 4)
        self.clock_ns = opts.get("t0_ns", 1_700_000_000_000_000_000)
        self.t_start = self.clock_ns
        self.sim_ns = 0
        self.order_salt = opts.get("order", seed)
        self.rng_sched = random.Random(f"sched/{opts.get('sched', seed)}")
        self.interleave = hashlib.sha256()
        self.child = None          # set in a pool worker: link to the parent
        self.worker_tag = None
        self.task_faults = {}
        self.pools = []
        self.phases = {}
        self.task_counts = {}
        self.pools_left = 0
        self.readonly = opts.get("readonly", False)
        self.alloc = None          # {"phase", "n", "exc", "task"?}: a failing allocation
        self.count_calls = ()      # phases whose calls are to be counted
        self.phase = None
        self.tcalls = {}
        self.max_ops = opts.get("max_ops", 400000)
        self.sched = None          # threads.Threads while tasks run at the same time

    # ---------------------------------------------------------------- life cycle
    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError("nested simulators")
        CUR = self
        self._unraisable = sys.unraisablehook
        sys.unraisablehook = lambda *_: None
        return self

    def __exit__(self, *exc):
        global CUR
        self.active = False
        self.dead = False
        CUR = None
        sys.unraisablehook = self._unraisable
        for p in self.pools:
            p._reap()
        shutil.rmtree(self.root, ignore_errors=True)
        linecache.clearcache()
        return False

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def rel(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.relpath(p, self.root)

    # ---------------------------------------------------------------- operations
    def inside(self, p, dir_fd=None):
        """Absolute path if p lies in the scratch folder, else None."""
        try:
            if isinstance(p, int) and not isinstance(p, bool):
                p = os.readlink(f"/proc/self/fd/{p}")
                if not p.startswith("/"):          # pipe, socket, ...
                    return None
                if p.endswith(" (deleted)"):
                    p = p[:-10]
            else:
                p = os.fspath(p)
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
                if dir_fd is not None and not os.path.isabs(p):
                    p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            p = os.path.abspath(p)
        except (OSError, TypeError, ValueError):
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def op(self, cls, path, info=""):
        """One operation of the code under test is about to happen.

        Returns None (go on) or a fault dict that the caller must act on (torn, short);
        raises what is to be raised."""
        if self.child is not None:
            return self.child.op(cls, path, info)
        return self._op(cls, path, info)

    def _op(self, cls, path, info="", who=None):
        if self.sched is not None:
            self.sched.op(cls)
        if self.dead and who is None:
            raise SimCrash()
        if who is None:
            self.counts[cls] += 1
            self.total += 1
            keys = ((cls, self.counts[cls]), ("any", self.total))
        else:
            c = self.task_counts.setdefault(who[0], collections.Counter())
            c[cls] += 1
            c["any"] += 1
            keys = ((f"task{who[0]}:{cls}", c[cls]), (f"task{who[0]}:any", c["any"]))
        self.opcount[cls] += 1
        if self.total > self.max_ops:
            raise SimHang("no progress: operation budget exhausted")
        self.advance()
        rel = self.rel(path)
        w = "" if who is None else f"t{who[0]}:"
        self.log.append(f"{w}{cls} {rel} {info}".rstrip())
        if self.readonly and cls in MUTATING:
            self.injected["EROFS-folder"] += 1
            self.log.append("  !read-only folder")
            raise mkerr("EROFS", path)
        for k in keys:
            lst = self.faults.get(k)
            if not lst:
                continue
            act = None
            for f in list(lst):
                if f.get("path") and f["path"] not in rel:
                    continue
                if f.get("once", True):
                    lst.remove(f)
                r = self._do(f, cls, path)
                act = act or r
            if act is not None:
                return act
        for f in self.sticky:
            if cls in f["ops"]:
                self.injected[f"sticky-{f['errno']}"] += 1
                self.log.append(f"  !sticky {f['errno']}")
                raise mkerr(f["errno"], path)
        return None

    def _do(self, f, cls, path):
        do = f["do"]
        if self.sched is not None:
            self.sched.hit.add(self.sched.cur)
        self.injected[do if do != "errno" else f["errno"]] += 1
        self.log.append(f"  !{do} {f.get('errno', '')} {json.dumps(f['ev'], sort_keys=True) if 'ev' in f else ''}".rstrip())
        if do == "errno":
            if f.get("sticky"):
                self.sticky.append({"ops": f["sticky"], "errno": f["errno"]})
            raise mkerr(f["errno"], path)
        if do == "crash":
            self.dead = True
            raise SimCrash()
        if do == "event":
            h = self.handlers.get(f["ev"]["t"])
            if h is None:
                raise HarnessError(f"no handler for event {f['ev']}")
            a, self.active = self.active, False
            try:
                h(f["ev"])
            finally:
                self.active = a
            return None
        if do == "exc":
            raise {"MemoryError": MemoryError, "RuntimeError": RuntimeError,
                   "ValueError": ValueError}[f["exc"]]("injected")
        return f                       # torn / short / partial: the caller acts

    def advance(self, ns=None):
        ns = self.step_ns if ns is None else ns
        self.clock_ns += ns
        self.sim_ns += max(0, ns)

    def mtime(self):
        return self.clock_ns // self.gran_ns * self.gran_ns

    def stamp(self, path):
        try:
            t = self.mtime()
            REAL["utime"](path, ns=(t, t))
        except OSError:
            pass

    # ---------------------------------------------------------------- running code
    def set_faults(self, faults):
        self.faults = {}
        self.sticky = []
        for f in faults or []:
            self.faults.setdefault((f["op"], f["n"]), []).append(dict(f))
        self.counts = collections.Counter()
        self.task_counts = {}
        self.total = 0

    def call(self, fn, faults=None, name="call"):
        """Run fn as (part of) the simulated process with the given faults."""
        self.set_faults(faults)
        self.log.append(f"== {name}")
        self.phase = name
        self.tcalls = {}
        cf = self.call_faults()
        out = self._guarded(fn, cf)
        if cf is not None and cf.fired:
            self.injected[cf.exc] += 1
            self.log.append(f"  !{cf.exc} at call {cf.n} {cf.fired}")
        if self.dead:
            out = Outcome("crash")
        gc.collect()                       # while dead: finalisers can do nothing
        for p in self.pools:
            if not p.closed_ok and out.kind != "crash":
                self.log.append("  pool left open")
            p._reap()
        self.pools_left = sum(1 for p in self.pools if not p.closed_ok)
        self.pools = []
        self.dead = False
        self.phases[name] = {"calls": cf.count if cf else 0, "tcalls": dict(self.tcalls), "c": dict(self.counts), "n": self.total,
                             "t": {k: dict(v) for k, v in self.task_counts.items()}}
        self.faults, self.sticky = {}, []
        self.log.append(f"== {out!r}".replace(self.root, "<root>"))
        return out

    def call_faults(self, task=None):
        a = self.alloc
        if a and a["phase"] == self.phase and a.get("task") == task:
            return CallFaults(a["n"], a["exc"])
        if self.phase in self.count_calls:
            return CallFaults()

    def _guarded(self, fn, cf=None):
        self.active = True
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            if cf is not None:
                sys.setprofile(cf)
            try:
                v = fn()
            finally:
                sys.setprofile(None)
            return Outcome("ok", v)
        except SimCrash:
            return Outcome("crash")
        except SimInterrupt as e:
            e.__traceback__ = None
            return Outcome("exc", exc=e)
        except SimHang as e:
            return Outcome("hang", exc=e)
        except (HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            e.__traceback__ = None         # free the frames (open files, pools)
            c = e.__context__
            while c is not None:
                c.__traceback__ = None
                c = c.__context__
            return Outcome("exc", exc=e, tb=tb)
        except SystemExit as e:
            return Outcome("exc", exc=RuntimeError(f"SystemExit {e.code}"))
        finally:
            sys.stdout = so
            self.active = False

    @contextlib.contextmanager
    def running(self):
        a, self.active = self.active, True
        try:
            yield
        finally:
            self.active = a

    def crash_child(self):
        if self.child is not None:
            os._exit(9)

    def add_sticky(self, ops, err):
        if not ops:
            return
        if self.child is not None:
            self.child.tell(("sticky", ops, err))
        else:
            self.sticky.append({"ops": ops, "errno": err})

    def restart(self):
        """A new process: process-wide caches are gone."""
        linecache.clearcache()

    # ---------------------------------------------------------------- harness helpers
    def write(self, rel, data):
        """Write a file as some other, healthy process (stamped with the sim clock)."""
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with REAL["open"](p, "wb") as f:
            f.write(data)
        self.stamp(p)
        return p

    def append(self, rel, data):
        p = self.path(rel)
        if isinstance(data, str):
            data = data.encode()
        with REAL["open"](p, "ab") as f:
            f.write(data)
        self.stamp(p)

    def replace(self, rel, data):
        p = self.path(rel)
        t = p + ".__new__"
        if isinstance(data, str):
            data = data.encode()
        with REAL["open"](t, "wb") as f:
            f.write(data)
        REAL["replace"](t, p)
        self.stamp(p)

    def snapshot(self, rel="."):
        """{relative path: bytes or None for a folder} of everything below rel."""
        base = os.path.normpath(self.path(rel))
        out = {}
        for d, ds, fs in os.walk(base):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), base)] = None
            for x in fs:
                p = os.path.join(d, x)
                with REAL["open"](p, "rb") as f:
                    out[os.path.relpath(p, base)] = f.read()
        return out

    def digest(self):
        h = hashlib.sha256()
        for l in self.log:
            h.update(l.replace(self.root, "<root>").encode("utf8", "replace"))
            h.update(b"\n")
        return h.hexdigest()[:16]


def mkerr(name, path):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e), path)
