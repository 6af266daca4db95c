"""Callers running at the same time.  Each task is a real thread, but only the one that
holds the baton runs: at every file operation and, with a given probability, at every line
of the library, the seeded scheduler decides who goes on.  One seed is one interleaving.
Reads, writes and closes happen inside the locks of Python's buffered files, so a switch
decided there takes place at the next line of the library.  Locks that the library itself
makes are simulated too: a task that has to wait hands the baton on."""
import gc
import random
import sys
import threading

from . import core
from .core import Outcome, SimHang


active = None
INNER = ("read", "write", "close_r", "close_w")     # operations inside a buffered file


class Lock:
    """A lock made by the library; a task never waits for it with the baton in hand."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        a = active
        if a is None or getattr(a.me, "id", None) is None:
            if self._real.acquire(False):
                return True
            if a is None and blocking and timeout < 0 and core.CUR is not None and threading.active_count() == 1:
                raise SimHang("a lock that nobody will release")
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking or timeout >= 0:
                return False
            a.wait()
        return True

    __enter__ = acquire

    def __exit__(self, *a):
        self._real.release()

    def __getattr__(self, n):
        return getattr(self._real, n)


def patch_locks():
    """Locks made in library code become Lock; everything else keeps the real ones."""
    for n in ("Lock", "RLock"):
        real = getattr(threading, n)
        setattr(threading, n, lambda *a, _r=real: Lock(_r(*a)) if sys._getframe(1).f_code.co_filename.startswith(core.REPO) else _r(*a))


class Threads:
    def __init__(self, sim, seed, stay=.5, line=0.0):
        self.sim, self.r, self.stay, self.line = sim, random.Random(f"threads/{seed}"), stay, line
        self.me = threading.local()
        self.hit = set()              # tasks that met an injected fault
        self.cur = None
        self.switches = self.waits = 0
        self.steps = 0
        self.due = False              # a switch decided inside a buffered file

    # -- called in the threads
    def point(self, p_stay=None):
        """The running task may be interrupted here."""
        me = getattr(self.me, "id", None)
        if me is None:
            return
        self.steps += 1
        if len(self.ready) < 2 or self.r.random() < (self.stay if p_stay is None else p_stay):
            return
        self._leave(me)

    def op(self, cls):
        """A file operation of the running task."""
        if cls not in INNER:
            return self.point()
        if getattr(self.me, "id", None) is not None:
            self.steps += 1
            if len(self.ready) > 1 and self.r.random() >= self.stay:
                self.due = True

    def wait(self):
        """The running task cannot go on before another one does something."""
        self.steps += 1
        self.waits += 1
        if len(self.ready) < 2 or self.waits > 100000:
            raise SimHang("the concurrent tasks wait for each other")
        self._leave(self.me.id)

    def _leave(self, me):
        self.due = False
        nxt = self.r.choice([x for x in self.ready if x != me])
        self._go(nxt)
        self.sem[me].acquire()
        self.cur = me

    def _go(self, nxt):
        self.switches += 1
        self.sim.interleave.update(b"%d@%d;" % (nxt, self.steps))
        self.sim.log.append(f"  -> task {nxt}")
        self.cur = nxt
        self.sem[nxt].release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and (self.due or self.line and self.r.random() < self.line):
            self.point(0)
        return self._line

    def _body(self, i, fn):
        self.me.id = i
        self.sem[i].acquire()
        self.cur = i
        try:
            if self.line or self.stay < 1:
                sys.settrace(self._trace)
            try:
                self.out[i] = Outcome("ok", fn())
            finally:
                sys.settrace(None)
        except BaseException as e:
            e.__traceback__ = None
            c = e.__context__
            while c is not None:
                c.__traceback__ = None
                c = c.__context__
            self.out[i] = Outcome("hang" if isinstance(e, SimHang) else "exc", exc=e)
        self.due = False
        self.ready.remove(i)
        self.me.id = None
        if self.ready:
            self._go(self.r.choice(self.ready))
        else:
            self.done.set()

    # -- called by the check, inside sim.call
    def run(self, fns):
        global active
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.ready = list(range(n))
        self.out = [None] * n
        self.done = threading.Event()
        ts = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        was = gc.isenabled()
        gc.disable()
        self.sim.sched = active = self
        try:
            for t in ts:
                t.start()
            self._go(self.r.choice(self.ready))
            idle = 0
            while not self.done.wait(2):
                s = self.steps, self.switches
                if self.done.wait(4):
                    break
                if (self.steps, self.switches) == s:
                    # the running task waits for something another one holds: let the others go on
                    idle += 1
                    if idle > 8:
                        raise SimHang("the concurrent tasks wait for each other")
                    for x in list(self.ready):
                        if x != self.cur:
                            self.sem[x].release()
                            break
            for t in ts:
                t.join(10)
        finally:
            self.sim.sched = active = None
            if was:
                gc.enable()
        return self.out
