"""Process-pool seam: a seeded scheduler decides which worker runs which task when.

Every worker is a real forked child, so workers share nothing but the file system, as in
production.  Only one child runs at any moment: a child stops before each file operation
and asks the parent, whose scheduler picks the next child to move.  Completion order is
whatever the scheduler makes it."""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import multiprocessing
import multiprocessing.context
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import sys
import traceback
from multiprocessing.reduction import ForkingPickler

from . import core
from .core import SimCrash, SimHang


def S():
    s = core.CUR
    return s if s is not None and s.active else None


def _dumps(x):
    return bytes(ForkingPickler.dumps(x))


class _Link:
    """Child side of a worker's connection."""
    def __init__(self, conn, sim):
        self.conn, self.sim = conn, sim

    def op(self, cls, path, info):
        self.conn.send(("op", cls, path, info))
        r = self.conn.recv()
        if r[0] == "go":
            return r[1]
        if r[0] == "die":
            os._exit(9)
        raise pickle.loads(r[1])

    def tell(self, msg):
        self.conn.send(msg)
        self.conn.recv()


class _Worker:
    def __init__(self, sim, init):
        self.sim = sim
        self.conn, theirs = multiprocessing.Pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                self._serve(theirs, init)
            except BaseException:
                pass
            finally:
                os._exit(0)
        theirs.close()

    def _serve(self, conn, init):
        sim = self.sim
        sim.child = _Link(conn, sim)
        sim.pools = []
        sys.setprofile(None)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        if init is not None:
            init[0](*init[1])
        while True:
            msg = conn.recv()
            if msg is None:
                os._exit(0)
            cf = None
            try:
                fn, args, kw, cf = pickle.loads(msg)
                if cf is not None:
                    cf = core.CallFaults(*cf)
                    sys.setprofile(cf)
                try:
                    res = (True, fn(*args, **kw))
                finally:
                    sys.setprofile(None)
            except Exception as e:
                res = (False, multiprocessing.pool.ExceptionWithTraceback(e, e.__traceback__))
            try:
                data = _dumps(res)
            except Exception as e:
                data = _dumps((False, multiprocessing.pool.MaybeEncodingError(e, res[1])))
            conn.send(("done", data, cf and (cf.count, cf.fired)))

    def kill(self):
        try:
            self.conn.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, 9)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class _Job:
    """A list of calls scheduled as chunks over the pool's workers."""
    def __init__(self, pool, calls, chunksize, callback=None, error_callback=None, first_error=False):
        self.pool = pool
        self.n = len(calls)
        self.chunks = [list(range(i, min(i + chunksize, self.n))) for i in range(0, self.n, chunksize)]
        self.calls = calls
        self.results = [None] * self.n          # (ok, value)
        self.order = []                         # completion order of chunks
        self.finished = self.n == 0
        self.lost = False
        self.callback, self.error_callback = callback, error_callback
        self.first = pool.next_task
        pool.next_task += self.n

    def error(self):
        for r in self.results:
            if r is not None and not r[0]:
                return r[1]
        return None


class SimPoolBase:
    """Scheduler core, shared by multiprocessing.Pool and the executors."""
    def __init__(self, processes, init=None, threads=False):
        self.sim = S()
        self.nproc = processes
        self.init = init
        self.threads = threads
        self.workers = []
        self.queue = []
        self.state = "run"
        self.closed_ok = False
        self.next_task = 0
        self.sim.op("pool", self.sim.root, str(processes))      # may fail: EAGAIN, ENOMEM
        self.sim.pools.append(self)
        self.sim.log.append(f"pool {processes}{'t' if threads else ''}")

    def _reap(self):
        for w in self.workers:
            w.kill()
        self.workers = []

    def _drain(self):
        """Run every queued job to completion under the scheduler."""
        while self.queue:
            self._run(self.queue.pop(0))

    # one job: chunks are handed out in order to idle workers; the scheduler picks moves
    def _run(self, job):
        sim, rng = self.sim, self.sim.rng_sched
        todo = list(range(len(job.chunks)))
        idle = list(range(min(self.nproc, len(job.chunks))))
        run = {}                     # worker index -> [chunk, position, state]
        if self.threads and self.init is not None:
            self.init[0](*self.init[1])
            self.init = None
        while todo or run:
            moves = [("step", w) for w in sorted(run)]
            if todo and idle:
                moves.append(("start", None))
            mv, w = moves[rng.randrange(len(moves))]
            if mv == "start":
                w = idle.pop(rng.randrange(len(idle)))
                c = todo.pop(0)
                run[w] = [c, 0, "begin"]
                sim.interleave.update(b"s%d.%d;" % (w, c))
                sim.log.append(f"  w{w} takes chunk {c}")
                continue
            sim.interleave.update(b"m%d;" % w)
            self._move(job, w, run[w])
            if run[w][2] == "end":
                job.order.append(run[w][0])
                sim.log.append(f"  w{w} done chunk {run[w][0]}")
                self._chunk_done(job, run[w][0])
                del run[w]
                idle.append(w)
        job.finished = True
        e = job.error()
        if e is None:
            if job.callback:
                job.callback([r[1] for r in job.results] if job.many else job.results[0][1])
        elif job.error_callback:
            job.error_callback(e)

    def _chunk_done(self, job, c):
        pass

    def _move(self, job, w, st):
        """Let worker w run to its next file operation or to the end of its task."""
        sim = self.sim
        idxs = job.chunks[st[0]]
        if st[2] == "begin":
            i = idxs[st[1]]
            ti = job.first + i
            fault = None
            for f in sim.faults.get(("task", ti + 1), ()):
                fault = f
            if fault is not None:
                sim.injected[f"task-{fault['exc']}"] += 1
                sim.log.append(f"  !task {ti} {fault['exc']}")
                exc = {"MemoryError": MemoryError("injected"), "OSError": core.mkerr("EIO", "worker"),
                       "ValueError": ValueError("injected"), "RuntimeError": RuntimeError("injected"),
                       "KeyError": KeyError("injected"), "ZeroDivisionError": ZeroDivisionError("injected"),
                       "AttributeError": AttributeError("injected"),
                       "IndexError": IndexError("injected")}[fault["exc"]]
                return self._task_end(job, st, i, (False, exc))
            fn, args, kw = job.calls[i]
            if self.threads:
                try:
                    return self._task_end(job, st, i, (True, fn(*args, **kw)))
                except Exception as e:
                    return self._task_end(job, st, i, (False, e))
            while len(self.workers) <= w:
                self.workers.append(_Worker(sim, self.init))
            cf = sim.call_faults(ti)
            self.workers[w].conn.send(_dumps((fn, args, kw, cf and (cf.n, cf.exc))))
            st[2] = "running"
            return self._listen(job, w, st)
        # parked at an operation: grant it
        cls, path, info = st[3]
        conn = self.workers[w].conn
        try:
            act = sim._op(cls, path, info, who=(job.first + idxs[st[1]],))
        except SimCrash:
            for x in self.workers:
                x.kill()
            self.workers = []
            raise
        except Exception as e:
            conn.send(("raise", pickle.dumps(e)))
        else:
            conn.send(("go", act))
            if act is not None and act["do"] == "torn":
                try:
                    conn.recv()
                except (EOFError, OSError):
                    pass
                sim.dead = True
                self._reap()
                raise SimCrash()
        return self._listen(job, w, st)

    def _listen(self, job, w, st):
        while True:
            try:
                msg = self.workers[w].conn.recv()
            except (EOFError, OSError):
                raise SimHang("a worker process died; its task is lost and the pool waits for ever")
            if msg[0] == "op":
                st[2:] = ["parked", msg[1:]]
                return
            if msg[0] == "sticky":
                self.sim.sticky.append({"ops": msg[1], "errno": msg[2]})
                self.workers[w].conn.send(None)
                continue
            i = job.chunks[st[0]][st[1]]
            if msg[2]:
                ti = job.first + i
                self.sim.tcalls[ti] = msg[2][0]
                if msg[2][1]:
                    self.sim.injected["task-alloc"] += 1
                    self.sim.log.append(f"  !task {ti} MemoryError at call {msg[2][0]} {msg[2][1]}")
            return self._task_end(job, st, i, pickle.loads(msg[1]))

    def _task_end(self, job, st, i, res):
        job.results[i] = res
        if not res[0]:
            # as multiprocessing: an exception ends the chunk
            st[1] = len(job.chunks[st[0]])
        else:
            st[1] += 1
        st[2] = "end" if st[1] >= len(job.chunks[st[0]]) else "begin"
        del st[3:]


class SimAsyncResult:
    def __init__(self, pool, job, many):
        self._pool, self._job, self._many = pool, job, many
        job.many = many

    def _finish(self):
        if not self._job.finished:
            if self._job.lost:
                raise SimHang("result of a terminated pool is awaited")
            self._pool._drain()

    def wait(self, timeout=None):
        self._finish()

    def ready(self):
        return self._job.finished

    def successful(self):
        if not self._job.finished:
            raise ValueError("not ready")
        return self._job.error() is None

    def get(self, timeout=None):
        self._finish()
        e = self._job.error()
        if e is not None:
            raise e
        vals = [r[1] for r in self._job.results]
        return vals if self._many else vals[0]


class SimPool(SimPoolBase):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = S()
        if processes is None:
            processes = s.cores or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        super().__init__(processes, (initializer, initargs) if initializer else None)

    def _check(self):
        if self.state != "run":
            raise ValueError("Pool not running")

    def _submit(self, fn, argtuples, chunksize, many=True, callback=None, error_callback=None):
        self._check()
        calls = [(fn, tuple(a), {}) for a in argtuples]
        if not self.threads:
            for c in calls:
                _dumps(c)                     # unpicklable work fails here
        if chunksize is None:
            chunksize, extra = divmod(len(calls), self.nproc * 4)
            if extra:
                chunksize += 1
        job = _Job(self, calls, max(1, chunksize), callback, error_callback)
        self.queue.append(job)
        return SimAsyncResult(self, job, many)

    def map(self, func, iterable, chunksize=None):
        return self._submit(func, [(x,) for x in iterable], chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._submit(func, list(iterable), chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, [(x,) for x in iterable], chunksize, True, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, list(iterable), chunksize, True, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        if not self.threads:
            _dumps((func, args, kwds))
        job = _Job(self, [(func, tuple(args), dict(kwds))], 1, callback, error_callback)
        # consecutive apply_async calls run concurrently: merge them into one batch
        self.queue.append(job)
        return SimAsyncResult(self, job, False)

    def _drain(self):
        # jobs of one task each, queued together, run concurrently in reality
        q, self.queue = self.queue, []
        while q:
            if len(q) > 1 and all(len(j.calls) == 1 for j in q):
                calls = [j.calls[0] for j in q]
                big = _Job(self, calls, 1)
                big.many = True
                big.first = q[0].first
                owner = q

                def done(job, c, owner=owner, big=big):
                    j = owner[c]
                    j.results[0] = big.results[c]
                    j.finished = True
                    ok, v = j.results[0]
                    if ok and j.callback:
                        j.callback(v)
                    elif not ok and j.error_callback:
                        j.error_callback(v)
                old, self._chunk_done = self._chunk_done, done
                try:
                    self._run(big)
                finally:
                    self._chunk_done = old
                q = []
            else:
                self._run(q.pop(0))

    def imap(self, func, iterable, chunksize=1):
        r = self._submit(func, [(x,) for x in iterable], chunksize)
        return self._iter(r, False)

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._submit(func, [(x,) for x in iterable], chunksize)
        return self._iter(r, True)

    def _iter(self, r, unordered):
        r._finish()
        job = r._job
        order = [i for c in (job.order if unordered else range(len(job.chunks))) for i in job.chunks[c]]
        for i in order:
            res = job.results[i]
            if res is None:
                continue
            if not res[0]:
                raise res[1]
            yield res[1]

    def close(self):
        if self.state == "run":
            self.state = "close"

    def terminate(self):
        # whatever has not finished by now is lost; the scheduler lets some jobs finish
        while self.queue:
            job = self.queue.pop(0)
            if self.sim.rng_sched.random() < 0.3:
                self._run(job)
            else:
                job.lost = True
        self.state = "term"
        self._reap()
        self.closed_ok = True

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        self._drain()
        self._reap()
        self.closed_ok = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        if a and a[0] is not None and issubclass(a[0], (SimCrash, SimHang)):
            self._reap()
            return
        self.terminate()


class SimThreadPool(SimPool):
    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)
        self.threads = True


class SimFuture(concurrent.futures.Future):
    _ex = None

    def result(self, timeout=None):
        if not self.done():
            self._ex._drain_all()
        return super().result(0)

    def exception(self, timeout=None):
        if not self.done():
            self._ex._drain_all()
        return super().exception(0)


class SimExecutor(SimPoolBase):
    threads_kind = False

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        s = S()
        n = max_workers or s.cores or 1
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        super().__init__(n, (initializer, initargs) if initializer else None, self.threads_kind)
        self.pending = []
        self.completed = []

    def submit(self, fn, /, *args, **kw):
        if self.state != "run":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._ex = self
        if not self.threads:
            _dumps((fn, args, kw))
        self.pending.append((f, (fn, args, kw)))
        return f

    def _drain_all(self):
        p, self.pending = self.pending, []
        if not p:
            return
        job = _Job(self, [c for _, c in p], 1)
        job.many = True

        def done(job, c):
            ok, v = job.results[c]
            f = p[c][0]
            self.completed.append(f)
            f.set_result(v) if ok else f.set_exception(v)
        self._chunk_done = done
        self._run(job)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            for f, _ in self.pending:
                f.cancel()
            self.pending = []
        self._drain_all()
        self.state = "close"
        self._reap()
        self.closed_ok = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a and a[0] is not None and issubclass(a[0], (SimCrash, SimHang)):
            self._reap()
            return False
        self.shutdown()
        return False


class SimThreadExecutor(SimExecutor):
    threads_kind = True


_real = {}


def _factory(real, sim_cls):
    class Meta(type(real)):
        def __call__(cls, *a, **k):
            if cls is proxy and S() is not None and S().child is None:
                return sim_cls(*a, **k)
            return type.__call__(cls, *a, **k)

        def __instancecheck__(cls, x):
            return type.__instancecheck__(cls, x) or (cls is proxy and isinstance(x, (real, sim_cls)))
    proxy = Meta(real.__name__, (real,), {"__module__": real.__module__})
    return proxy


def install():
    _real["Pool"] = multiprocessing.context.BaseContext.Pool

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if S() is not None and S().child is None:
            return SimPool(processes, initializer, initargs, maxtasksperchild)
        return _real["Pool"](self, processes, initializer, initargs, maxtasksperchild)
    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.pool.Pool = _factory(multiprocessing.pool.Pool, SimPool)
    multiprocessing.pool.ThreadPool = _factory(multiprocessing.pool.ThreadPool, SimThreadPool)
    rd = multiprocessing.dummy.Pool

    def dummy_pool(processes=None, initializer=None, initargs=()):
        if S() is not None and S().child is None:
            return SimThreadPool(processes, initializer, initargs)
        return rd(processes, initializer, initargs)
    multiprocessing.dummy.Pool = dummy_pool
    ppe = _factory(concurrent.futures.ProcessPoolExecutor, SimExecutor)
    tpe = _factory(concurrent.futures.ThreadPoolExecutor, SimThreadExecutor)
    concurrent.futures.ProcessPoolExecutor = ppe
    concurrent.futures.process.ProcessPoolExecutor = ppe
    concurrent.futures.ThreadPoolExecutor = tpe
    concurrent.futures.thread.ThreadPoolExecutor = tpe
    real_ac, real_wait = concurrent.futures.as_completed, concurrent.futures.wait

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if not any(isinstance(f, SimFuture) for f in fs):
            yield from real_ac(fs, timeout)
            return
        exs = {id(f._ex): f._ex for f in fs}
        for ex in exs.values():
            ex._drain_all()
        want = set(map(id, fs))
        for ex in exs.values():
            for f in ex.completed:
                if id(f) in want:
                    yield f

    def wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
        fs = list(fs)
        for f in fs:
            if isinstance(f, SimFuture) and not f.done():
                f._ex._drain_all()
        return real_wait(fs, timeout, return_when)
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait
