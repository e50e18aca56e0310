"""A simulated multiprocessing.Pool / ProcessPoolExecutor.

Workers are real forked processes (so that their globals are their own), but each is driven synchronously: it only ever
runs when the seeded scheduler hands it a task, and its result is only delivered when the scheduler says so.
"""
import itertools
import os
import pickle
import random
import struct
import sys


class WorkerFault(Exception):
    """Injected failure inside a worker."""


class Unpicklable(Exception):
    def __init__(self, a, b):
        super().__init__("cannot travel")
        self.lock = open(os.devnull)  # file objects do not pickle


class Scheduler:
    def __init__(self, plan, res):
        self.rng = random.Random(plan["seed"])
        self.cpus = plan["cpus"]
        self.fault = {int(k): v for k, v in plan.get("faults", {}).items()}  # task number -> kind
        self.interrupt_at = plan.get("interrupt_at")  # n-th time the caller waits
        self.fail_start = plan.get("fail_start", False)
        self.eager = plan.get("eager", 0.5)
        self.waits = 0
        self.now = 0.0
        self.pools = []
        self.res = res
        self.task_no = itertools.count()
        self.trace = []
        self.fired = []

    def ev(self, *e):
        self.trace.append(e)
        self.res.log(*e)
        self.res.count("steps")


S = None  # the scheduler of the current run


def _send(fd, obj):
    data = obj if isinstance(obj, bytes) else pickle.dumps(obj)
    data = struct.pack("q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exact(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    return exact(struct.unpack("q", exact(8))[0])


class Worker:
    def __init__(self, wid, initializer, initargs):
        self.wid = wid
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._child(r1, w2, initializer, initargs)
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.busy = None
        self.done = 0

    @staticmethod
    def _child(rfd, wfd, initializer, initargs):
        from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError

        if initializer is not None:
            initializer(*initargs)
        while True:
            msg = pickle.loads(_recv(rfd))
            kind, payload = msg
            try:
                func, args, kwds = pickle.loads(payload)
                if kind == "memory":
                    raise MemoryError("injected")
                if kind == "fault":
                    raise WorkerFault("injected")
                if kind == "os":
                    raise OSError(12, "injected")
                if kind == "unpicklable":
                    raise Unpicklable(1, 2)
                out = (True, func(*args, **kwds))
            except Exception as e:
                out = (False, ExceptionWithTraceback(e, e.__traceback__))
            try:
                data = pickle.dumps(out)
                pickle.loads(data)
            except Exception as e:
                data = pickle.dumps((False, MaybeEncodingError(e, out[1])))
            _send(wfd, data)

    def run(self, kind, payload):
        _send(self.w, (kind, payload))
        return pickle.loads(_recv(self.r))

    def stop(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            os.kill(self.pid, 9)
            os.waitpid(self.pid, 0)
            self.pid = 0


class AsyncResult:
    def __init__(self, pool, callback=None, error_callback=None):
        self._pool = pool
        self._ready = False
        self._cb, self._ecb = callback, error_callback

    def ready(self):
        S.now += 0.001
        self._pool._maybe_step()
        return self._ready

    def successful(self):
        if not self._ready:
            raise ValueError("{0!r} not ready".format(self))
        return self._success

    def wait(self, timeout=None):
        self._pool._block(lambda: self._ready, timeout)

    def get(self, timeout=None):
        import multiprocessing

        self.wait(timeout)
        if not self._ready:
            raise multiprocessing.TimeoutError
        if self._success:
            return self._value
        raise self._value

    def _set(self, ok, value):
        self._ready, self._success, self._value = True, ok, value
        cb = self._cb if ok else self._ecb
        if cb:
            cb(value)


class _Map(AsyncResult):
    def __init__(self, pool, n, chunk, cb, ecb):
        super().__init__(pool, cb, ecb)
        self.left = -(-n // chunk) if n else 0
        self.out = [None] * n
        self.chunk = chunk
        self._err = None
        if n == 0:
            self._ready, self._success, self._value = True, True, []

    def part(self, i, ok, value):
        self.left -= 1
        if ok:
            self.out[i * self.chunk : (i + 1) * self.chunk] = value
        elif self._err is None:
            self._err = value
        if self.left == 0:
            if self._err is not None:
                self._set(False, self._err)
            else:
                self._set(True, self.out)


def _mapchunk(func, items, star):
    return [func(*i) if star else func(i) for i in items]


class _IMap:
    def __init__(self, pool, ordered, chunk):
        self.pool, self.ordered, self.chunk = pool, ordered, chunk
        self.items = []
        self.unsorted = {}
        self.idx = 0
        self.length = None
        self.given = 0

    def __iter__(self):
        return self

    def push(self, i, ok, value):
        vals = [(ok, v) for v in value] if ok else [(False, value)]
        if not self.ordered:
            self.items += vals
            self.idx += 1
            return
        self.unsorted[i] = vals
        while self.idx in self.unsorted:
            self.items += self.unsorted.pop(self.idx)
            self.idx += 1

    def next(self, timeout=None):
        import multiprocessing

        if not self.items:
            if self.idx == self.length:
                raise StopIteration
            self.pool._block(lambda: self.items or self.idx == self.length, timeout)
            if not self.items:
                if self.idx == self.length:
                    raise StopIteration
                raise multiprocessing.TimeoutError
        ok, v = self.items.pop(0)
        if ok:
            return v
        raise v

    __next__ = next


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or S.cpus
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        if S.fail_start:
            S.fail_start = False
            S.fired.append("fork")
            S.res.count("fault:fork_failure")
            raise OSError(11, "Resource temporarily unavailable")
        self._max = maxtasksperchild
        self._init = (initializer, initargs)
        self._state = "RUN"
        self._joined = False
        self._queue = []
        self._workers = [Worker(i, initializer, initargs) for i in range(n)]
        self._processes = n
        S.pools.append(self)
        S.ev("pool", n)

    # ---- scheduling
    def _enabled(self):
        ev = []
        if self._state == "TERMINATE":
            return ev
        if self._queue:
            ev += [("pickup", w) for w in self._workers if w.busy is None]
        ev += [("finish", w) for w in self._workers if w.busy is not None]
        return ev

    def _step(self):
        ev = self._enabled()
        if not ev:
            return False
        kind, w = S.rng.choice(ev)
        S.now += S.rng.random()
        if kind == "pickup":
            no, fkind, payload, done = self._queue.pop(0)
            out = w.run(fkind, payload)
            if fkind:
                S.fired.append(fkind)
                S.res.count("fault:worker_" + fkind)
            w.busy = (no, out, done)
            S.ev("pickup", w.wid, no)
        else:
            no, (ok, val), done = w.busy
            w.busy = None
            w.done += 1
            S.ev("finish", w.wid, no, ok)
            S.res.count("switches")
            if self._max and w.done >= self._max:
                i = self._workers.index(w)
                w.stop()
                self._workers[i] = Worker(w.wid, *self._init)
            done(ok, val)
        return True

    def _maybe_step(self):
        while S.rng.random() < S.eager and self._step():
            pass

    def _block(self, cond, timeout):
        S.waits += 1
        if S.interrupt_at is not None and S.waits > S.interrupt_at:
            S.interrupt_at = None
            S.fired.append("interrupt")
            S.res.count("fault:interrupt")
            raise KeyboardInterrupt
        limit = None if timeout is None else S.now + timeout
        n = 0
        while not cond():
            if limit is not None and S.now > limit:
                return
            n += 1
            if not self._step():
                if limit is not None:
                    S.now = limit + 1
                    continue
                from .core import Bad

                raise Bad("pool-deadlock", "the caller waits for a result that can never arrive")
            if n > 100000:
                from .core import Bad

                raise Bad("pool-no-progress", "")

    def _submit(self, func, args, kwds, done):
        no = next(S.task_no)
        kind = S.fault.get(no)
        try:
            payload = pickle.dumps((func, args, kwds))
        except Exception as e:
            done(False, e)
            return
        self._queue.append((no, kind, payload, done))
        self._maybe_step()

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    # ---- API
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        r = AsyncResult(self, callback, error_callback)
        self._submit(func, args, kwds, r._set)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _chunk(self, items, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        return max(1, chunksize)

    def _map_async(self, func, iterable, star, chunksize, cb, ecb):
        self._check()
        items = list(iterable)
        c = self._chunk(items, chunksize)
        m = _Map(self, len(items), c, cb, ecb)
        for i in range(0, len(items), c):
            self._submit(_mapchunk, (func, items[i : i + c], star), {}, (lambda k: lambda ok, v: m.part(k, ok, v))(i // c))
        return m

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, False, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, True, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        it = _IMap(self, ordered, chunksize)
        items = list(iterable)
        n = 0
        for i in range(0, len(items), chunksize):
            self._submit(_mapchunk, (func, items[i : i + chunksize], False), {}, (lambda k: lambda ok, v: it.push(k, ok, v))(n))
            n += 1
        it.length = n
        return it

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        S.ev("close")
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        S.ev("terminate")
        self._state = "TERMINATE"
        self._kill()

    def join(self):
        S.ev("join")
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        while self._step():
            pass
        self._kill()
        self._joined = True

    def _kill(self):
        for w in self._workers:
            w.stop()

    def _released(self):
        return all(w.pid == 0 for w in self._workers)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimExecutor(SimPool):
    """concurrent.futures.ProcessPoolExecutor on the same workers."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None):
        super().__init__(max_workers, initializer, initargs, max_tasks_per_child)

    def submit(self, fn, /, *args, **kwargs):
        if self._state != "RUN":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture(self)
        self._submit(fn, args, kwargs, f._done)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        S.ev("shutdown", wait, cancel_futures)
        if cancel_futures:
            self._queue.clear()
        self._state = "CLOSE"
        if wait:
            while self._step():
                pass
            self._kill()

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


import concurrent.futures as _cf  # noqa: E402


class SimFuture(_cf.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex
        self.set_running_or_notify_cancel()

    def _done(self, ok, v):
        self.set_result(v) if ok else self.set_exception(v)

    def result(self, timeout=None):
        self._ex._block(self.done, timeout)
        return super().result(timeout=0)

    def exception(self, timeout=None):
        self._ex._block(self.done, timeout)
        return super().exception(timeout=0)


_real = (_cf.as_completed, _cf.wait)


def _as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        if isinstance(left[0], SimFuture):
            left[0]._ex._block(lambda: any(f.done() for f in left), timeout)
        d = [f for f in left if f.done()]
        if not d:
            raise _cf.TimeoutError
        f = S.rng.choice(d)
        left.remove(f)
        yield f


def _wait(fs, timeout=None, return_when=_cf.ALL_COMPLETED):
    fs = list(fs)
    cond = (lambda: all(f.done() for f in fs)) if return_when == _cf.ALL_COMPLETED else (lambda: any(f.done() for f in fs))
    if fs and isinstance(fs[0], SimFuture):
        fs[0]._ex._block(cond, timeout)
    return _real[1](fs, timeout=0, return_when=return_when)


class _Ctx:
    def __init__(self, method=None):
        self.method = method or "fork"

    def Pool(self, *a, **k):
        return SimPool(*a, **k)

    def cpu_count(self):
        return S.cpus

    def get_context(self, method=None):
        return _Ctx(method)

    def get_start_method(self, allow_none=False):
        return self.method


def install():
    """Replace the pool constructors.  To be called before the code under test is imported."""
    import concurrent.futures.process
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool

    multiprocessing.Pool = lambda *a, **k: SimPool(*a, **k)
    multiprocessing.pool.Pool = SimPool
    real_ctx = multiprocessing.get_context
    multiprocessing.get_context = lambda method=None: _Ctx(method)
    multiprocessing.cpu_count = lambda: S.cpus
    os.cpu_count = lambda: S.cpus if S is not None else 4
    os.sched_getaffinity = lambda pid=0: set(range(S.cpus if S is not None else 4))
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    _cf.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    _cf.as_completed, _cf.wait = _as_completed, _wait
    return real_ctx


def begin(plan, res):
    global S
    S = Scheduler(plan, res)
    return S


def end():
    """Reap whatever the code left behind; -> list of pools that were not released."""
    left = [p for p in S.pools if not p._released()]
    for p in left:
        p._kill()
    return left
