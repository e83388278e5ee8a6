"""Process pools of the standard library, on simulated processes."""
import multiprocessing
import multiprocessing.pool
import os
import pickle
import traceback

from . import proc as pm
from .proc import Unsupported

_real_Pool = multiprocessing.Pool
_real_get_context = multiprocessing.get_context
_real_cpu_count = multiprocessing.cpu_count


class _Remote(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _rebuild(exc, tb):
    exc.__cause__ = _Remote(tb)
    return exc


def _worker(P, tq, rq, initializer, initargs, maxtasks):
    if initializer is not None:
        initializer(*initargs)
    n = 0
    while maxtasks is None or n < maxtasks:
        r = P.req('qget', tq)
        if r[0] == 'closed':
            break
        n += 1
        P.op('t%d' % n)
        job, blob = pickle.loads(r[1])
        try:
            func, args, kwds = pickle.loads(blob)
            res = (True, func(*args, **kwds))
        except Exception as e:
            res = (False, e, traceback.format_exc())
        P.inside = True
        try:
            try:
                out = pickle.dumps((job, res))
                pickle.loads(out)
            except Exception:
                out = pickle.dumps((job, (False, multiprocessing.pool.MaybeEncodingError(
                    res[1], 'cannot be pickled'), '')))
            P.req('qput', rq, out)
        finally:
            P.inside = False
    return None


class AsyncResult:
    def __init__(self, pool, job, callback=None, error_callback=None, post=None):
        self._pool, self._job = pool, job
        self._cb, self._ecb, self._post = callback, error_callback, post
        self._done = None

    def _set(self, res):
        self._done = res
        if res[0] and self._cb:
            self._cb(self._value())
        if not res[0] and self._ecb:
            self._ecb(res[1])

    def _value(self):
        v = self._done[1]
        return self._post(v) if self._post else v

    def ready(self):
        self._pool._drain()
        return self._done is not None

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self._done[0]

    def wait(self, timeout=None):
        self._pool._wait_for([self])

    def get(self, timeout=None):
        self.wait()
        if self._done[0]:
            return self._value()
        raise _rebuild(self._done[1], self._done[2])


class _Multi:
    """Result of map-like calls."""

    def __init__(self, parts, callback=None, error_callback=None):
        self._parts, self._cb, self._ecb, self._called = parts, callback, error_callback, False

    def ready(self):
        return all(p.ready() for p in self._parts)

    def successful(self):
        if not self.ready():
            raise ValueError('not ready')
        return all(p.successful() for p in self._parts)

    def wait(self, timeout=None):
        for p in self._parts:
            p.wait()

    def get(self, timeout=None):
        self.wait()
        try:
            vals = [p.get() for p in self._parts]
        except Exception as e:
            if self._ecb and not self._called:
                self._called = True
                self._ecb(e)
            raise
        if self._cb and not self._called:
            self._called = True
            self._cb(vals)
        return vals


class SimPool:
    _counter = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        P = pm.CUR
        n = processes if processes is not None else (os.cpu_count() or 1)
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        SimPool._counter += 1
        base = '%s#%d' % (P.name, SimPool._counter)
        self._tq, self._rq = base + 'T', base + 'R'
        P.inside = True
        try:
            P.req('qnew', self._tq)
            P.req('qnew', self._rq)
        finally:
            P.inside = False
        tq, rq = self._tq, self._rq
        self._n = n
        self._workers = [
            pm.fork_child(lambda Q: _worker(Q, tq, rq, initializer, initargs, maxtasksperchild)) for _ in range(n)]
        self._jobs = {}
        self._next = 0
        self._state = 'RUN'

    # -- internals
    def _req(self, *m):
        P = pm.CUR
        P.inside = True
        try:
            return P.req(*m)
        finally:
            P.inside = False

    def _submit(self, func, args, kwds, callback=None, error_callback=None):
        if self._state != 'RUN':
            raise ValueError('Pool not running')
        job = self._next
        self._next += 1
        res = AsyncResult(self, job, callback, error_callback)
        self._jobs[job] = res
        try:
            blob = pickle.dumps((func, tuple(args), dict(kwds)))
        except Exception as e:
            res._set((False, e, traceback.format_exc()))
            del self._jobs[job]
            return res
        self._req('qput', self._tq, pickle.dumps((job, blob)))
        pm.CUR.point('submit', '', faultable=False)
        return res

    def _take(self, b):
        job, res = pickle.loads(b)
        r = self._jobs.pop(job, None)
        if r is not None:
            r._set(res)

    def _drain(self):
        while True:
            r = self._req('qtry', self._rq)
            if r[0] != 'item':
                return
            self._take(r[1])

    def _wait_for(self, results):
        while any(r._done is None for r in results):
            self._take(self._req('qget', self._rq)[1])

    # -- public
    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, args, kwds, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Multi([self._submit(func, (x,), {}) for x in iterable], callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Multi([self._submit(func, tuple(x), {}) for x in iterable], callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        parts = [self._submit(func, (x,), {}) for x in iterable]
        return (p.get() for p in parts)

    def imap_unordered(self, func, iterable, chunksize=1):
        parts = [self._submit(func, (x,), {}) for x in iterable]

        def gen():
            left = list(parts)
            while left:
                self._drain()
                done = [p for p in left if p._done is not None]
                if not done:
                    self._take(self._req('qget', self._rq)[1])
                    continue
                for p in done:
                    left.remove(p)
                    yield p.get()
        return gen()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'
            self._req('qclose', self._tq)

    def terminate(self):
        self._state = 'TERMINATE'
        self._req('killp', self._workers)

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        if self._state == 'CLOSE':
            self._wait_for([r for r in self._jobs.values()])
        self._req('waitexit', self._workers)
        self._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimProcess:
    """multiprocessing.Process on a simulated process."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._t, self._a, self._k = target, args, kwargs or {}
        self.name, self.daemon, self.exitcode, self._sim = name or 'Process', daemon, None, None

    def run(self):
        if self._t:
            self._t(*self._a, **self._k)

    def start(self):
        def body(P):
            P.op('t1')
            self.run()
        self._sim = pm.fork_child(body)

    def join(self, timeout=None):
        P = pm.CUR
        P.inside = True
        try:
            P.req('waitexit', [self._sim])
        finally:
            P.inside = False
        self.exitcode = 0

    def is_alive(self):
        P = pm.CUR
        P.inside = True
        try:
            return bool(P.req('alive', [self._sim])[0])
        finally:
            P.inside = False

    def terminate(self):
        P = pm.CUR
        P.inside = True
        try:
            P.req('killp', [self._sim])
        finally:
            P.inside = False

    kill = terminate


class _Context:
    def __init__(self, method=None):
        self._method = method

    Pool = staticmethod(SimPool)
    Process = SimProcess

    def cpu_count(self):
        return os.cpu_count()

    def get_start_method(self, allow_none=False):
        return self._method or 'fork'

    def __getattr__(self, name):
        raise Unsupported('multiprocessing context attribute %s' % name)


def Pool(*a, **kw):
    return SimPool(*a, **kw) if pm.CUR is not None else _real_Pool(*a, **kw)


def get_context(method=None):
    return _Context(method) if pm.CUR is not None else _real_get_context(method)


def cpu_count():
    return os.cpu_count() if pm.CUR is not None else _real_cpu_count()


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor on a simulated pool."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._pool = SimPool(max_workers, initializer, initargs)
        self._all = []

    def submit(self, fn, /, *args, **kwargs):
        import concurrent.futures
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        r = self._pool.apply_async(fn, args, kwargs, callback=f.set_result, error_callback=f.set_exception)
        orig, origx = f.result, f.exception

        def result(timeout=None):
            r.wait()
            return orig(0)

        def exception(timeout=None):
            r.wait()
            return origx(0)
        f.result, f.exception = result, exception
        f.done = lambda: r.ready()
        self._all.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def install():
    import concurrent.futures
    import concurrent.futures.process
    multiprocessing.Pool = Pool
    multiprocessing.get_context = get_context
    multiprocessing.cpu_count = cpu_count
    multiprocessing.pool.Pool = Pool
    real_P = multiprocessing.Process

    def Process(*a, **kw):
        return SimProcess(*a, **kw) if pm.CUR is not None else real_P(*a, **kw)
    multiprocessing.Process = Process
    real_ex = concurrent.futures.ProcessPoolExecutor

    def Executor(*a, **kw):
        return SimExecutor(*a, **kw) if pm.CUR is not None else real_ex(*a, **kw)
    concurrent.futures.ProcessPoolExecutor = Executor
    concurrent.futures.process.ProcessPoolExecutor = Executor
    real_wait, real_ac = concurrent.futures.wait, concurrent.futures.as_completed

    def wait(fs, *a, **kw):
        if pm.CUR is not None:
            for f in fs:
                f.exception()
        return real_wait(fs, *a, **kw)

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if pm.CUR is not None:
            for f in fs:
                f.exception()
        return real_ac(fs, timeout)
    concurrent.futures.wait, concurrent.futures.as_completed = wait, as_completed
