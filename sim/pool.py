"""
Simulated worker processes: replacements of multiprocessing.Pool, ThreadPool and
concurrent.futures executors that are active while a World with a pool plan is.

Arguments and results are pickled, every worker owns a copy of the state of the
random generator taken when the pool was created (fork), chunks are given to
workers and completed in an order drawn from the seed, and chosen tasks fail.
"""
import pickle
import random
from . import seams


class WorkerFailure(RuntimeError):
    """failure of a worker injected by the simulator"""


class Plan:
    def __init__(self, seed, fail=None, processes=None):
        self.rng = random.Random(seed)
        self.fail = fail                 # dict(task=k, how=..., at=...)
        self.processes = processes
        self.tasks = 0
        self.runs = []                   # Task records in order of execution
        self.fired = []
        self.pools = 0
        self.started = None              # called with the record before a task


class Task:
    def __init__(self, number, worker):
        self.number, self.worker = number, worker
        self.draws = []
        self.seen = []


def plan():
    return getattr(seams.CUR, 'pool_plan', None) if seams.CUR is not None else None


class Crew:
    """workers of one pool"""

    def __init__(self, n):
        P = plan()
        P.pools += 1
        self.n = max(1, min(n or 8, P.processes or 10 ** 6))
        W = seams.CUR
        state = W.rs.get_state()
        self.rs = []
        for _ in range(self.n):
            r = seams._real_RandomState(0)
            r.set_state(state)
            self.rs.append(r)

    def one(self, worker, fn, args, kwargs):
        """execute one task in a worker; returns (ok, value)"""
        W, P = seams.CUR, plan()
        t = Task(P.tasks, worker)
        P.tasks += 1
        P.runs.append(t)
        parent = W.rs
        W.rs = self.rs[worker]
        W.task = t
        old = W.fault
        try:
            f = P.fail
            if f is not None and f['task'] == t.number:
                if f['how'] in ('raise', 'value', 'assert', 'memory'):
                    P.fired.append(f['how'])
                if f['how'] == 'raise':
                    raise WorkerFailure('injected failure of task %d' % t.number)
                if f['how'] == 'value':
                    raise ValueError('injected failure of task %d' % t.number)
                if f['how'] == 'assert':
                    raise AssertionError('injected failure of task %d' % t.number)
                if f['how'] == 'memory':
                    raise MemoryError('injected failure of task %d' % t.number)
                W.fault = dict(kind=f['how'], at=W.count[f['how']] + f['at'])
            v = fn(*args, **kwargs)
            return True, pickle.loads(pickle.dumps(v))
        except Exception as e:
            return False, e
        except KeyboardInterrupt as e:
            return False, WorkerFailure('worker interrupted: %s' % e)
        finally:
            self.rs[worker] = W.rs
            W.rs = parent
            W.fault = old
            W.task = None

    def chunk(self, fn, items, star=False):
        fn, items = pickle.loads(pickle.dumps((fn, items)))
        w = plan().rng.randrange(self.n)
        out = []
        for a in items:
            ok, v = self.one(w, fn, a if star else (a,), {})
            if not ok:
                return ok, v
            out.append(v)
        return True, out

    def spread(self, fn, items, chunksize, star=False):
        """-> list of (chunk number, ok, values) in order of completion"""
        items = list(items)
        n = len(items)
        if not chunksize:
            chunksize, extra = divmod(n, self.n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [items[a:a + chunksize] for a in range(0, n, chunksize)]
        order = list(range(len(chunks)))
        plan().rng.shuffle(order)
        done = []
        for c in order:
            ok, v = self.chunk(fn, chunks[c], star)
            done.append((c, ok, v))
        return done


class Result:
    def __init__(self, compute, callback=None, error_callback=None):
        self.compute, self.got = compute, None
        self.cb, self.ecb = callback, error_callback

    def _run(self):
        if self.got is None:
            self.got = self.compute()
            ok, v = self.got
            if ok and self.cb:
                self.cb(v)
            if not ok and self.ecb:
                self.ecb(v)
        return self.got

    def get(self, timeout=None):
        ok, v = self._run()
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        self._run()
        return True

    def successful(self):
        return self._run()[0]


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._crew = Crew(processes)
        self._pending = []
        if initializer is not None:
            initializer(*initargs)

    def _all(self, fn, items, chunksize, star=False):
        done = self._crew.spread(fn, items, chunksize, star)
        for c, ok, v in done:            # the first failure that arrives
            if not ok:
                return False, v
        return True, [x for c, ok, v in sorted(done, key=lambda d: d[0]) for x in v]

    def map(self, func, iterable, chunksize=None):
        return Result(lambda: self._all(func, iterable, chunksize)).get()

    def starmap(self, func, iterable, chunksize=None):
        return Result(lambda: self._all(func, iterable, chunksize, True)).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = Result(lambda: self._all(func, iterable, chunksize), callback, error_callback)
        self._pending.append(r)
        return r

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = Result(lambda: self._all(func, iterable, chunksize, True), callback, error_callback)
        self._pending.append(r)
        return r

    def imap(self, func, iterable, chunksize=1):
        done = sorted(self._crew.spread(func, iterable, chunksize), key=lambda d: d[0])
        return self._iter(done)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._iter(self._crew.spread(func, iterable, chunksize))

    @staticmethod
    def _iter(done):
        for c, ok, v in done:
            if not ok:
                raise v
            for x in v:
                yield x

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        def go():
            f, a, k = pickle.loads(pickle.dumps((func, args, kwds)))
            return self._crew.one(plan().rng.randrange(self._crew.n), f, a, k)
        r = Result(go, callback, error_callback)
        self._pending.append(r)
        return r

    def _settle(self):
        todo = [r for r in self._pending if r.got is None]
        plan().rng.shuffle(todo)
        for r in todo:
            r._run()

    def close(self):
        self._settle()

    def join(self):
        self._settle()

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SimFuture:
    def __init__(self, res):
        self._r = res
        self._cbs = []

    def result(self, timeout=None):
        return self._r.get()

    def exception(self, timeout=None):
        ok, v = self._r._run()
        return None if ok else v

    def done(self):
        return self._r.ready()

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        self._r._run()
        fn(self)


class SimExecutor:
    def __init__(self, max_workers=None, *a, **k):
        self._p = SimPool(max_workers)

    def submit(self, fn, *a, **k):
        return SimFuture(self._p.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*its)]
        self._p._settle()
        return (f.result() for f in futs)

    def shutdown(self, wait=True, cancel_futures=False):
        self._p._settle()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._p._settle()
        return False


def install():
    import multiprocessing.pool as mpp
    import concurrent.futures as cf
    import concurrent.futures.process as cfp
    import concurrent.futures.thread as cft

    def route(real, sim):
        class Routed(real):
            def __new__(cls, *a, **k):
                if plan() is not None:
                    return sim(*a, **k)
                return real(*a, **k)
        Routed.__name__ = real.__name__
        return Routed
    mpp.Pool = route(mpp.Pool, SimPool)
    mpp.ThreadPool = route(mpp.ThreadPool, SimPool)
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = route(cfp.ProcessPoolExecutor, SimExecutor)
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = route(cft.ThreadPoolExecutor, SimExecutor)
    seams._real['as_completed'] = cf.as_completed

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if plan() is None or not all(isinstance(f, SimFuture) for f in fs):
            return seams._real['as_completed'](fs, timeout)
        plan().rng.shuffle(fs)
        for f in fs:
            f.done()
        return iter(fs)
    cf.as_completed = as_completed
