"""A worker pool under the simulator's control.

Implements the documented multiprocessing.Pool / ThreadPool interface. Which
task runs when, in which order results arrive and which worker fails is decided
by the plan (a list of integers consumed one per decision); no real process or
thread is involved. In 'process' mode everything that crosses the boundary is
pickled and unpickled, several tasks of one chunk together, as the real pool
does; in 'thread' mode objects are shared.
"""
import pickle

from .core import Violation, HarnessError


class Decider:
    """Consumes plan integers; 0 once they run out."""

    def __init__(self, seq, ctx, name='d'):
        self.seq, self.i, self.ctx, self.name = list(seq), 0, ctx, name

    def pick(self, n, what=''):
        if n <= 1:
            return 0
        v = self.seq[self.i] if self.i < len(self.seq) else 0
        self.i += 1
        v %= n
        if self.ctx is not None:
            self.ctx.choice(self.name, what, v)
        return v


class WorkerFault(MemoryError):
    """An injected failure of a worker's machine (allocation failure)."""


class RemoteErr(Exception):
    pass


class SimResult:
    def __init__(self, pool, nchunks, total, callback, error_callback, single):
        self.pool = pool
        self.left = nchunks
        self.ok = True
        self.value = None if single else [None] * total
        self.callback, self.error_callback = callback, error_callback
        self.single = single
        # the real pool never calls back for an empty list of tasks

    def _finish(self):
        if self.ok and self.callback:
            self.callback(self.value)
        elif not self.ok and self.error_callback:
            self.error_callback(self.value)

    def _chunk_done(self, start, ok, val):
        self.left -= 1
        if ok and self.ok:
            if self.single:
                self.value = val[0]
            else:
                self.value[start:start + len(val)] = val
        elif not ok and self.ok:
            self.ok, self.value = False, val
        if self.left == 0:
            self._finish()

    def ready(self):
        self.pool.maybe_run()
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError('not ready')
        return self.ok

    def wait(self, timeout=None):
        if timeout is not None and self.pool.dec.pick(2, 'timeout'):
            return
        self.pool.run_until(lambda: self.left == 0)

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            import multiprocessing
            raise multiprocessing.TimeoutError
        if not self.ok:
            raise self.value
        return self.value


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(),
            maxtasksperchild=None, *, ctx, dec, mode='process', fail_at=(),
            chunk_override=None):
        self.n = processes or 4
        self.ctx, self.dec, self.mode = ctx, dec, mode
        self.queue, self.waiting = [], []
        self.closed = self.terminated = False
        self.fail_at = set(fail_at)
        self.ntask = 0
        self.chunk_override = chunk_override
        if initializer:
            initializer(*initargs)

    # ---- scheduling
    def send(self):
        """The sending thread passes the tasks on, in order."""
        while self.waiting:
            func, part, star, res, s = self.waiting.pop(0)
            try:
                func, part = self._cross((func, part), 'task')
            except _PickleOut as e:
                # the real pool reports this through the result
                res._chunk_done(s, False, e.args[0])
                continue
            self.queue.append(self._job(func, part, star, res, s))

    def busy(self):
        return self.queue or self.waiting

    def maybe_run(self):
        """A yield point: workers may make progress here."""
        while self.busy() and self.dec.pick(2, 'progress'):
            self.step()

    def run_until(self, cond):
        n = 0
        while not cond():
            n += 1
            if not self.busy():
                raise Violation('hang', 'the program waits for a pool result '
                    'that no worker will ever deliver')
            if n > 100000:
                raise Violation('hang', 'unbounded pool work')
            self.step()

    def step(self):
        if self.waiting and (not self.queue or self.dec.pick(2, 'room')):
            self.send()
            return
        # any of the next n tasks may finish first (n workers)
        k = self.dec.pick(min(self.n, len(self.queue)), 'task')
        job = self.queue.pop(k)
        if k:
            self.ctx.fault('task-reordered')
        job()

    # ---- submission
    def _cross(self, obj, what):
        if self.mode != 'process':
            return obj
        try:
            data = pickle.dumps(obj, protocol=4)
        except Exception as e:
            raise _PickleOut(e)
        try:
            return pickle.loads(data)
        except Exception as e:
            if what == 'result':
                # kills the pool's result handler thread: the caller never
                # wakes up
                raise Violation('hang', 'a worker result cannot be '
                    'unpickled (%s: %s), the real pool hangs' % (
                        type(e).__name__, e))
            raise Violation('hang', 'task arguments cannot be unpickled in '
                'the worker: %s: %s' % (type(e).__name__, e))

    def _submit(self, func, items, star, callback, error_callback, chunksize,
            single=False):
        if self.closed:
            raise ValueError('Pool not running')
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
            if self.chunk_override:
                chunksize = self.chunk_override
        chunksize = max(1, chunksize)
        starts = list(range(0, len(items), chunksize))
        res = SimResult(self, len(starts), len(items), callback,
            error_callback, single)
        for s in starts:
            self.waiting.append((func, items[s:s + chunksize], star, res, s))
        self.ctx.probe('pool-submits')
        self.ctx.probe('pool-tasks', len(starts))
        if self.mode == 'process' and self.dec.pick(4, 'send') == 3:
            # the thread that sends tasks waits for room in the pipe
            self.ctx.fault('sent-late')
        else:
            self.send()
        self.maybe_run()
        return res

    def _job(self, func, part, star, res, start):
        def run():
            out, ok = [], True
            self.ctx.choice('run', start, len(part))
            try:
                for a in part:
                    self.ntask += 1
                    if self.ntask in self.fail_at:
                        self.ctx.fault('worker-failure')
                        raise WorkerFault('injected: cannot allocate memory')
                    out.append(func(*a) if star else func(a))
            except Exception as e:
                out, ok = e, False
                self.ctx.probe('worker-exceptions')
            try:
                ok, out = self._cross((ok, out), 'result')
            except _PickleOut as e:
                ok, out = False, e.args[0]
            res._chunk_done(start, ok, out)
        return run

    def map_async(self, func, iterable, chunksize=None, callback=None,
            error_callback=None):
        return self._submit(func, iterable, False, callback, error_callback,
            chunksize)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
            error_callback=None):
        return self._submit(func, iterable, True, callback, error_callback,
            chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None,
            error_callback=None):
        kw = dict(kwds)
        return self._submit(_Apply(func, kw), [tuple(args)], True, callback,
            error_callback, 1, True)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [self._submit(func, [x], False, None, None, 1, True)
            for x in iterable]
        for r in rs:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self._submit(func, [x], False, None, None, 1, True)
            for x in iterable]
        while rs:
            yield rs.pop(self.dec.pick(len(rs), 'unordered')).get()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.terminated = True
        self.queue, self.waiting = [], []

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        while self.busy():
            self.step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _PickleOut(Exception):
    pass


class _Apply:
    def __init__(self, func, kw):
        self.func, self.kw = func, kw

    def __call__(self, *a):
        return self.func(*a, **self.kw)
