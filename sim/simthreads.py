"""Deterministic threads: real threads of which exactly one runs at a time.

Every executed line (in some runs every bytecode) of the library is a point at
which the scheduler may take the baton away. When it does so and to whom is a
list in the plan, so a plan is one repeatable interleaving. Locks that the
library creates are simulated, so a blocked thread hands on the baton.
"""
import gc
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import zlib
import _thread

from . import env
from .core import HarnessError, Violation

LIBDIR = os.path.realpath(os.path.join(env.REPO, 'librksv')) + os.sep
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
STALL = 30                  # s of wall time without a step: holder is blocked


class Abort(BaseException):
    """Unwinds the threads of a run that is over."""


# ------------------------------------------------------- fresh library copies

_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        if fullname not in _code:
            _code[fullname] = compile(self.get_data(self.path), self.path,
                'exec', dont_inherit=True)
        return _code[fullname]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'librksv' and not name.startswith('librksv.'):
            return None
        base = os.path.join(env.REPO, *name.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True),
                (base + '.py', False)):
            if os.path.exists(p):
                return importlib.machinery.ModuleSpec(name, _Loader(name, p),
                    origin=p, is_package=pkg) if not pkg else \
                    _pkgspec(name, p, base)
        return None


def _pkgspec(name, p, base):
    s = importlib.machinery.ModuleSpec(name, _Loader(name, p), origin=p,
        is_package=True)
    s.submodule_search_locations = [base]
    s.has_location = True
    return s


class Fresh:
    """A newly imported copy of the library, as in a program that has just
    started. Use as a context: the copy is in sys.modules meanwhile."""
    MODS = ('algorithms', 'cashreg', 'depexport', 'depparser', 'key_store',
        'receipt', 'sigsys', 'utils', 'verification_state', 'verify',
        'verify_receipt')

    def __init__(self):
        self.mods = None

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k == 'librksv'
            or k.startswith('librksv.')}
        for k in self.saved:
            del sys.modules[k]
        if self.mods:
            sys.modules.update(self.mods)
        self.finder = _Finder()
        sys.meta_path.insert(0, self.finder)
        if self.mods is None:
            for m in self.MODS:
                setattr(self, m, importlib.import_module('librksv.' + m))
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.finder)
        self.mods = {k: v for k, v in sys.modules.items() if k == 'librksv'
            or k.startswith('librksv.')}
        for k in self.mods:
            del sys.modules[k]
        sys.modules.update(self.saved)
        return False


# ------------------------------------------------------------------ scheduler

class Thread:
    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waiting = None             # a simulated lock it waits for
        self.stuck = False
        self.result = None
        self.error = None


class Scheduler:
    """switches: [[gap, choice], ...]: after `gap` yield points hand the baton
    to the choice-th of the other runnable threads. site: switch in addition
    whenever a thread comes to one of a class of lines or functions, which
    lets threads meet again and again at the same place."""

    def __init__(self, switches, ctx, opcodes=False, site=None):
        self.switches = [s for s in switches if isinstance(s, list) and
            len(s) == 2]
        self.ctx = ctx
        self.opcodes = opcodes
        self.threads = []
        self.cur = None
        self.si = 0
        self.left = self.switches[0][0] if self.switches else None
        self.steps = 0
        self.nswitch = 0
        self.abort = False
        self.over = threading.Semaphore(0)
        self.failure = None
        self.where = ''
        self.mid = 0                    # switches away from unfinished work
        self.sites = set()
        self.site = site
        self.hot = {}

    def spawn(self, fn):
        self.threads.append(Thread(len(self.threads), fn))

    # -- tracing

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBDIR):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point(frame, event == 'line')
        return self._local

    def is_hot(self, frame):
        c = frame.f_code
        k = (c, None if self.site['by'] == 'func' else frame.f_lineno)
        if k not in self.hot:
            # relative to the function, so that unrelated edits do not matter
            h = zlib.crc32(('%s:%s:%s' % (os.path.basename(c.co_filename),
                c.co_qualname, '' if k[1] is None else
                k[1] - c.co_firstlineno)).encode())
            self.hot[k] = h % self.site['m'] == self.site['r']
        return self.hot[k]

    def me(self):
        i = _thread.get_ident()
        for t in self.threads:
            if t.ident == i:
                return t
        return None

    def point(self, frame, line=True):
        t = self.cur
        if t is None or t.ident != _thread.get_ident():
            # a thread the watchdog passed by has come back
            t = self.me()
            if t is None:
                return
            t.stuck = False
            if self.abort:
                raise Abort()
            self.wait(t)
            return
        if self.abort:
            raise Abort()
        self.steps += 1
        if line and self.site and frame.f_lineno and self.is_hot(frame):
            choice = self.mid
        else:
            if self.left is None:
                return
            self.left -= 1
            if self.left > 0:
                return
            choice = self.switches[self.si][1]
            self.si += 1
            self.left = max(1, self.switches[self.si][0]) if \
                self.si < len(self.switches) else None
        o = self.runnable(t)
        if o:
            self.sites.add(frame.f_code.co_name)
            self.mid += 1
            self.give(t, o[choice % len(o)], '%s:%s' % (
                frame.f_code.co_name, frame.f_lineno))

    # -- baton

    def runnable(self, t):
        return [x for x in self.threads if not x.done and x is not t and
            x.waiting is None and not x.stuck]

    def give(self, frm, to, why):
        self.nswitch += 1
        self.ctx.sched.append('%d>%d@%s' % (frm.n, to.n, why))
        self.cur = to
        to.sem.release()
        if not frm.done:
            self.wait(frm)

    def wait(self, t):
        t.sem.acquire()
        if self.abort:
            raise Abort()

    def next_after(self, t, why):
        """Thread t cannot go on (finished or waits for a lock)."""
        o = self.runnable(t)
        if o:
            self.give(t, o[(self.steps if self.left is None else self.left)
                % len(o)], why)
            return
        self.cur = None
        if any(not x.done for x in self.threads):
            if any(x.stuck for x in self.threads):
                self.over.release()     # the watchdog decides
            else:
                self.failure = 'all remaining threads wait for locks'
                self.over.release()
            if not t.done:
                self.wait(t)
        else:
            self.over.release()

    def _boot(self, t):
        t.ident = _thread.get_ident()
        self.ready.release()
        try:
            t.sem.acquire()
            if self.abort:
                return
            sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except Abort:
            return
        except BaseException as e:      # noqa
            t.error = e
        t.done = True
        if not self.abort:
            try:
                if self.cur is t:
                    self.next_after(t, 'end')
                elif all(x.done for x in self.threads):
                    self.over.release()
            except Abort:
                pass

    def run(self, first=0):
        self.ready = threading.Semaphore(0)
        ths = []
        for t in self.threads:
            th = threading.Thread(target=self._boot, args=(t,), daemon=True)
            ths.append(th)
            th.start()
            self.ready.acquire()
        try:
            self.cur = self.threads[first % len(self.threads)]
            self.cur.sem.release()
            last, idle = -1, 0
            while True:
                if self.over.acquire(timeout=1):
                    break
                if self.steps != last:
                    last, idle = self.steps, 0
                    continue
                idle += 1
                if idle < STALL:
                    continue
                # blocked in something that is not simulated
                idle = 0
                t = self.cur
                if t is None:
                    continue
                t.stuck = True
                self.ctx.probe('stuck')
                o = self.runnable(t)
                if o:
                    self.cur = o[0]
                    o[0].sem.release()
                    continue
                self.failure = 'all remaining threads are blocked'
                break
        finally:
            self.abort = True
            for t in self.threads:
                t.sem.release()
            for th in ths:
                th.join(5)
        self.ctx.steps += self.steps
        if self.failure:
            raise Violation('deadlock', self.failure)
        for t in self.threads:
            if t.error is not None:
                raise t.error
            if not t.done:
                raise HarnessError('thread %d did not finish' % t.n)


# ----------------------------------------------------------- simulated locks

_current = [None]


class SimLock:
    """threading.Lock and RLock as the library sees them."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        i = _thread.get_ident()
        s = _current[0]
        while True:
            if self.count == 0 or (self.reentrant and self.owner == i):
                self.owner = i
                self.count += 1
                return True
            if not blocking:
                return False
            t = s.me() if s else None
            if t is None or timeout >= 0:
                return False
            t.waiting = self
            s.ctx.probe('lock-contention')
            s.next_after(t, 'lock')

    def release(self):
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = _current[0]
            if s:
                for t in s.threads:
                    if t.waiting is self:
                        t.waiting = None

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        return self.count > 0 and self.owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Locks:
    """Code of the library that creates a lock gets a simulated one; all other
    callers get real ones."""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock

        def mk(real, reentrant):
            def make(*a, **k):
                f = sys._getframe(1)
                if f.f_code.co_filename.startswith(LIBDIR):
                    return SimLock(reentrant)
                return real(*a, **k)
            return make
        threading.Lock = mk(_real_lock, False)
        threading.RLock = mk(_real_rlock, True)
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved
        return False


def _warm_up():
    """CPython 3.12 delivers opcode events in full only to traces set after
    some frame of the process has asked for them once."""
    sys._getframe().f_trace_opcodes = True


_warm_up()


def run(sched, first=0):
    _current[0] = sched
    # finalisers of the library's generators are switch points as well, so
    # nothing may depend on when the cyclic collector runs
    gc.disable()
    try:
        sched.run(first)
    finally:
        gc.enable()
        _current[0] = None
