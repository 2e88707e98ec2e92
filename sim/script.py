"""Runs a command-line program of the repository as a simulated process: real
source, simulated arguments, environment, standard streams, disk, network,
worker pool and crashes."""
import builtins
import errno
import io
import os
import sys
import traceback

from . import env, simfs, simpool
from .core import Hang, HarnessError, SimCrash, Violation

_code = {}


def code_of(name):
    if name not in _code:
        path = os.path.join(env.REPO, name)
        with open(path, encoding='utf-8') as f:
            _code[name] = compile(f.read(), path, 'exec', dont_inherit=True)
    return _code[name]


class OutRaw(io.RawIOBase):
    """Standard output: a pipe or file that may fail."""

    def __init__(self, proc, fail_after=None, err='EPIPE', short=()):
        super().__init__()
        self.proc, self.data = proc, bytearray()
        self.left, self.err = fail_after, err
        self.short, self.n = list(short), 0
        self.failed = False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, b):
        b = bytes(b)
        if self.proc.dead:
            return len(b)
        self.proc.op('stdout')
        self.n += 1
        if self.short:
            s = self.short[self.n % len(self.short)]
            if s:
                b = b[:s]
        if self.left is not None:
            if self.left <= 0:
                if not self.failed:
                    self.proc.ctx.fault(self.err + '-stdout')
                    self.proc.injected.append(self.err + '-stdout')
                self.failed = True
                raise OSError(getattr(errno, self.err), 'simulated')
            b = b[:self.left]
            self.left -= len(b)
        self.data += b
        return len(b)


class Result:
    def __init__(self):
        self.rc = None
        self.out = b''
        self.err = ''
        self.exc = None
        self.tb = ''
        self.crash = None
        self.globals = None

    @property
    def ok(self):
        return self.rc == 0

    def text(self):
        return self.out.decode('utf-8')

    def __repr__(self):
        return 'exit status %r%s%s' % (self.rc,
            ' (%s: %s)' % (type(self.exc).__name__, str(self.exc)[:300])
            if self.exc else '', ' crashed: %s' % self.crash if self.crash
            else '')


def run(name, args, proc, ctx, stdin=b'', stdin_stream=None, stdout=None,
        environ=None, pool=None, patches=(), keep_globals=False):
    """Run program `name`. stdin_stream: a text stream for standard input;
    stdout: dict for OutRaw; pool: factory(n) replacing worker pools; patches:
    [(object, attribute, value)]."""
    res = Result()
    code = code_of(name)
    out_raw = OutRaw(proc, **(stdout or {}))
    out = io.TextIOWrapper(io.BufferedWriter(out_raw, 8192), 'utf-8',
        write_through=False)
    err = io.StringIO()
    if stdin_stream is None:
        stdin_stream = io.TextIOWrapper(io.BytesIO(stdin), 'utf-8')
    saved = []

    def patch(o, a, v):
        saved.append((o, a, getattr(o, a)))
        setattr(o, a, v)

    import multiprocessing
    import multiprocessing.pool
    oldenv = dict(os.environ)
    env.setup()
    g = {'__name__': '__main__', '__builtins__': builtins,
        '__file__': os.path.join(env.REPO, name), '__doc__': None}
    fs = simfs.FS(proc)
    try:
        patch(sys, 'argv', ['./' + name] + list(args))
        patch(sys, 'stdin', stdin_stream)
        patch(sys, 'stdout', out)
        patch(sys, 'stderr', err)
        patch(sys, 'unraisablehook', lambda *a: None)
        if pool is not None:
            for o, a in ((multiprocessing, 'Pool'),
                    (multiprocessing.pool, 'Pool'),
                    (multiprocessing.pool, 'ThreadPool')):
                patch(o, a, pool)
        for o, a, v in patches:
            patch(o, a, v)
        for k, v in (environ or {}).items():
            os.environ[k] = v
        with fs:
            try:
                try:
                    exec(code, g)
                    res.rc = 0
                except SystemExit as e:
                    c = e.code
                    res.rc = 0 if c is None else c & 255 if isinstance(c, int) \
                        else 1
                    if c is not None and not isinstance(c, int):
                        err.write(str(c))
                except Exception as e:
                    res.rc, res.exc = 1, e
                    res.tb = traceback.format_exc()
                if proc.dead:
                    raise SimCrash(proc.dead)
                # the interpreter flushes standard output at exit
                try:
                    if sys.stdout is not None:
                        sys.stdout.flush()
                except (OSError, ValueError, AttributeError) as e:
                    if res.rc == 0:
                        res.rc, res.exc = 120, e
                # what the program replaced is flushed when it is destroyed,
                # and nobody is told if that fails
                try:
                    out.flush()
                except (OSError, ValueError):
                    pass
            except SimCrash:
                res.crash = proc.dead or 'kill'
                res.rc = -9
    finally:
        for o, a, v in reversed(saved):
            setattr(o, a, v)
        os.environ.clear()
        os.environ.update(oldenv)
        # buffered data of a dead process is gone
        dead, proc.dead = proc.dead, proc.dead or 'ended'
        for f in list(proc.fds.values()):
            try:
                f.close()
            except Exception:
                pass
        try:
            out.detach().detach()
        except Exception:
            pass
        proc.dead = dead
    res.out = bytes(out_raw.data)
    res.err = err.getvalue()
    if keep_globals:
        res.globals = g
    return res
