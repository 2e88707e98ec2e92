"""The system clock under the simulator's control. install() must run before
the code under test is imported, so that `from time import time` and
`from datetime import datetime` see it as well. While no clock is active
everything behaves as usual."""
import datetime as _dt
import os
import time as _time

_active = None
_real = {}


class Clock:
    """Starts at `t` (seconds since 1970); every reading advances it by the
    next of `steps` (which may be negative)."""

    def __init__(self, t, steps, ctx):
        self.t, self.steps, self.n, self.ctx = t, list(steps) or [1], 0, ctx
        self.mono = 1000.0
        self.reads = 0

    def tick(self):
        d = self.steps[self.n % len(self.steps)]
        self.n += 1
        self.t += d
        if self.ctx is not None:
            self.ctx.fault('clock-jump' if d < 0 or d > 3600 else 'clock-step')

    def read(self):
        self.reads += 1
        self.tick()
        return self.t

    def monotonic(self):
        self.mono += abs(self.steps[self.n % len(self.steps)])
        self.reads += 1
        return self.mono

    def __enter__(self):
        global _active
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None


class zone:
    """Time zone for the C library."""

    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        _time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        _time.tzset()


def install():
    if _real:
        return
    for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
            'localtime', 'gmtime', 'ctime', 'strftime', 'asctime'):
        _real[n] = getattr(_time, n)
    r = dict(_real)

    def wrap(name, f):
        f.__name__ = name
        setattr(_time, name, f)
    wrap('time', lambda: _active.read() if _active else r['time']())
    wrap('time_ns', lambda: int(_active.read() * 10**9) if _active else
        r['time_ns']())
    wrap('monotonic', lambda: _active.monotonic() if _active else
        r['monotonic']())
    wrap('monotonic_ns', lambda: int(_active.monotonic() * 10**9) if _active
        else r['monotonic_ns']())
    wrap('perf_counter', lambda: _active.monotonic() if _active else
        r['perf_counter']())
    for n in ('localtime', 'gmtime', 'ctime'):
        wrap(n, lambda s=None, n=n: r[n](_active.read()) if _active and
            s is None else r[n](s))
    wrap('strftime', lambda f, t=None: r['strftime'](f, r['localtime'](
        _active.read())) if _active and t is None else r['strftime'](f) if
        t is None else r['strftime'](f, t))
    wrap('asctime', lambda t=None: r['asctime'](r['localtime'](
        _active.read())) if _active and t is None else r['asctime']() if
        t is None else r['asctime'](t))
    RealDT, RealD = _dt.datetime, _dt.date

    class Meta(type(RealDT)):
        def __instancecheck__(cls, o):
            return isinstance(o, RealDT)

        def __subclasscheck__(cls, o):
            return issubclass(o, RealDT)

    class datetime(RealDT, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if _active:
                return cls.fromtimestamp(_active.read(), tz)
            return super().now(tz)

        @classmethod
        def utcnow(cls):
            if _active:
                return cls(1970, 1, 1) + _dt.timedelta(seconds=_active.read())
            return super().utcnow()

        @classmethod
        def today(cls):
            return cls.now()

    class MetaD(type(RealD)):
        def __instancecheck__(cls, o):
            return isinstance(o, RealD)

        def __subclasscheck__(cls, o):
            return issubclass(o, RealD)

    class date(RealD, metaclass=MetaD):
        @classmethod
        def today(cls):
            if _active:
                return cls.fromtimestamp(_active.read())
            return super().today()
    datetime.__module__ = date.__module__ = 'datetime'
    datetime.__qualname__ = 'datetime'
    date.__qualname__ = 'date'
    _dt.datetime = datetime
    _dt.date = date
