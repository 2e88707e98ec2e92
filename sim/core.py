"""Run contexts, violations, plan shrinking."""
import copy
import hashlib
import json
import random
import traceback
import os

from . import env


class Violation(BaseException):
    """The property is broken. `kind` is the violation class that the shrinker
    keeps. A BaseException so that no handler in the code under test eats it."""

    def __init__(self, kind, message, **detail):
        super().__init__('%s: %s' % (kind, message))
        self.kind = kind
        self.message = message
        self.detail = detail


class HarnessError(BaseException):
    """The simulator is at fault, not the code under test."""


class InvalidPlan(BaseException):
    """A (shrunk) plan that makes no sense; never generated by gen()."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Hang(BaseException):
    """Raised by the CPU watchdog."""


class Ctx:
    """Everything one simulated run records. Recording draws no randomness and
    reads no clock."""

    def __init__(self, known=()):
        self.faults = {}
        self.probes = {}
        self.events = []
        self.sim_s = 0
        self.steps = 0
        self.nontrivial = False
        self.known_open = set(known)
        self.known_hits = {}
        self.sched = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.events.append('F:' + kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *a):
        self.events.append(' '.join(str(x) for x in a))

    def choice(self, *a):
        """Record one scheduling decision."""
        self.sched.append(':'.join(str(x) for x in a))
        self.events.append('S:' + self.sched[-1])

    def time(self, secs):
        self.sim_s += secs

    def known(self, fid, kind, message, **detail):
        """A listed finding was met: count it, or report it if not listed."""
        if fid in self.known_open:
            self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
            self.events.append('K:' + fid)
        else:
            raise Violation(kind, message, **detail)

    def digest(self):
        return hashlib.sha256('\n'.join(self.events).encode()).hexdigest()[:24]

    def sched_digest(self):
        return hashlib.sha256('\n'.join(self.sched).encode()).hexdigest()[:16]


class Outcome:
    """Result of a call into the code under test."""

    def __init__(self, value=None, exc=None, tb=''):
        self.value = value
        self.exc = exc
        self.tb = tb

    @property
    def ok(self):
        return self.exc is None

    @property
    def name(self):
        return 'ok' if self.exc is None else type(self.exc).__name__

    def __repr__(self):
        return 'ok' if self.ok else '%s(%s)' % (self.name, str(self.exc)[:200])


def innermost_is_sim(e):
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return True
    return os.path.realpath(tb[-1].filename).startswith(
        os.path.join(env.VERIF, 'sim') + os.sep)


def call(fn, *a, **kw):
    """Call the code under test and capture what it raises."""
    try:
        return Outcome(fn(*a, **kw))
    except Exception as e:
        return Outcome(exc=e, tb=traceback.format_exc())


def rng_for(*parts):
    return random.Random(':'.join(str(p) for p in parts))


# ---------------------------------------------------------------- shrinking

def _paths(v, path=()):
    """All sub-values, big containers first."""
    out = [(path, v)]
    if isinstance(v, list):
        for i, x in enumerate(v):
            out += _paths(x, path + (i,))
    elif isinstance(v, dict):
        for k in sorted(v):
            out += _paths(v[k], path + (k,))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _set(plan, path, value):
    plan = copy.deepcopy(plan)
    if not path:
        return value
    cur = plan
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return plan


def shrink(plan, fails, budget, frozen=()):
    """fails(plan) -> True if the same violation class persists. `budget` is a
    callable that returns False once shrinking has to stop."""
    changed = True
    while changed and budget():
        changed = False
        # 1. drop list elements, large pieces first
        for path, v in sorted(_paths(plan), key=lambda pv: len(pv[0])):
            if not isinstance(v, list) or any(p in frozen for p in path):
                continue
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            size = len(cur)
            while size >= 1 and budget():
                i = 0
                while i < len(cur) and budget():
                    cand = cur[:i] + cur[i + size:]
                    p2 = _set(plan, path, cand)
                    if fails(p2):
                        plan, cur, changed = p2, cand, True
                    else:
                        i += size
                size //= 2
        # 2. simplify scalars
        for path, v in _paths(plan):
            if any(p in frozen for p in path) or not budget():
                continue
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(cur, bool):
                cands = [False] if cur else []
            elif isinstance(cur, int):
                cands = [c for c in (0, 1, cur // 2, cur - 1)
                    if abs(c) < abs(cur)]
            elif cur is not None and isinstance(cur, (dict, list)) and path \
                    and isinstance(path[-1], str) and path[-1].startswith('opt_'):
                cands = [None]
            else:
                cands = []
            for c in cands:
                p2 = _set(plan, path, c)
                if fails(p2):
                    plan, changed = p2, True
                    break
    return plan


def canonical(plan):
    return json.dumps(plan, sort_keys=True, separators=(',', ':'))
