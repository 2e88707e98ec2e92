"""C05: a failed verification leaves the caller's state and key store alone and
can be repeated."""
import json

from .. import case, core, deprender, lib, model, simio, simpool, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 10000, 'thorough': 150000}
FROZEN = ('faultkinds',)
RULE = ('A run brings a state to some point of a cluster\'s history, lets 1-4 '
    'verifications with it fail in different ways - journal that breaks a '
    'rule, input that cannot be read or ends early, key store, worker or '
    'memory that fails, user interrupt, wrong key, wrong register - and then '
    'verifies the good journal with it. Non-trivial: at least one attempt '
    'failed.')
REAL = ['librksv.verify (sequential and packaged)', 'librksv.depparser',
    'librksv.verification_state', 'librksv.key_store', 'librksv.utils']
STUB = ['files and pipes (simulated streams)', 'worker pool (simulated)',
    'key store storage (a KeyStoreI whose lookups may fail)',
    'cash register (reference implementation)']
ASSUME = ['faults strike at reads, key store lookups and worker tasks, not '
    'between two statements of the final update']
SEARCH = ('sequences of failing verifications with I/O errors, truncation, '
    'failing key stores and workers, allocation failures, interrupts and bad '
    'journals')
ORACLE = ('the state and key store before the attempt and a verification that '
    'never had a failed attempt')
NOTE = ('Samples states and faults; a violation it reports is real, silence '
    'is evidence over the explored runs, not proof.')
MUST_HIT = ['EIO-read', 'keystore-failure', 'worker-failure', 'truncated',
    'bad-journal', 'wrong-key', 'wrong-register', 'interrupt', 'retry-ok',
    'new-register', 'existing-register', 'memory', 'pool-failure']
WAYS = ['bad-journal', 'bad-journal', 'bad-journal', 'eio', 'eio', 'truncated',
    'keystore', 'worker', 'wrong-key', 'wrong-register', 'interrupt',
    'memory', 'pool-failure', 'no-trust', 'sibling']


class StoreFault(OSError):
    pass


class FailingStore(lib.key_store.KeyStoreI):
    """A key store on a medium that fails at the n-th lookup."""

    def __init__(self, inner, at, exc, ctx):
        self.inner, self.at, self.n, self.exc, self.ctx = inner, at, 0, exc, ctx

    def _tick(self):
        self.n += 1
        if self.n == self.at:
            self.ctx.fault('keystore-failure')
            raise self.exc('simulated key store failure')

    def getKeyIds(self):
        self._tick()
        return self.inner.getKeyIds()

    def getKey(self, k):
        self._tick()
        return self.inner.getKey(k)

    def getCert(self, k):
        self._tick()
        return self.inner.getCert(k)

    def putKey(self, *a):
        raise Violation('key-store-changed', 'putKey%r' % (a,))

    def delKey(self, *a):
        raise Violation('key-store-changed', 'delKey%r' % (a,))


def gen(rng, tier):
    n = rng.choice([2, 3, 4, 6, 8, 12])
    c = case.gen_case(rng, n, faults=0)
    if not c['j']['closed']:
        c['cluster'] = 0
    tries = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        w = rng.choice(WAYS)
        t = {'way': w, 'via': rng.choice(['dict', 'chunks', 'chunks', 'pool',
            'full', 'threads']), 'a': rng.randrange(10**6),
            'b': rng.randrange(10**6),
            'chunk': rng.choice([0, 1, 2, 3]), 'nprocs': rng.choice([1, 2, 3]),
            'sched': [rng.randrange(8) for _ in range(8)],
            'buf': rng.choice([1, 16, 64, 512]),
            'kind': rng.choice(['text', 'buffered'])}
        if w == 'bad-journal':
            bc = json.loads(json.dumps(c['j']))
            case.add_fault(rng, bc)
            t['ops'] = bc['ops']
        tries.append(t)
    return {'case': c, 'tries': tries, 'layout': deprender.gen_layout(rng),
        'backend': 'unique', 'retry': rng.choice(['dict', 'chunks', 'pool']),
        'idxmode': rng.choice(['none', 'num'])}


def snap_store(ks):
    return sorted((k, lib.verify.utils.exportKeyToPEM(ks.getKey(k)),
        lib.verify.utils.exportCertToPEM(ks.getCert(k)) if ks.getCert(k)
        else None) for k in ks.getKeyIds())


def attempt(t, dep, text, ks, key, state, idx, ctx, on_read=None, eio=None,
        fail_at=(), break_pool=False):
    via = t['via']
    if t['buf'] < 1:
        raise InvalidPlan('buffer')
    if via == 'dict' and on_read is None and eio is None and not fail_at and \
            not break_pool:
        return call(lib.verify.verifyDEP, json.loads(json.dumps(dep)), ks, key,
            state, idx)
    pool = None
    if via in ('pool', 'threads') or fail_at or break_pool:
        pool = simpool.SimPool(2, ctx=ctx, dec=simpool.Decider(t['sched'],
            ctx), mode='thread' if via == 'threads' else 'process',
            fail_at=fail_at)
        if break_pool:
            def broken(*a, **kw):
                ctx.fault('pool-failure')
                raise OSError(11, 'Resource temporarily unavailable')
            for m in ('map', 'map_async', 'starmap', 'apply_async', 'imap',
                    'imap_unordered', 'starmap_async', 'apply'):
                setattr(pool, m, broken)
    fd = simio.open_stream(text.encode('utf-8'), {'seek': True,
        'kind': t['kind'], 'buf': t['buf'], 'eio': eio}, ctx, on_read)
    P = lib.depparser

    def go():
        p = P.FullFileDEPParser(fd, t['nprocs']) if via == 'full' else \
            P.IncrementalDEPParser.fromFd(fd, True)
        return lib.verify.verifyParsedDEP(p, ks, key, state, idx, pool,
            max(1, t['nprocs']), t['chunk'])
    return call(go)


def run(plan, ctx):
    cp = plan['case']
    c = case.Case(cp)
    if c.prior and not cp['j']['closed']:
        raise InvalidPlan('cluster')
    ks = lib.keystore(c.store)
    state = lib.new_state()
    for recs in c.prior:
        state = lib.verify.verifyDEP(c.dep(recs), ks, None, state)
    seg = cp['seg'] if 0 < cp['seg'] < len(c.recs) else 0
    key = c.key if cp['keymode'] in ('right', 'none') else None
    if seg:
        o = call(lib.verify.verifyDEP, c.dep(c.recs[:seg]), ks, key, state)
        if not o.ok:
            raise Violation('rejected-good', 'first session %r' % o)
        state = o.value
        ctx.probe('existing-register')
    else:
        ctx.probe('new-register')
    recs = c.recs[seg:]
    idx = len(c.prior) if seg else (None if plan['idxmode'] == 'none' else
        len(c.prior))
    dep = c.dep(recs)
    text = deprender.render(dep, plan['layout'])
    base = lib.norm_state(state)
    store = snap_store(ks)

    def unchanged(what, o):
        got = lib.norm_state(state)
        if got != base:
            raise Violation('state-changed', 'after a failed verification (%s: '
                '%r) the state is\n%s\nbefore:\n%s' % (what, o, got, base))
        if snap_store(ks) != store:
            raise Violation('key-store-changed', '%s: %r' % (what, o))

    failed = 0
    for t in plan['tries']:
        w = t['way']
        kw, k, st, i, d, x, s = {}, key, ks, idx, dep, text, state
        if w == 'bad-journal':
            ops = t.get('ops')
            if not ops or not case.rec_positions(ops):
                raise InvalidPlan('ops')
            rg = world.RefRegister(cp['j'], c.prev_start)
            rg.run(ops)
            bad = rg.recs[seg:]
            if not bad:
                continue
            if cp['certs'] and any(g['dev'] in world.FX['closed'] for g in
                    world.groups_of(bad)):
                continue
            d = c.dep(bad)
            x = deprender.render(d, plan['layout'])
            ctx.fault('bad-journal')
        elif w == 'eio':
            # the number of reads is unknown: an early or a late one
            nreads = len(x.encode('utf-8')) // t['buf'] + 2
            kw['eio'] = 1 + t['a'] % nreads if t['b'] % 2 else 1 + t['a'] % 4
        elif w == 'truncated':
            e = x.encode('utf-8')
            n = t['a'] % len(e.rstrip(b' \n'))
            x = e[:n].decode('utf-8', 'ignore')
            ctx.fault('truncated')
            if t['via'] == 'dict':
                t = dict(t, via='chunks')
        elif w == 'keystore':
            st = FailingStore(ks, 1 + t['a'] % (2 * len(recs) + 2),
                [StoreFault, MemoryError, KeyError][t['b'] % 3], ctx)
        elif w == 'worker':
            kw['fail_at'] = (1 + t['a'] % 3,)
            t = dict(t, via='pool' if t['via'] != 'threads' else 'threads')
        elif w == 'pool-failure':
            kw['break_pool'] = True
        elif w == 'wrong-key':
            k = [world.aes_key(424242), b'short', world.aes_key(1)[:16]][
                t['a'] % 3]
            ctx.fault('wrong-key')
        elif w == 'wrong-register':
            i = [-1, len(c.prior) + 2, 99, -5][t['a'] % 4]
            ctx.fault('wrong-register')
        elif w in ('interrupt', 'memory'):
            cnt = [1 + t['a'] % (len(x) // t['buf'] + 2)]
            exc = KeyboardInterrupt if w == 'interrupt' else MemoryError

            def on_read(cnt=cnt, exc=exc):
                cnt[0] -= 1
                if cnt[0] == 0:
                    ctx.fault(w)
                    raise exc('simulated')
            kw['on_read'] = on_read
            if t['via'] == 'dict':
                t = dict(t, via='chunks')
        elif w == 'no-trust':
            st = lib.keystore(['K5', 'rootB'] if 'K5' not in c.devs else
                ['rootB'])
            other = snap_store(st)
            if t['a'] % 2 == 0:
                # the chain ends before it reaches anything of the key store
                d = json.loads(json.dumps(d))
                for g in d['Belege-Gruppe']:
                    g['Zertifizierungsstellen'] = g[
                        'Zertifizierungsstellen'][:1]
                x = deprender.render(d, plan['layout'])
            ctx.fault('no-trust')
        elif w == 'sibling':
            # somebody else's state: must not leak into this one
            s = lib.state_from(state.writeStateToJson())
        try:
            o = attempt(t, d, x, st, k, s, i, ctx, **kw)
        except KeyboardInterrupt as e:
            o = core.Outcome(exc=RuntimeError('interrupted'))
        ctx.log(w, t['via'], o.name)
        if w == 'no-trust' and snap_store(st) != other:
            raise Violation('key-store-changed', '%s: %r' % (w, o))
        if o.ok:
            if s is state:
                # nothing failed after all: start over with that state
                state = lib.state_from(base)
            else:
                unchanged(w, o)
            continue
        failed += 1
        ctx.probe('failed:' + w)
        unchanged('%s via %s' % (w, t['via']), o)
    ctx.nontrivial = failed > 0
    t = {'via': plan['retry'], 'sched': [], 'buf': 512, 'kind': 'text',
        'chunk': 2, 'nprocs': 2}
    fresh = lib.state_from(base)
    want = call(lib.verify.verifyDEP, json.loads(json.dumps(dep)),
        lib.keystore(c.store), key, fresh, idx)
    got = attempt(t, dep, text, ks, key, state, idx, ctx)
    if want.ok != got.ok or not want.ok:
        raise Violation('retry-differs', 'without a failed attempt: %r, after '
            'it: %r\n%s' % (want, got, got.tb))
    if lib.norm_state(want.value) != lib.norm_state(got.value):
        raise Violation('retry-state-differs', '%s\n%s' % (
            lib.norm_state(want.value), lib.norm_state(got.value)))
    if snap_store(ks) != store:
        raise Violation('key-store-changed', 'by a successful verification')
    ctx.probe('retry-ok')
