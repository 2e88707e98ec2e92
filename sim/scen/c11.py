"""C11: a register with a failing signing service keeps a valid journal."""
import base64
import datetime
import json

from .. import case, core, lib, model, simcrypto, simnet, world
from ..core import InvalidPlan, SimCrash, Violation
from librksv import cashreg, depexport, receipt as lreceipt, sigsys

RUNS = {'quick': 9000, 'thorough': 200000}
FROZEN = ()
RULE = ('A run lets an operator use cash registers with one or more signing '
    'accounts of a simulated remote signing service, a local signature device '
    'or a device that fails, over a network that fails in windows and in '
    'single requests; attempts that raise are repeated, processes are killed '
    'in the middle of a request and restarted from the saved register state, '
    'and after an outage the operator issues a zero receipt. Non-trivial: at '
    'least one fault struck and two receipts were created.')
REAL = ['librksv.cashreg', 'librksv.sigsys', 'librksv.receipt',
    'librksv.algorithms', 'librksv.depexport', 'librksv.verify',
    'requests (above the transport)']
STUB = ['network transport and A-Trust signing service', 'clock of the '
    'register (receipt times are arguments)']
ASSUME = ['the service signs what it is asked to sign: a wrong signature over '
    'the right data cannot be told by a register that has no certificate',
    'the operator saves the register\'s last receipt and counter after each '
    'receipt']
SEARCH = ('sequences of receipts, request faults, outage windows, unusable '
    'answers, device errors and process kills')
ORACLE = ('an independent ledger of chain, counter and payload per receipt, '
    'the reference verifier and the library\'s verifier')
NOTE = ('Samples histories of up to 40 receipts; a violation it reports is '
    'real, silence is evidence over the explored runs, not proof.')
BAD = ['stale', 'cut-jws', 'no-dots', 'result-null', 'result-list',
    'other-header', 'bad-base64', 'longer-payload', 'other-payload', 'four',
    'shorter-payload', 'padded-payload', 'header-space', 'error-body',
    'refusal']
# with these every attempt to sign has to yield an unsigned receipt
OUTAGE = {'refused', 'dns', 'reset-before', 'reset-after', 'timeout-before',
    'timeout-after', 'cut-body', '500', '502', '503', '401', '404', 'ssl',
    'error-body', 'refusal'}
MUST_HIT = ['net:' + f for f in simnet.FAULTS] + ['net:' + f for f in BAD] + [
    'net:kill', 'device-error', 'unsigned', 'signed', 'raised', 'restart',
    'login-failed', 'restored', 'accepted', 'local-device', 'switched',
    'dummy', 'reversal', 'lenient', 'part-of-cent']
USERS = ['u%d' % i for i in range(4)]


def gen(rng, tier):
    n = rng.choice([2, 3, 5, 8, 13, 20, 40])
    ops = []
    for _ in range(n):
        x = rng.random()
        k = 'dummy' if x < 0.15 else 'rev' if x < 0.3 else 'std'
        ops.append([k, [0] * 5 if rng.random() < 0.15 else
            world.gen_cents(rng, False), world.gen_dt(rng)])
        y = rng.random()
        if y < 0.08:
            ops.append(['switch', rng.randrange(4)])
        elif y < 0.16:
            ops.append(['restart'])
        elif y < 0.2:
            ops.append(['login'])
    F = list(simnet.FAULTS) + BAD + ['kill', 'kill']
    windows = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        windows.append([rng.randrange(2 * n), rng.choice([1, 2, 5, 10]),
            rng.choice(F)])
    p = rng.choice([0, 0.05, 0.2, 0.5])
    single = [[i, rng.choice(F)] for i in range(3 * n) if rng.random() < p]
    return {'ops': ops, 'windows': windows, 'single': single,
        'reg': rng.choice(world.REG_IDS), 'tcs': rng.choice([5, 6, 8, 12, 16]),
        'key': rng.randrange(1000), 'ids': rng.randrange(len(world.ID_STYLES)),
        'id0': rng.choice([0, 8, 95]), 't0': rng.randrange(10**8),
        'devs': [rng.choice(world.OPEN_LEAVES) for _ in range(4)],
        'kinds': [rng.choice(['atrust', 'atrust', 'atrust', 'local',
            'flaky']) for _ in range(4)],
        'dev_fail': [[rng.randrange(n + 1), rng.randrange(3)] for _ in
            range(rng.choice([0, 1, 3]))],
        'strict': rng.random() < 0.6, 'c0': rng.choice([0, 0, 0, 1]),
        'frac': [rng.randrange(-4, 5) for _ in range(7)]
            if rng.random() < 0.3 else [0]}


class Service:
    """The remote signing service: one account per signature device."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.last = plan, ctx, None

    def __call__(self, req):
        parts = [p for p in req.url.split('/') if p]
        user = [u for u in USERS if u in parts]
        if not user:
            return None
        dev = self.plan['devs'][USERS.index(user[0]) % len(self.plan['devs'])]
        leaf = world.FX['leaves'][dev]
        if req.method == 'GET' and parts[-1] == 'Certificate':
            return simnet.Answer(200, {'Signaturzertifikat': leaf['cert'],
                'Zertifizierungsstellen': [],
                'Zertifikatsseriennummer': str(leaf['serial']),
                'ZertifikatsseriennummerHex': '%x' % leaf['serial'],
                'alg': 'ES256'})
        if req.method == 'GET' and parts[-1] == 'ZDA':
            return simnet.Answer(200, {'zdaid': 'AT1'})
        if req.method == 'POST' and parts[-2:] == ['Sign', 'JWS']:
            d = json.loads(req.body)
            if d.get('password') != 'pw-' + user[0]:
                return simnet.Answer(401, b'')
            self.prev = self.last
            self.d = leaf['d']
            self.last = world.make_jws(d['jws_payload'], leaf['d'])
            return simnet.Answer(200, {'result': self.last})
        return simnet.Answer(404, b'')

    def signed(self, h, p):
        si = h + '.' + p
        return si + '.' + world.b64u(simcrypto.sign_raw(self.d, si.encode()))

    def mutate(self, fault, a):
        if fault == 'kill':
            raise SimCrash('kill')
        if fault == 'refusal':
            return simnet.Answer(403, {'message': 'no'})
        try:
            r = json.loads(a.body)['result']
        except (KeyError, ValueError):
            if fault == 'error-body':
                return simnet.Answer(500, {'ZertifikatsseriennummerHex':
                    'dead', 'alg': 'ES256', 'zdaid': 'AT9'})
            return simnet.Answer(200, b'[]')
        h, p, s = r.split('.')
        r = {'stale': self.prev or '..', 'cut-jws': r[:len(h) + 9],
            'no-dots': 'x' * 200, 'result-null': None, 'result-list': [r],
            'other-header': '.'.join(['!!!', p, s]),
            'bad-base64': '.'.join([h, p, s + '=']),
            'longer-payload': self.signed(h, p + 'AAAA'),
            'shorter-payload': self.signed(h, p[:-4]),
            'padded-payload': self.signed(h, p + '=' * (-len(p) % 4 or 4)),
            'other-payload': self.signed(h, world.b64u(world.unb64u(p).replace(
                b'0,00', b'0,01', 1))),
            'header-space': self.signed(world.b64u(b'{"alg": "ES256"}'), p),
            'error-body': '.'.join([h, p, s[:-9] + 'AAAAAAAAA']),
            'four': r + '.AAAA'}[fault]
        return simnet.Answer(503 if fault == 'error-body' else 200, {'result': r})


class Flaky(sigsys.SignatureSystemWorking):
    """A local device whose driver may fail."""

    def __init__(self, fails, ctx, *a):
        super().__init__(*a)
        self.n, self.fails, self.ctx = 0, dict(fails), ctx

    def sign(self, data, algorithm):
        n = self.n
        self.n += 1
        r = None
        if n in self.fails:
            k = self.fails[n] % 3
            if k:
                r = super().sign(data, algorithm)    # signed, answer lost
            self.ctx.fault('device-error')
            raise [OSError('card removed'), MemoryError(),
                KeyboardInterrupt()][k]
        return super().sign(data, algorithm)


class Operator:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.svc = Service(plan, ctx)
        self.nreq = 0
        self.quiet = False
        self.net = simnet.SimNet(ctx, self.svc, self.decide, self.svc.mutate)
        self.key = world.aes_key(plan['key'])
        self.size = min(16, max(5, plan['tcs']))
        self.reg_id = plan['reg'] or 'R'
        self.idstyle = world.ID_STYLES[plan['ids'] % len(world.ID_STYLES)]
        self.n = plan['id0']
        self.t = plan['t0']
        self.cur = 0
        self.grp = 0
        self.sys = {}
        self.recs = []
        self.counter = 0
        self.last = None
        self.new_register()

    def new_register(self):
        self.reg = cashreg.CashRegister(self.reg_id, self.last, self.counter,
            self.key, self.size)

    def decide(self, n, req):
        self.fault = self._decide()
        return self.fault

    def _decide(self):
        i = self.nreq
        self.nreq += 1
        if self.quiet:
            return None
        for k, f in self.plan['single']:
            if k == i:
                return f
        for a, ln, f in self.plan['windows']:
            if a <= i < a + ln:
                return f
        return None

    def system(self):
        """The signature system in use, logging in if necessary."""
        k = self.cur % len(self.plan['devs'])
        if k in self.sys:
            return self.sys[k]
        dev = self.plan['devs'][k]
        leaf = world.FX['leaves'][dev]
        kind = self.plan['kinds'][k % len(self.plan['kinds'])]
        if kind == 'atrust':
            s = self.guard(lambda: sigsys.SignatureSystemATrustMobile(
                USERS[k], 'pw-' + USERS[k]), 'login')
        else:
            pem = simcrypto_pem(dev)
            if kind == 'local':
                s = sigsys.SignatureSystemWorking('AT1', '%x' %
                    leaf['serial'], pem)
            else:
                s = Flaky(self.plan['dev_fail'], self.ctx, 'AT1', '%x' %
                    leaf['serial'], pem)
            self.ctx.probe('local-device')
        if s is None:
            return None
        if (s.zda, s.serial) != ('AT1', '%x' % leaf['serial']):
            raise Violation('wrong-device', '%r %r' % (s.zda, s.serial))
        self.sys[k] = s
        return s

    def guard(self, fn, what):
        """Run an attempt; None if it raised. A killed process restarts."""
        before = snapshot(self.reg)
        try:
            return fn()
        except SimCrash:
            self.check_same(before, what, 'kill')
            self.ctx.probe('restart')
            self.sys = {}
            self.new_register()
        except (Exception, KeyboardInterrupt) as e:
            self.ctx.probe('login-failed' if what == 'login' else 'raised')
            self.ctx.log(what, type(e).__name__)
            self.check_same(before, what, repr(e))
        return None

    def check_same(self, before, what, why):
        now = snapshot(self.reg)
        if now != before:
            raise Violation('register-changed', 'a failed attempt (%s: %s) '
                'changed the register\nbefore %s\nafter  %s' % (what, why,
                before, now))

    def amounts(self, cents):
        """The amounts as the caller computed them, up to 0.4 cents from what
        goes on the receipt."""
        q = self.plan.get('frac') or [0]
        f = []
        for i, c in enumerate(cents):
            x = q[(self.n * 5 + i) % len(q)]
            f.append((c + (abs(x) if not c else x) / 10.0) / 100.0)
            if x:
                self.ctx.probe('part-of-cent')
        return f

    def emit(self, kind, cents, dt, local_broken=False):
        """One receipt: attempts until one is created."""
        for attempt in range(50):
            if attempt > 6:
                self.quiet = True
            s = self.system()
            if s is None:
                continue
            if local_broken:
                s = sigsys.SignatureSystemBroken(s.zda, s.serial)
            rid = self.idstyle(self.n)
            t = self.t + dt
            when = world.EPOCH + datetime.timedelta(seconds=t)
            f = self.amounts(cents)
            self.fault = None
            r = self.guard(lambda: self.reg.receipt('R1', rid, when, *f, s,
                kind == 'dummy', kind == 'rev'), 'receipt')
            if r is None:
                if self.fault in OUTAGE:
                    raise Violation('outage-stops-register', 'no receipt when '
                        'the service fails: %s' % self.fault)
                continue
            self.n += 1
            self.t = t
            self.check(r, kind, cents, rid, s)
            return r
        raise Violation('no-progress', 'no receipt although the service works '
            'again')

    def check(self, r, kind, cents, rid, s):
        if kind == 'dummy':
            enc = b'TRA'
        else:
            self.counter += sum(cents)
            enc = b'STO' if kind == 'rev' else world.enc_counter(self.reg_id,
                rid, self.counter, self.key, self.size)
        dev = self.plan['devs'][self.cur % len(self.plan['devs'])]
        leaf = world.FX['leaves'][dev]
        want = world.make_payload('AT1', self.reg_id, rid, world.date_str(
            self.t), [world.fmt(c) for c in cents],
            base64.b64encode(enc).decode(), '%x' % leaf['serial'],
            world.chain_value(self.last, self.reg_id))
        jws = r.toJWSString('R1')
        parts = str(jws).split('.')
        if len(parts) != 3:
            raise Violation('wrong-receipt', 'receipt %d (%s): %r' % (
                len(self.recs), kind, jws))
        got = world.unb64u(parts[1]).decode('utf-8')
        if got != want:
            raise Violation('wrong-receipt', 'receipt %d (%s)\nexpected %s\n'
                'created  %s' % (len(self.recs), kind, want, got))
        if parts[0] != world.b64u(world.HEADER.encode()):
            raise Violation('wrong-receipt', 'header %r' % parts[0])
        last = getattr(self.reg, 'lastReceiptSig', jws)
        if last != jws:
            raise Violation('register-inconsistent', 'the register goes on '
                'after\n%s\nbut the receipt created is\n%s' % (
                last, jws))
        if getattr(self.reg, 'turnoverCounter', self.counter) != self.counter:
            raise Violation('register-inconsistent', 'counter %r, should be %r'
                % (self.reg.turnoverCounter, self.counter))
        broken = parts[2] == world.BROKEN_SIG
        if r.isSignedBroken() != broken:
            raise Violation('outage-not-marked', jws)
        if not broken and not model.sig_ok(model.parse(jws),
                model.pub_of(dev)):
            raise Violation('bad-signature', 'receipt %d has neither a valid '
                'signature nor the outage mark: %s' % (len(self.recs), jws))
        self.last = jws
        self.ctx.probe('unsigned' if broken else 'signed')
        self.ctx.probe({'dummy': 'dummy', 'rev': 'reversal'}.get(kind, 'std'))
        self.ctx.log('receipt', len(self.recs), kind, broken)
        self.recs.append(world.Rec(jws=jws, dev=dev, grp=self.grp, rid=rid,
            kind=kind, signed=not broken, counter=self.counter))


def snapshot(reg):
    return [(k, getattr(reg, k, None)) for k in ('registerId',
        'lastReceiptSig', 'turnoverCounter', 'turnoverCounterSize', 'key')]


_pems = {}


def simcrypto_pem(dev):
    if dev not in _pems:
        _pems[dev] = simcrypto.priv_pem(world.FX['leaves'][dev]['d'])
    return _pems[dev]


def run(plan, ctx):
    if not plan['devs'] or not plan['kinds']:
        raise InvalidPlan('no device')
    if not any(o[0] in ('std', 'dummy', 'rev') for o in plan['ops']):
        raise InvalidPlan('no receipts')
    op = Operator(plan, ctx)
    with op.net:
        # the register starts when its first receipt is signed
        for k in range(20):
            if k > 8:
                op.quiet = True
            op.emit('std', [0] * 5, 0)
            op.quiet = False
            if op.recs[-1].signed:
                break
            op.recs, op.last, op.counter = [], None, 0
            op.new_register()
        op.quiet = False
        down = lenient = False
        for o in plan['ops']:
            if o[0] == 'restart':
                op.sys = {}
                op.new_register()
                ctx.probe('restart')
                continue
            if o[0] == 'login':
                op.sys = {}
                continue
            if o[0] == 'switch':
                op.cur = o[1]
                op.grp += 1
                ctx.probe('switched')
                continue
            if down:
                op.emit('std', [0] * 5, 0)
                if op.recs[-1].signed:
                    ctx.probe('restored')
                    down = False
            op.emit(o[0], o[1], o[2], down and plan['strict'])
            op.quiet = False
            if not op.recs[-1].signed:
                down = True
            elif down:
                ctx.probe('lenient')
                lenient = True
        if down:
            op.quiet = True
            op.emit('std', [0] * 5, 0)
            if op.plan['kinds'][op.cur % len(op.plan['kinds'])] == 'atrust' \
                    and not op.recs[-1].signed:
                raise Violation('no-recovery', 'the service works again but '
                    'receipts are unsigned')
    ctx.nontrivial = bool(ctx.faults) and len(op.recs) > 1
    groups = world.groups_of(op.recs)
    names = case.store_names(plan['devs'], 'all')
    key = op.key
    mg = [(g['dev'], g['recs']) for g in groups]
    hits = model.verify(mg, names, key, model.RegState(), set())[0]
    if hits:
        only = all(set(h.names) <= {
            'NoRestoreReceiptAfterSignatureSystemFailureException'}
            for h in hits)
        if not (only and lenient):
            raise Violation('journal-invalid', 'reference verifier: %s' % hits)
        ctx.probe('restore-late')
        return
    o = core.call(lib.verify.verifyDEP, world.dep_dict(groups, True),
        lib.keystore(names), key, lib.new_state())
    if not o.ok:
        raise Violation('journal-rejected', '%r\n%s' % (o, o.tb[-600:]))
    st = o.value.cashRegisters[0]
    if (st.lastReceiptJWS, st.lastTurnoverCounter) != (op.last, op.counter):
        raise Violation('state-differs', 'verifier %r, register %r' % (
            (st.lastReceiptJWS, st.lastTurnoverCounter), (op.last,
            op.counter)))
    ctx.probe('accepted')
