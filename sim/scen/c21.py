"""C21: run_test.py and demo.py produce the journals they are asked for."""
import base64
import datetime
import gettext
import json
import random
import uuid

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec

from .. import simclock
simclock.install()

from .. import lib, model, script, simcrypto, simfs, simnet, world  # noqa
from ..core import InvalidPlan, Violation, call  # noqa

RUNS = {'quick': 6000, 'thorough': 60000}
FROZEN = ('mode',)
RULE = ('A run executes run_test.py with a generated test specification (1-3 '
    'signature devices that fail and recover, trainings, reversals, several '
    'DEPs, cluster registers, groups, certificate chains of up to three '
    'certificates, wrong chains) or demo.py (local device with certificate or '
    'key, remote service over a failing network) as simulated processes that '
    'may be killed or hit by disk and output errors, under seeded clocks, '
    'zones, keys and random numbers including the extremes. Non-trivial: more '
    'than one receipt was written and checked.')
REAL = ['run_test.py', 'demo.py', 'librksv.run_test', 'librksv.cashreg',
    'librksv.sigsys', 'librksv.depexport', 'librksv.key_store',
    'librksv.verify', 'librksv.utils']
STUB = ['disk and standard output', 'clock and time zone', 'random, uuid4 and '
    'key generation (seeded)', 'the remote signing service and the network']
ASSUME = ['a specification has the elements the README documents',
    'the clock does not go back by more than an hour while a certificate is '
    'made']
SEARCH = ('specifications, fault points, clocks and random sources')
ORACLE = ('an independent computation of every field of every receipt from '
    'the specification, direct signature and certificate checks, and the '
    'verdict of the verifier')
NOTE = ('Samples specifications of up to 25 receipts; a violation it reports '
    'is real, silence is evidence over the explored runs, not proof.')
MUST_HIT = ['open', 'closed', 'groups', 'chain', 'cluster', 'continued',
    'back-to-register', 'bad-chain', 'annotated', 'damaged', 'size-argument',
    'demo-cert', 'demo-key', 'demo-mobile', 'demo-outage', 'repeated',
    'crash-kill', 'EIO', 'ENOSPC', 'EPIPE-stdout', 'extreme-random',
    'date-goes-back', 'rejected-bad-chain']
BAD = ['nosign', 'failure', 'collision', 'omitroot']
EXC = {'failure': 'CertificateChainBrokenException',
    'collision': 'CertificateSerialCollisionException',
    'omitroot': 'UntrustedCertificateException'}


def gen(rng, tier):
    mode = rng.choice(['spec', 'spec', 'spec', 'demo'])
    closed = rng.random() < 0.5
    ndev = rng.choice([1, 1, 2, 3])
    n = rng.choice([1, 2, 3, 4, 6, 9, 14, 25])
    ops = []
    pdep = rng.choice([0, 0, 0.1, 0.3])
    pbad = rng.choice([0, 0.1, 0.3, 0.7])
    dev = 0
    for _ in range(n):
        if rng.random() < 0.25:
            dev = rng.randrange(ndev)
        ops.append({'kind': rng.choice(['std', 'std', 'std', 'null', 'rev',
            'dummy']), 'cents': world.gen_cents(rng, False),
            'dt': world.gen_dt(rng), 'dev': dev, 'bad': rng.random() < pbad,
            'dep': rng.choice(['cont', 'cluster', 'cluster', 'reg']) if
            rng.random() < pdep else None, 'reg': rng.randrange(4),
            'note': rng.choice([0, 0, 0, 1, 12345, -7]),
            'int': rng.random() < 0.1})
    err = rng.choice(['EIO', 'ENOSPC', 'EACCES', 'short', 'kill', 'kill'])
    return {'mode': mode, 'closed': closed, 'ops': ops,
        'devs': [rng.choice(world.CLOSED_KEYS if closed else
            world.OPEN_LEAVES) for _ in range(ndev)],
        'groups': rng.random() < 0.5, 'chain': [rng.choice([0, 0, 1, 2, 3])
            for _ in range(ndev)], 'decimal': rng.random() < 0.2,
        'pubkey': rng.random() < 0.2, 'bad': rng.choice(BAD) if
        rng.random() < 0.15 else None, 'baddev': rng.randrange(3),
        'badpos': rng.randrange(3), 'tcs': rng.choice([None, 5, 6, 8, 11, 16]),
        'tcarg': rng.choice([None, None, 5, 7, 16]),
        'reg': rng.choice(world.REG_IDS), 'company': rng.choice(['U:ATU1',
            'S:123456789', 'G:1234567890123']), 'key': rng.randrange(1000),
        'label': rng.choice(['TESTFALL-1', 'x', 'Größe 7', 'a b']),
        't0': rng.randrange(10**9), 'idstyle': rng.randrange(
            len(world.ID_STYLES)),
        'fault': [rng.randrange(1, 40), err] if rng.random() < 0.4 else None,
        'clock': rng.choice([0, 86400 * 365 * 45, 1540688400 + 1700,
            rng.randrange(10**9, 2 * 10**9)]), 'steps': [rng.choice([0, 0.2, 1,
            1, 7, 3600, 86400] + ([-3600, -2] if rng.random() < 0.2 else []))
            for _ in range(rng.choice([1, 3, 8]))],
        'tz': rng.choice(['UTC', 'UTC', 'Europe/Vienna', 'Asia/Tokyo',
            'America/St_Johns']), 'rnd': rng.randrange(10**6),
        'extreme': rng.choice([0, 0, 0.1, 0.5, 1]),
        'demo': rng.choice(['cert', 'key', 'mobile']),
        'n': rng.choice([1, 1, 2, 3, 5, 8, 13, 30]),
        'net': [[rng.randrange(40), rng.choice([
            'refused', 'timeout-after', 'cut-body', '503', 'html', '500',
            'reset-after'])] for _ in range(rng.choice([0, 0, 1, 3, 9]))],
        'out': [rng.randrange(0, 3000), rng.choice(['EPIPE', 'ENOSPC',
            'EIO'])] if rng.random() < 0.25 else None,
        'nl': rng.choice(['', '\n', '\n'])}


# ---------------------------------------------------------------- randomness

class Chance:
    """The random source of one process: seeded, now and then an extreme."""

    def __init__(self, plan, ctx, salt):
        self.r = random.Random('%s-%s' % (plan['rnd'], salt))
        self.p, self.ctx = plan['extreme'], ctx

    def edge(self):
        if self.r.random() < self.p:
            self.ctx.fault('extreme-random')
            return True
        return False

    def uniform(self, a, b):
        if self.edge():
            return self.r.choice([a, b, (a + b) / 2, a + (b - a) * 0.500001,
                (a + b) / 2 - 0.001, b - 0.005])
        return a + (b - a) * self.r.random()

    def randint(self, a, b):
        return self.r.choice([a, b]) if self.edge() else self.r.randint(a, b)

    def key(self, curve, backend=None):
        return ec.derive_private_key(self.r.randrange(1, simcrypto.N), curve,
            default_backend())

    def patches(self):
        return [(random, 'uniform', self.uniform), (random, 'randint',
            self.randint), (random, 'random', self.r.random),
            (ec, 'generate_private_key', self.key), (uuid, 'uuid4',
            lambda: uuid.UUID(int=self.r.getrandbits(128), version=4))]


def patient(plan, ctx, disk, attempt_fn, complete):
    """A run that meets a fault may fail but must say so; repeated, it works.
    """
    for attempt in (0, 1):
        fl = [plan['fault']] if plan['fault'] and attempt == 0 else []
        proc = simfs.Proc(disk, ctx, fl)
        res = attempt_fn(proc, attempt)
        ctx.log('run', attempt, res.rc, res.crash, proc.injected)
        if res.rc == 0 and not res.crash:
            if attempt:
                ctx.probe('repeated')
            complete(res)
            return res
        if not (proc.injected or res.crash):
            raise Violation('command-fails', '%r\n%s' % (res, res.tb[-900:]))
    raise Violation('command-fails', 'fails again: %r\n%s' % (res,
        res.tb[-900:]))


# ------------------------------------------------------------- specifications

class Want:
    """What one receipt must be."""


def build(plan, ctx):
    """The specification and what it asks for."""
    closed, ndev = plan['closed'], len(plan['devs'])
    if not ndev or not plan['ops']:
        raise InvalidPlan('nothing to do')
    t = plan['t0']
    idf = world.ID_STYLES[plan['idstyle'] % len(world.ID_STYLES)]
    regs = []                   # counter, previous JWS index, outage
    cur = None
    deps = [[]]
    meta = [{}]
    wrong = [None]          # what KF-RUNTEST-PREV makes of it
    counted, count_at = [], -1
    instr = []
    last_dep = {}
    for i, op in enumerate(plan['ops']):
        dep = op['dep'] if i else None
        if dep == 'cluster' and not closed:
            dep = 'cont'
        j = {'usedSignatureDevice': op['dev'] % ndev}
        if dep:
            last_dep[cur['n']] = len(deps) - 1
            note = instr[-1].get('annotateTurnoverCounter')
            if note:
                meta[-1]['Umsatz-gesamt'] = note
        if dep:
            counted[count_at] = len(deps) - 1
            wrong.append(None)
        if dep == 'cluster':
            j['beginNewDEP'] = 'NEW_CLUSTER_DEP'
            meta.append({'Vorheriges-DEP': regs[-1]['dep']})
            ctx.probe('cluster')
        elif dep:
            j['beginNewDEP'] = 'NEW_CONTINUED_DEP'
            back = cur['n']
            if dep == 'reg':
                back = op['reg'] % len(regs)
                j['continueRegister'] = count_at = back
                wrong[-1] = counted[back]
                ctx.probe('back-to-register' if back != cur['n'] else
                    'continued')
            else:
                ctx.probe('continued')
            meta.append({'Vorheriges-DEP': last_dep[back],
                'Fortgesetztes-DEP': True})
            cur = regs[back]
        if dep:
            deps.append([])
        if i == 0 or dep == 'cluster':
            cur = {'n': len(regs), 'ctr': 0, 'last': None, 'out': False,
                'dep': len(deps) - 1, 'start': None, 'need': False}
            regs.append(cur)
            counted.append(len(deps) - 1)
            count_at += 1
        kind, bad, cents = op['kind'], bool(op['bad']), list(op['cents'])
        cents = [int(c) for c in (cents + [0] * 5)[:5]]
        if cur['last'] is None:
            kind, bad = 'null', False
        elif cur['out'] and not bad:
            kind = 'null'
        cur['out'] = bad
        if kind == 'null':
            cents = [0] * 5
        if op.get('int'):
            cents = [c // 100 * 100 for c in cents]
        t += max(0, op['dt'])
        w = Want()
        w.n, w.kind, w.bad, w.cents, w.dev = i, kind, bad, cents, op['dev'] \
            % ndev
        w.id = idf(i)
        w.date = world.date_str(t)
        w.reg = cur
        w.prev = cur['last']
        w.cluster = regs[cur['n'] - 1]['start'] if cur['last'] is None and \
            cur['n'] else None
        cur['last'] = i
        if cur['start'] is None:
            cur['start'] = i
        if kind != 'dummy':
            cur['ctr'] += sum(cents)
        w.ctr = cur['ctr']
        if bad:
            ctx.probe('damaged')
        deps[-1].append(w)
        j.update({'receiptIdentifier': w.id, 'dateToUse': w.date,
            'signatureDeviceDamaged': bad, 'simplifiedReceipt': dict(zip((
                'taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2',
                'taxSetNull', 'taxSetBesonders'), [c // 100 if op.get('int')
                else c / 100.0 for c in cents]))})
        if kind == 'rev':
            j['typeOfReceipt'] = 'STORNO_BELEG'
        elif kind == 'dummy':
            j['typeOfReceipt'] = 'TRAINING_BELEG'
        elif i % 2:
            j['typeOfReceipt'] = 'STANDARD_BELEG'
        if op['note']:
            j['annotateTurnoverCounter'] = op['note']
            ctx.probe('annotated')
        instr.append(j)
    if instr[-1].get('annotateTurnoverCounter'):
        meta[-1]['Umsatz-gesamt'] = instr[-1]['annotateTurnoverCounter']
    if len({w.id for d in deps for w in d}) < len(instr):
        raise InvalidPlan('receipt IDs repeat')
    key = world.aes_key(plan['key'])
    spec = {'simulationRunLabel': plan['label'], 'cashBoxId': plan['reg'],
        'companyID': plan['company'], 'numberOfSignatureDevices': ndev,
        'base64AesKey': base64.b64encode(key).decode(),
        'cashBoxInstructionList': instr}
    if plan['tcs']:
        spec['turnoverCounterSize'] = min(16, max(5, plan['tcs']))
    size = spec.get('turnoverCounterSize', 8)
    if plan['tcarg']:
        size = min(16, max(5, plan['tcarg']))
        ctx.probe('size-argument')
    groups = bool(plan['groups'])
    chain = [0] * ndev
    broken = None
    if groups:
        spec['multipleGroups'] = True
        ctx.probe('groups')
    if not closed:
        if groups:
            chain = [min(3, max(0, c)) for c in (plan['chain'] + [0] * ndev)
                [:ndev]]
            if any(chain):
                spec['certChainLength'] = chain
        if plan['decimal']:
            spec['decimalSerial'] = True
    used = sorted({w.dev for d in deps for w in d})
    if plan['bad'] and groups and not closed:
        b = used[plan['baddev'] % len(used)]
        kind = plan['bad']
        if kind == 'failure' and chain[b]:
            spec['certChainFailure'] = [1 + plan['badpos'] % chain[i] if i == b
                else 0 for i in range(ndev)]
            broken = kind
        elif kind == 'collision':
            spec['certChainSerialCollision'] = [i == b for i in range(ndev)]
            broken = kind
        elif kind == 'omitroot':
            # unless another device has the same certificate
            if plan['devs'].count(plan['devs'][b]) == 1:
                spec['omitRootCert'] = [i == b for i in range(ndev)]
                broken = kind
        elif kind == 'nosign':
            spec['omitSignCert'] = [i == b for i in range(ndev)]
            broken = kind
        if broken:
            ctx.probe('bad-chain')
    if any(chain):
        ctx.probe('chain')
    if broken == 'collision' and any(d == plan['devs'][b] for i, d in
            enumerate(plan['devs']) if i != b):
        raise InvalidPlan('two devices with one certificate')
    if plan['pubkey'] and not closed and not broken:
        spec['includePublicKey'] = True
    return spec, deps, (meta, wrong), size, broken, key


def key_of(name):
    return (world.FX['closed'].get(name) or world.FX['leaves'][name])['d']


def check_spec(plan, ctx, disk, spec, deps, meta, size, broken, key):
    closed = plan['closed']
    meta, wrong = meta
    out = '%s/' % plan['label']

    def load(f):
        try:
            return json.loads(disk.get(out + f).decode('utf-8'))
        except Exception as e:
            raise Violation('output-incomplete', '%s after success: %r' % (f,
                e))
    mat = load('cryptographicMaterialContainer.json')
    names = ['dep-export.json'] if len(deps) == 1 else ['dep-export%d.json' %
        i for i in range(len(deps))]
    got = [load(f) for f in names]
    jws = {}
    zdas = {}
    for d, (want, dep) in enumerate(zip(deps, got)):
        extra = {k: v for k, v in dep.items() if k != 'Belege-Gruppe'}
        if extra != meta[d] and wrong[d] is not None and extra == dict(
                meta[d], **{'Vorheriges-DEP': wrong[d]}):
            ctx.known('KF-RUNTEST-PREV', 'wrong-remark', 'DEP %d says %s, '
                'should say %s' % (d, extra, meta[d]))
        elif extra != meta[d]:
            raise Violation('wrong-remark', 'DEP %d says %s, should say %s' % (
                d, extra, meta[d]))
        runs = []
        for w in want:
            if not runs or spec.get('multipleGroups') and \
                    runs[-1][-1].dev != w.dev:
                runs.append([])
            runs[-1].append(w)
        gs = dep['Belege-Gruppe']
        if [len(g['Belege-kompakt']) for g in gs] != [len(r) for r in runs]:
            raise Violation('wrong-groups', 'DEP %d: groups of %s receipts, '
                'should be %s' % (d, [len(g['Belege-kompakt']) for g in gs],
                [len(r) for r in runs]))
        for g, r in zip(gs, runs):
            certs = [g['Signaturzertifikat']] + g['Zertifizierungsstellen']
            for w, j in zip(r, g['Belege-kompakt']):
                if w is r[0] or not plan['groups']:
                    pub, serial = check_certs(plan, spec, w.dev, certs)
                jws[w.n] = j
                try:
                    m = model.parse(j)
                except model.Bad as e:
                    raise Violation('receipt-malformed', 'receipt %d: %s' % (
                        w.n, sorted(e.names)))
                check_receipt(plan, spec, w, m, jws, size, key, pub, serial,
                    zdas)
    if mat.get('base64AESKey') != spec['base64AesKey']:
        raise Violation('wrong-container', 'AES key %r' % mat.get(
            'base64AESKey'))
    ids = set()
    for i, n in enumerate(plan['devs']):
        kid = '%s-K%d' % (plan['company'], i)
        if closed or spec.get('includePublicKey'):
            ids.add(kid)
        if not closed and not (spec.get('omitRootCert') or [0] * 9)[i]:
            ids.add('%x' % world.FX['leaves'][n]['serial'])
    have = set(mat.get('certificateOrPublicKeyMap') or ())
    # in groups, the certificates a closed system makes are there as well
    if broken != 'collision' and (not ids <= have or not closed and
            ids != have):
        raise Violation('wrong-container', 'keys %s, should be %s' % (
            sorted(have), sorted(ids)))
    verify_all(plan, spec, ctx, got, mat, broken, key, deps)


def check_certs(plan, spec, dev, certs):
    name = plan['devs'][dev]
    if not spec.get('multipleGroups'):
        if certs != ['']:
            raise Violation('wrong-certificates', 'a DEP without groups names '
                'certificates')
        if plan['closed']:
            return model.pub_of(name), '%s-K%d' % (plan['company'], dev)
        return model.pub_of(name), world.FX['leaves'][name]['serial']
    if (spec.get('omitSignCert') or [0] * 9)[dev]:
        if certs != ['']:
            raise Violation('wrong-certificates', 'certificates of device %d, '
                'which are to be left out' % dev)
        return None, None
    try:
        cs = [x509.load_der_x509_certificate(base64.b64decode(c),
            default_backend()) for c in certs]
    except Exception as e:
        raise Violation('wrong-certificates', '%r' % e)
    n = (spec.get('certChainLength') or [0] * 9)[dev] + 1
    if len(cs) != n:
        raise Violation('wrong-certificates', '%d certificates, should be %d' %
            (len(cs), n))
    if plan['closed']:
        if cs[0].public_key().public_numbers() != model.pub_of(name) \
                .public_numbers():
            raise Violation('wrong-certificates', 'certificate of another key')
        return model.pub_of(name), '%s-K%d' % (plan['company'], dev)
    if certs[-1] != world.cert_of(name):
        raise Violation('wrong-certificates', 'the chain does not end in the '
            'given certificate')
    bad = (spec.get('certChainFailure') or [0] * 9)[dev]
    for k in range(n - 1):
        try:
            cs[k + 1].public_key().verify(cs[k].signature,
                cs[k].tbs_certificate_bytes, ec.ECDSA(
                    cs[k].signature_hash_algorithm))
            ok = True
        except Exception:
            ok = False
        if ok != (k + 1 != bad):
            raise Violation('wrong-certificates', 'link %d of the chain of '
                'device %d is %s, specified failure: %d' % (k, dev, 'good' if
                ok else 'broken', bad))
    return cs[0].public_key(), cs[0].serial_number


def check_receipt(plan, spec, w, m, jws, size, key, pub, serial, zdas):
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append('%s is %r, should be %r' % (what, got, want))
    eq('register', m.reg, spec['cashBoxId'])
    eq('ID', m.id, w.id)
    eq('date', m.date, w.date)
    eq('sums', m.jws and model.unb64u(m.jws.split('.')[1]).decode().split('_')[
        5:10], [world.fmt(c) for c in w.cents])
    if plan['closed']:
        eq('ZDA', m.zda, 'AT0')
        eq('key ID', m.serial, serial)
    else:
        eq('ZDA', m.zda, zdas.setdefault(w.dev, m.zda))
        if m.zda == 'AT0':
            bad.append('ZDA of a closed system')
        if serial is not None:
            eq('serial', m.serial, ('%d' if spec.get('decimalSerial') else
                '%x') % serial)
    if w.kind in ('rev', 'dummy'):
        eq('counter', m.enc, b'STO' if w.kind == 'rev' else b'TRA')
    else:
        eq('counter', m.enc if m.dummy or m.rev else model.counter_of(m, key),
            w.ctr)
        eq('counter size', len(m.enc), size)
    anchor = jws[w.prev] if w.prev is not None else jws[w.cluster] if \
        w.cluster is not None else None
    eq('chain', m.chain, world.chain_value(anchor, spec['cashBoxId']))
    eq('broken', m.broken, w.bad)
    if not w.bad and pub is not None and not model.sig_ok(m, pub):
        bad.append('the signature is wrong')
    if bad:
        raise Violation('receipt-differs', 'receipt %d: %s' % (w.n,
            '; '.join(bad)))


def verify_all(plan, spec, ctx, got, mat, broken, key, deps):
    o = call(lib.key_store.KeyStore.readStoreFromJson, mat)
    if not o.ok:
        raise Violation('wrong-container', '%r' % o)
    ks = o.value
    state = lib.new_state()
    for d, dep in enumerate(got):
        idx = deps[d][0].reg['n']
        gs = [bool(g['Signaturzertifikat']) for g in dep['Belege-Gruppe']]
        if broken == 'nosign':
            # a DEP of one group may do without a certificate
            bad = None
            if not all(gs) and len(gs) > 1:
                bad = ['NoCertificateGivenException', 'NoPublicKeyException']
            elif not all(gs) and (spec.get('certChainLength') or [0] * 9)[
                    deps[d][0].dev] and not all(w.bad for w in deps[d]):
                bad = ['NoPublicKeyException']
        else:
            bad = broken and [EXC[broken]]
        o = call(lib.verify.verifyDEP, json.loads(json.dumps(dep)), ks, key,
            state, idx)
        ctx.log('verify', d, idx, o.name)
        if not o.ok:
            if bad and o.name in bad:
                ctx.probe('rejected-bad-chain')
                return
            raise Violation('rejected', 'DEP %d: %r (%s)\n%s' % (d, o, broken,
                o.tb[-500:]))
        if broken == 'nosign' and bad:
            break
        state = o.value
    else:
        bad = broken != 'nosign' and broken
    if bad:
        raise Violation('accepted-bad-chain', 'accepted although the '
            'specification asks for: %s' % broken)


def started(ctx):
    """gettext.install(), which is called with an argument it has no more."""
    real = gettext.install

    def install(*a, **kw):
        try:
            return real(*a, **kw)
        except TypeError as e:
            if a != ('rktool', './lang', True) or kw:
                raise
            ctx.known('KF-RUNTEST-START', 'command-fails', 'run_test.py does '
                'not start: %s' % e)
            return real(*a[:2])
    return install


def run_spec(plan, ctx):
    spec, deps, meta, size, broken, key = build(plan, ctx)
    closed = plan['closed']
    ctx.probe('closed' if closed else 'open')
    disk = simfs.Disk()
    disk.put('spec.json', json.dumps(spec))
    args = ['closed' if closed else 'open', 'spec.json']
    for i, n in enumerate(plan['devs']):
        disk.put('priv%d' % i, simcrypto.priv_pem(key_of(n)))
        disk.put('pub%d' % i, simcrypto.pub_pem(key_of(n)) if closed else
            world.pem(world.cert_of(n)))
        args += ['priv%d' % i, 'pub%d' % i]
    if plan['tcarg']:
        args.append(str(size))

    def attempt(proc, k):
        with simclock.Clock(plan['clock'], [s for s in plan['steps'] if
                abs(s) <= 86400], ctx):
            return script.run('run_test.py', args, proc, ctx, patches=Chance(
                plan, ctx, k).patches() + [(gettext, 'install', started(
                    ctx))])
    patient(plan, ctx, disk, attempt, lambda res: check_spec(plan, ctx, disk,
        spec, deps, meta, size, broken, key))
    n = sum(map(len, deps))
    ctx.steps += n
    ctx.nontrivial = n > 1
    ctx.log('checked', n, len(deps))


# ----------------------------------------------------------------------- demo

def run_demo(plan, ctx):
    kind, n = plan['demo'], max(1, plan['n'])
    closed = kind == 'key'
    name = plan['devs'][0] if plan['devs'] else ''
    if closed != (name in world.FX['closed']):
        name = world.CLOSED_KEYS[0] if closed else world.OPEN_LEAVES[
            plan['key'] % len(world.OPEN_LEAVES)]
    key = world.aes_key(plan['key'])
    disk = simfs.Disk()
    disk.put('aes', base64.b64encode(key).decode() + plan['nl'])
    disk.put('priv', simcrypto.priv_pem(key_of(name)))
    net = None
    kid = world.FX['closed'][name]['kid'] if closed else '%x' % \
        world.FX['leaves'][name]['serial']
    if kind == 'mobile':
        svc = Account(name)
        args = ['aes', str(n)]
    elif closed:
        disk.put('pub', simcrypto.pub_pem(key_of(name)))
        args = ['priv', 'pub', kid, 'aes', str(n)]
    else:
        disk.put('pub', world.pem(world.cert_of(name)))
        args = ['priv', 'pub', 'aes', str(n)]
    ctx.probe('demo-' + kind)
    seen = {}

    def attempt(proc, k):
        faults = dict((i, f) for i, f in plan['net']) if k == 0 else {}
        clock = simclock.Clock(plan['clock'], plan['steps'], ctx)
        seen['t0'] = clock.t
        patches = Chance(plan, ctx, k).patches()
        if kind == 'mobile':
            nt = simnet.SimNet(ctx, svc, lambda i, r: faults.get(i - 1))
            seen['net'] = nt
            patches += nt.patches()
        out = None
        if plan['out'] and k == 0:
            out = {'fail_after': plan['out'][0], 'err': plan['out'][1]}
        with clock:
            res = script.run('demo.py', args, proc, ctx, patches=patches,
                stdout=out)
        seen['clock'] = clock
        if kind == 'mobile' and any(f for _, _, f in seen['net'].log[:2]) \
                and res.rc:
            proc.injected.append('no login')
        return res

    def complete(res):
        check_demo(plan, ctx, res, n, kind, name, kid, key, seen)
    with simclock.zone(plan['tz']):
        patient(plan, ctx, disk, attempt, complete)
    ctx.nontrivial = n > 1


class Account:
    def __init__(self, name):
        self.leaf = world.FX['leaves'][name]

    def __call__(self, req):
        parts = [p for p in req.url.split('/') if p]
        if 'u123456789' not in parts:
            return None
        if parts[-1] == 'Certificate':
            return simnet.Answer(200, {'ZertifikatsseriennummerHex': '%x' %
                self.leaf['serial'], 'alg': 'ES256'})
        if parts[-1] == 'ZDA':
            return simnet.Answer(200, {'zdaid': 'AT1'})
        if req.method == 'POST':
            d = json.loads(req.body)
            return simnet.Answer(200, {'result': world.make_jws(
                d['jws_payload'], self.leaf['d'])})
        return None


def check_demo(plan, ctx, res, n, kind, name, kid, key, seen):
    try:
        dep = json.loads(res.text())
        gs = dep['Belege-Gruppe']
        recs = [j for g in gs for j in g['Belege-kompakt']]
    except Exception as e:
        raise Violation('output-incomplete', 'demo.py after success: %r' % e)
    if len(recs) != n:
        raise Violation('wrong-number', '%d receipts, asked for %d' % (
            len(recs), n))
    prev, total, back, ids = None, 0, False, set()
    outage, need = [], False
    signs = [f for m, u, f in seen['net'].log if m == 'POST'] if kind == \
        'mobile' else [None] * n
    for i, j in enumerate(recs):
        try:
            m = model.parse(j)
        except model.Bad as e:
            raise Violation('receipt-malformed', 'receipt %d: %s: %s' % (i,
                sorted(e.names), model.unb64u(j.split('.')[1])))
        bad = []
        if m.id in ids:
            bad.append('ID %r again' % m.id)
        ids.add(m.id)
        if m.chain != world.chain_value(prev.jws if prev else None, m.reg):
            bad.append('wrong chain')
        if m.serial != kid:
            bad.append('serial %r' % m.serial)
        if i == 0 and not (m.null and not m.dummy and not m.rev):
            bad.append('no initial receipt')
        if not m.dummy:
            total += m.cents
            if not m.rev and model.counter_of(m, key) != total:
                bad.append('counter %r, should be %r' % (model.counter_of(m,
                    key), total))
        if any(abs(int(s.replace(',', ''))) > 100000 for s in model.unb64u(
                j.split('.')[1]).decode().split('_')[5:10]):
            bad.append('an amount beyond 1000')
        if m.broken != bool(signs[i]):
            bad.append('broken %s, service %s' % (m.broken, signs[i]))
        if not m.broken and not model.sig_ok(m, model.pub_of(name)):
            bad.append('wrong signature')
        lo, hi = span(seen, plan)
        if not lo <= m.when <= hi:
            bad.append('date %s outside of %s - %s' % (m.date, lo, hi))
        if prev and m.when < prev.when:
            back = True
        outage.append(m.broken)
        if bad:
            raise Violation('receipt-differs', 'receipt %d: %s' % (i,
                '; '.join(bad)))
        prev = m
    if back:
        ctx.probe('date-goes-back')
    if any(outage):
        ctx.probe('demo-outage')
    store = [name]
    o = call(lib.verify.verifyDEP, dep, lib.keystore(store), key,
        lib.new_state())
    ctx.log('demo', n, back, sum(outage), o.name)
    # receipts after an outage need not be what the law asks for
    if not o.ok and not back and not any(outage):
        raise Violation('rejected', 'the demonstration journal: %r\n%s' % (o,
            o.tb[-500:]))


def span(seen, plan):
    """Local times the clock may have shown."""
    c = seen['clock']
    lo = hi = t = seen['t0']
    for k in range(c.n):
        t += c.steps[k % len(c.steps)]
        lo, hi = min(lo, t), max(hi, t)
    slack = datetime.timedelta(hours=2 if plan['tz'] not in ('UTC',
        'Asia/Tokyo') else 0, seconds=1)
    f = datetime.datetime.fromtimestamp
    return f(lo) - slack, f(hi) + slack


def run(plan, ctx):
    if plan['mode'] == 'demo':
        run_demo(plan, ctx)
    else:
        run_spec(plan, ctx)
