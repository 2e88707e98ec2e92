"""C15: threads of one process that use the library do not interfere."""
import copy
import datetime
import io
import json
import traceback

from .. import case, deprender, forms, lib, simcrypto, simio, simthreads, world
from ..core import InvalidPlan, Violation

RUNS = {'quick': 6000, 'thorough': 100000}
FROZEN = ('faultkinds',)
RULE = ('A run starts 2-4 threads in a freshly imported copy of the library; '
    'each has 1-3 tasks (verify a journal, verify single receipts, parse, '
    'export, run a cash register, rebuild and store states, read key stores) '
    'on data of its own but with the same key store and verifiers. The '
    'scheduler may change the thread at every line (in some runs every '
    'bytecode) of the library. Non-trivial: at least two threads finished '
    'work and five switches happened in the middle of it.')
REAL = ['librksv (all modules, fresh copy per run)', 'Python threads',
    'ijson, json, cryptography']
STUB = ['choice of the running thread (seeded baton, one thread at a time)',
    'locks created by the library (simulated)', 'files (simulated streams)',
    'ECDSA nonces']
ASSUME = ['third-party libraries are thread safe: threads are switched in '
    'the library\'s own code only',
    'shared key stores and verifiers are only read']
SEARCH = ('thread interleavings at line and bytecode granularity, with task '
    'mixes and similar or different data per thread')
ORACLE = 'the same tasks run alone in a fresh copy of the library'
NOTE = ('Samples interleavings; a violation it reports is real, silence is '
    'evidence over the explored runs, not proof.')
MUST_HIT = ['op:verify', 'op:receipts', 'op:parse', 'op:export',
    'op:register', 'op:state', 'op:keystore', 'opcodes', 'switches',
    'accepted', 'rejected', 'similar', 'shared-certs']
OPS = ['verify', 'verify', 'verify', 'receipts', 'receipts', 'parse',
    'export', 'register', 'register', 'state', 'keystore']


def gen_op(rng, same):
    k = same or rng.choice(OPS)
    op = {'k': k, 'a': rng.randrange(1000), 'chunk': rng.choice([0, 1, 2, 3,
        5]), 'parser': rng.choice(['dict', 'full', 'file', 'file']),
        'stream': simio.gen_stream_plan(rng, True),
        'nprocs': rng.choice([1, 1, 2, 3])}
    if k == 'register':
        op['recs'] = [[rng.choice(['std', 'std', 'null', 'dummy', 'rev']),
            world.gen_cents(rng, False), world.gen_dt(rng)]
            for _ in range(rng.choice([1, 2, 4]))]
    return op


def gen_switches(rng):
    style = rng.randrange(5)
    out = []
    for _ in range(rng.choice([0, 20, 60, 150, 400])):
        if style == 0:
            g = rng.randrange(1, 6)
        elif style == 1:
            g = rng.randrange(1, 60)
        elif style == 2:
            g = int(2 ** (rng.random() * 11))
        elif style == 3:
            g = rng.choice([1, 2, 3, 5, 200, 1000])
        else:
            g = 1
        out.append([g, rng.randrange(8)])
    return out


def gen_site(rng):
    by = rng.choice(['line', 'line', 'func', 'func', 'func'])
    m = rng.choice([3, 6, 12, 25, 50] if by == 'line' else [3, 6, 12, 25])
    return {'by': by, 'm': m, 'r': rng.randrange(m)}


def gen(rng, tier):
    nt = rng.choice([2, 2, 2, 3, 4])
    same = rng.choice(OPS) if rng.random() < 0.5 else None
    base = case.gen_case(rng, rng.choice([1, 2, 3, 4, 6]),
        faults=rng.choice([0, 0, 0, 1, 1]), cluster=0)
    thr = []
    similar = rng.random() < 0.6
    for i in range(nt):
        if similar:
            c = copy.deepcopy(base)
            if i:
                j = c['j']
                if rng.random() < 0.25:
                    j['key'] += i
                if rng.random() < 0.25:
                    j['t0'] += 86400 * i
                if rng.random() < 0.15:
                    case.add_fault(rng, j)
                if rng.random() < 0.25:
                    j['ops'] = j['ops'] + [['std', [100 * i, 0, 0, 0, 0], 7]]
                if rng.random() < 0.4:
                    j['devs'] = [rng.choice(world.CLOSED_KEYS if j['closed']
                        else world.OPEN_LEAVES) for _ in j['devs']]
                if rng.random() < 0.25:
                    j['reg'] = rng.choice(world.REG_IDS)
                if rng.random() < 0.25:
                    j['ids'] = rng.randrange(6)
        else:
            c = case.gen_case(rng, rng.choice([1, 2, 3, 4, 6]),
                faults=rng.choice([0, 0, 1]), cluster=0)
        ops = [gen_op(rng, same) for _ in range(rng.choice([1, 1, 2, 3]))]
        if similar and i and rng.random() < 0.5:
            ops = copy.deepcopy(thr[0]['ops'])
        thr.append({'case': c, 'ops': ops, 'tamper': [rng.randrange(1000)
            for _ in range(rng.choice([0, 0, 0, 1, 3]))]})
    return {'thr': thr, 'similar': similar, 'layout':
        deprender.gen_layout(rng), 'sw': gen_switches(rng),
        'opcodes': rng.random() < 0.2,
        'site': gen_site(rng) if rng.random() < 0.6 else None, 'first': rng.randrange(4)}


class Data:
    """What one thread works on, prepared outside of the library."""

    def __init__(self, t, lay):
        c = self.c = case.Case(t['case'])
        self.dep = c.dep(c.recs)
        self.text = deprender.render(self.dep, lay)
        # single receipts may be forged
        self.jws = [r.jws for r in c.recs]
        for x in t['tamper']:
            i = x % len(self.jws)
            h, p, g = self.jws[i].split('.')
            y = bytearray(world.unb64u(g))
            if y:
                y[x % len(y)] ^= 1 + x % 255
            self.jws[i] = '.'.join([h, p, world.b64u(bytes(y))])
        self.key = c.key
        self.t = t
        self.dev = t['case']['j']['devs'][0]


class Shared:
    def __init__(self, L, store, certs):
        self.ks = L.key_store.KeyStore.readStoreFromJson(
            world.store_json(store))
        self.by_ks = L.verify_receipt.ReceiptVerifier.fromKeyStore(self.ks)
        self.by_cert = {n: L.verify_receipt.ReceiptVerifier.fromCert(
            L.utils.loadCert(world.pem(world.cert_of(n)))) for n in certs}


class NoCtx:
    """Streams are read by several threads: they count nothing."""
    steps = 0

    def fault(self, *a):
        pass

    probe = log = choice = fault


def parser(L, op, d):
    if op['parser'] == 'dict':
        return L.depparser.DictDEPParser(json.loads(d.text.lstrip('\ufeff')),
            op['nprocs'])
    fd = simio.open_stream(d.text.encode('utf-8'), dict(op['stream'],
        seek=True), NoCtx())
    if op['parser'] == 'full':
        return L.depparser.FullFileDEPParser(fd, op['nprocs'])
    return L.depparser.IncrementalDEPParser.fromFd(fd, True)


def cert_id(c):
    return None if c is None else '%x' % c.serial_number


def norm(state):
    j = json.loads(json.dumps(state.writeStateToJson()))
    u = j['usedReceiptIds']
    if isinstance(u.get('backendData'), list):
        u['backendData'] = sorted(u['backendData'])
    return j


def do(L, sh, op, d, out):
    """One task. Appends what a caller sees to `out`."""
    k, V = op['k'], L.verification_state
    if k == 'verify':
        if op['a'] % 3 == 0:
            st = L.verify.verifyDEP(json.loads(json.dumps(d.dep)), sh.ks,
                d.key)
        else:
            backend = list(V.USED_RECEIPT_IDS_BACKENDS.values())[0]
            st = L.verify.verifyParsedDEP(parser(L, op, d), sh.ks, d.key,
                V.ClusterState(backend) if op['a'] % 3 == 1 else None, None,
                None, op['nprocs'], op['chunk'])
        out.append(norm(st))
    elif k == 'receipts':
        for i, j in enumerate(d.jws):
            f = (op['a'] + i) % 4
            v = sh.by_ks
            if op['a'] % 2 and d.dev in sh.by_cert:
                v = sh.by_cert[d.dev]
            try:
                if f == 0:
                    r = v.verifyJWS(j)
                elif f == 1:
                    r = v.verifyBasicCode(forms.qr(j))
                elif f == 2:
                    r = v.verifyOCRCode(forms.ocr(j))
                else:
                    r = v.verifyCSV(forms.csv(j))
                rec, alg = r
                L.verify_receipt.verifyURLHash(rec, alg, forms.url_hash(j))
                out.append([rec.toJWSString(alg.id()), rec.toBasicCode(
                    alg.id()), rec.toURLHash(alg) if hasattr(rec, 'toURLHash')
                    else None])
                if d.key and not rec.isDummy() and not rec.isReversal():
                    out.append(rec.decryptTurnoverCounter(d.key, alg))
            except Exception as e:
                out.append([type(e).__name__, str(e)])
    elif k == 'parse':
        p = parser(L, op, d)
        for _ in range(1 + op['a'] % 2):
            for chunk in p.parse(op['chunk']):
                for recs, cert, chain in chunk:
                    out.append([[r if isinstance(r, str) else repr(r)
                        for r in recs], cert_id(cert), [cert_id(c) for c in
                        chain]])
    elif k == 'export':
        p = parser(L, op, d)
        groups = L.depparser.receiptGroupAdapter(p.parse(op['chunk']))
        if op['a'] % 3 == 0:
            s = L.depexport.MergingDEPStream(groups)
        elif op['a'] % 3 == 1:
            s = L.depexport.DEPStream(groups)
        else:
            s = L.depexport.DEPStream()
            for g in groups:
                s.append(list(g[0]), *([g[1]] + ([g[2]] if g[2] else [])))
        if op['a'] % 2:
            e = L.depexport.JSONExporter(s, op['a'] % 5 > 2)
            e.addExtra('note', op['a'])
        else:
            e = L.depexport.CSVExporter(s)
        out.append(''.join(e.export()))
    elif k == 'register':
        leaf = world.FX['leaves'].get(d.dev)
        if leaf:
            sig = L.sigsys.SignatureSystemWorking('AT1', '%x' %
                leaf['serial'], simcrypto.priv_pem(leaf['d']))
        else:
            sig = L.sigsys.SignatureSystemBroken('AT1', '1234')
        j = d.t['case']['j']
        reg = L.cashreg.CashRegister(j['reg'], None, 0, world.aes_key(
            j.get('key', 0)), max(5, min(16, j['tcs'])))
        t = j['t0']
        for i, (kind, cents, dt) in enumerate(op['recs']):
            t += dt
            s = sig
            if op['a'] % 7 == i:
                s = L.sigsys.SignatureSystemBroken(sig.zda, sig.serial)
            f = [0.0] * 5 if kind == 'null' or not i else \
                [c / 100.0 for c in cents]
            r = reg.receipt('R1', 'B%d' % i, world.EPOCH + datetime.timedelta(
                seconds=t), *f, s, kind == 'dummy', kind == 'rev')
            out.append([r.toJWSString('R1'), reg.turnoverCounter,
                reg.lastReceiptSig])
    elif k == 'state':
        R = L.receipt.Receipt
        cs = V.CashRegisterState()
        n = max(1, op['chunk'])
        for i in range(0, len(d.jws), n):
            g = [R.fromJWSString(x) for x in d.jws[i:i + n]]
            cs.updateFromDEPGroup(g, d.key)
            out.append([cs.lastReceiptJWS, str(cs.lastTurnoverCounter),
                cs.needRestoreReceipt])
        r, a = R.fromJWSString(d.jws[op['a'] % len(d.jws)])
        st = V.ClusterState.fromArbitraryReceipt(r, a, d.key)
        out.append(norm(st))
        st2 = V.ClusterState.readStateFromJson(json.loads(json.dumps(
            st.writeStateToJson())))
        st2.addNewCashRegister()
        out.append([norm(st2), st == st2])
        out.append(norm(V.ClusterState()))
    elif k == 'keystore':
        ks = L.key_store.KeyStore.readStoreFromJson(world.store_json(
            d.c.store))
        for n in world.OPEN_LEAVES[op['a'] % 5:][:2]:
            ks.putPEMCert(world.pem(world.cert_of(n)))
        ks.delKey(sorted(ks.getKeyIds())[op['a'] % len(list(
            ks.getKeyIds()))])
        out.append(ks.writeStoreToJson(None))
        out.append(sorted(sh.ks.getKeyIds()))
        R = L.receipt.Receipt
        for j in d.jws[:2]:
            for f, p in ((forms.qr, R.fromBasicCode), (forms.ocr,
                    R.fromOCRCode), (forms.csv, R.fromCSV)):
                try:
                    r, a = p(f(j))
                    out.append([r.toJWSString(a), r.toOCRCode(a),
                        r.toCSV(a)])
                except Exception as e:
                    out.append([type(e).__name__, str(e)])


def program(L, sh, t, d):
    def main():
        res = []
        for op in t['ops']:
            out = []
            try:
                do(L, sh, op, d, out)
            except Exception as e:
                out.append(['raised', type(e).__name__, str(e)])
                out.append(Tb(traceback.format_exc()))
            res.append(out)
        return res
    return main


class Tb(str):
    """A traceback: shown, not compared."""

    def __eq__(self, o):
        return isinstance(o, Tb)

    __hash__ = str.__hash__


def run(plan, ctx):
    data = [Data(t, plan['layout']) for t in plan['thr']]
    for t in plan['thr']:
        for k in t['case']['faultkinds']:
            ctx.fault(k)
    store, certs = [], []
    for d in data:
        store += [n for n in d.c.store if n not in store]
        if d.dev in world.FX['leaves'] and d.dev not in certs:
            certs.append(d.dev)
    if certs:
        ctx.probe('shared-certs')
    if plan['similar']:
        ctx.probe('similar')
    want = []
    with simthreads.Locks():
        for t, d in zip(plan['thr'], data):
            fr = simthreads.Fresh()
            with fr:
                want.append(program(fr, Shared(fr, store, certs), t, d)())
        fr = simthreads.Fresh()
        with fr:
            sh = Shared(fr, store, certs)
            s = simthreads.Scheduler(plan['sw'], ctx, plan['opcodes'],
                plan.get('site'))
            for t, d in zip(plan['thr'], data):
                s.spawn(program(fr, sh, t, d))
            simthreads.run(s, plan['first'])
    if plan['opcodes']:
        ctx.probe('opcodes')
    ctx.probe('switches', s.mid)
    ctx.fault('preemption', s.mid)
    ctx.log('interleaving', ctx.sched_digest(), s.steps)
    ctx.probe('preempted-functions', len(s.sites))
    for t in plan['thr']:
        for op in t['ops']:
            ctx.probe('op:' + op['k'])
    for i, (t, w) in enumerate(zip(s.threads, want)):
        ctx.log('thread', i, json.dumps(t.result, default=str)[:200])
        for k, (op, a, b) in enumerate(zip(plan['thr'][i]['ops'], t.result,
                w)):
            if op['k'] == 'verify':
                ctx.probe('accepted' if isinstance(b[-1], dict) else
                    'rejected')
            if a != b:
                raise Violation('interference', 'thread %d, task %d (%s): '
                    'alone\n%s\nwith other threads\n%s' % (i, k, op['k'],
                        show(b), show(a)))
    if s.mid >= 5:
        ctx.nontrivial = True


def show(x):
    return json.dumps(x, default=str)[-1500:]
