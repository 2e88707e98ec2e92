"""C06: commands of the state and key store tools have their documented effect
or none, across kills, power failures and disk errors."""
import base64
import copy
import json

from .. import case, core, deprender, lib, model, script, simfs, world
from ..core import InvalidPlan, Violation
from ..simpool import Decider

RUNS = {'quick': 16000, 'thorough': 250000}
FROZEN = ('j',)
RULE = ('A run executes 1-8 commands of verification_state.py or key_store.py '
    'on a simulated disk; each command may meet one fault at a random file '
    'operation. After every command the file (after recovery, if the machine '
    'lost power) is compared with a model of the documented effect. '
    'Non-trivial: at least one fault struck or two commands took effect.')
REAL = ['verification_state.py', 'key_store.py', 'librksv.utils.writeJsonFile',
    'librksv.verification_state', 'librksv.key_store', 'librksv.depparser',
    'json, configparser']
STUB = ['disk and file functions of builtins, io and os (in-memory file '
    'system with crash model)', 'standard streams']
ASSUME = ['directory operations reach the disk in order (journaling file '
    'system); data of a synced file survives',
    'resetCashRegister also clears the used receipt IDs, as it always did']
SEARCH = ('sequences of commands, crash points between any two file '
    'operations, power loss with unsynced data lost, torn or zeroed, full '
    'disks, I/O errors and short writes')
ORACLE = 'a model of each command\'s documented effect on the file'
NOTE = ('Every file operation of a command is a possible fault point; points '
    'are sampled, not enumerated. A violation it reports is real.')
MUST_HIT = ['crash-kill', 'crash-power', 'ENOSPC', 'EIO', 'disk-full',
    'effect', 'no-effect-after-fault', 'effect-after-fault', 'short',
    'expected-failure', 'fsyncfail']

STATE_CMDS = ['create', 'show', 'addCashRegister', 'resetCashRegister',
    'deleteCashRegister', 'copyCashRegister', 'updateCashRegister',
    'updateCashRegister', 'setLastReceiptJWS', 'setLastTurnoverCounter',
    'setChainNextTo', 'toggleNeedRestoreReceipt', 'setStartReceiptJWS',
    'readUsedReceiptIds', 'fromArbitraryReceipt', 'fromArbitraryStartReceipt']
KEY_CMDS = ['create', 'list', 'add', 'add', 'addkey', 'addkey', 'del', 'del',
    'showSymmetricKey', 'setSymmetricKey', 'setSymmetricKey',
    'delSymmetricKey', 'toLegacyIni', 'fromLegacyIni']
FAULTS = [None, None, None, 'kill', 'kill', 'power', 'power', 'ENOSPC', 'EIO',
    'EACCES', 'short', 'fsyncfail', 'full']


def gen(rng, tier):
    tool = rng.choice(['state', 'state', 'keys'])
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        steps.append({
            'cmd': rng.choice(STATE_CMDS if tool == 'state' else KEY_CMDS),
            'a': [rng.randrange(1000) for _ in range(4)],
            'fault': rng.choice(FAULTS), 'at': rng.randrange(10**6),
            'disk': [rng.randrange(10**6) for _ in range(6)],
        })
    j = world.gen_journal(rng, rng.choice([2, 4, 8]))
    return {'tool': tool, 'j': j, 'steps': steps,
        'init': rng.choice(['none', 'some', 'some', 'some']),
        'nregs': rng.randrange(0, 4), 'nids': rng.randrange(0, 6),
        'backend': rng.choice(['unique', 'unique', 'unique', 'natural']),
        'chunk': rng.choice([1, 2, 3, 100000]),
        'big': rng.random() < 0.1,
        'fname': rng.choice([0, 0, 0, 1, 2, 3, 4, 5]),
        'names': [rng.randrange(100) for _ in range(rng.randrange(6))],
        'aes': rng.choice([None, 1, 2])}


# ------------------------------------------------------------------- models

def empty_ids(backend):
    t = lib.BACKENDS[backend]
    return {'backendType': t, 'backendData': [] if backend == 'unique' else
        {'minId': None, 'maxId': None}}


def blank():
    return {'startReceiptJWS': None, 'lastReceiptJWS': None,
        'lastTurnoverCounter': 0, 'needRestoreReceipt': False,
        'chainNextTo': None}


def norm(st):
    if st is None:
        return None
    st = json.loads(json.dumps(st))
    u = st.get('usedReceiptIds')
    if isinstance(u, dict) and isinstance(u.get('backendData'), list):
        u['backendData'] = sorted(u['backendData'])
    return st


class Fail(Exception):
    """The command cannot succeed; it must fail and change nothing."""


class StateTool:
    file = 'state.json'
    script = 'verification_state.py'

    def __init__(self, plan, disk):
        self.plan, self.disk = plan, disk
        c = {'j': plan['j'], 'cluster': 0, 'certs': not plan['j']['closed'],
            'keymode': 'right', 'trust': 'leaf'}
        self.case = case.Case(c)
        self.recs = self.case.recs
        self.regs = []
        for i in range(plan['nregs']):
            r = blank()
            k = i % len(self.recs)
            r.update(startReceiptJWS=self.recs[0].jws,
                lastReceiptJWS=self.recs[k].jws,
                lastTurnoverCounter=self.recs[k].counter,
                needRestoreReceipt=i == 1,
                chainNextTo='AAAAAAAAAAA=' if i == 2 else None)
            self.regs.append(r)
        self.init = None
        if plan['init'] == 'some':
            ids = ['id-%d' % i for i in range(plan['nids'])]
            if plan['big']:
                ids += ['%032x' % i for i in range(600)]
            self.init = {'cashRegisters': copy.deepcopy(self.regs),
                'usedReceiptIds': {'backendType':
                    'USED_RECEIPT_IDS_UNIQUE', 'backendData': ids}}
        src = {'cashRegisters': [dict(blank(), startReceiptJWS=
            self.recs[0].jws, lastReceiptJWS=self.recs[-1].jws,
            lastTurnoverCounter=-5, needRestoreReceipt=True)] +
            copy.deepcopy(self.regs), 'usedReceiptIds': empty_ids('unique')}
        self.src = src
        disk.put('src.json', json.dumps(src))
        disk.put('key.txt', base64.b64encode(self.case.key).decode() + '\n')
        disk.put('ids.txt', 'a1\n b2 \n\u00fc3\na1\n')

    def args(self, step, cur):
        """(argv tail, effect(cur) -> new state). effect raises Fail."""
        c, a = step['cmd'], step['a']
        n = len(cur['cashRegisters']) if cur else 0
        idx = a[0] % (n + 1) if n else a[0] % 2
        bad = a[3] % 10 == 0

        def need():
            if cur is None:
                raise Fail('no file')

        def reg(fn, i=None):
            def f():
                need()
                new = copy.deepcopy(cur)
                if (idx if i is None else i) >= n:
                    raise Fail('no such register')
                fn(new['cashRegisters'][idx if i is None else i])
                return new
            return f

        if c == 'create':
            return [c], lambda: {'cashRegisters': [], 'usedReceiptIds':
                empty_ids(self.plan['backend'])}
        if c == 'show':
            return [c], lambda: (need(), cur)[1]
        if c == 'addCashRegister':
            def f():
                need()
                if n and not cur['cashRegisters'][-1]['startReceiptJWS']:
                    raise Fail('previous register unused')
                new = copy.deepcopy(cur)
                new['cashRegisters'].append(blank())
                return new
            return [c], f
        if c == 'resetCashRegister':
            def f():
                need()
                if idx >= n:
                    raise Fail('no such register')
                new = copy.deepcopy(cur)
                new['cashRegisters'][idx] = blank()
                new['usedReceiptIds'] = empty_ids(self.plan['backend'])
                return new
            return [c, str(idx)], f
        if c == 'deleteCashRegister':
            def f():
                need()
                if idx >= n:
                    raise Fail('no such register')
                new = copy.deepcopy(cur)
                del new['cashRegisters'][idx]
                return new
            return [c, str(idx)], f
        if c == 'copyCashRegister':
            si = a[1] % (len(self.src['cashRegisters']) + 1)
            fn = 'nosuch.json' if bad else 'src.json'

            def f():
                need()
                if bad or idx >= n or si >= len(self.src['cashRegisters']):
                    raise Fail('no such register')
                new = copy.deepcopy(cur)
                new['cashRegisters'][idx] = copy.deepcopy(
                    self.src['cashRegisters'][si])
                return new
            return [c, str(idx), fn, str(si)], f
        if c == 'updateCashRegister':
            return self.update(step, cur, idx, n, bad)
        if c in ('setLastReceiptJWS', 'setStartReceiptJWS'):
            v = 'None' if a[1] % 4 == 0 else self.recs[a[1] %
                len(self.recs)].jws
            k = c[3].lower() + c[4:]
            return [c, str(idx), v], reg(lambda r: r.__setitem__(k,
                None if v == 'None' else v))
        if c == 'setLastTurnoverCounter':
            v = ['0', '1', '-1', '123456789012', 'abc', '1.5'][a[1] % 6]

            def s(r):
                try:
                    r['lastTurnoverCounter'] = int(v)
                except ValueError:
                    raise Fail('not a number')
            return [c, str(idx), v], reg(s)
        if c == 'setChainNextTo':
            v = ['None', 'AAAA', 'xyz=', self.recs[0].jws[:12]][a[1] % 4]
            return [c, str(idx), v], reg(lambda r: r.__setitem__('chainNextTo',
                None if v == 'None' else v))
        if c == 'toggleNeedRestoreReceipt':
            return [c, str(idx)], reg(lambda r: r.__setitem__(
                'needRestoreReceipt', not r['needRestoreReceipt']))
        if c == 'readUsedReceiptIds':
            fn = ['ids.txt', 'ids.txt', 'None', 'nosuch'][a[1] % 4]
            ids = ['a1', 'b2', '\u00fc3'] if fn == 'ids.txt' else []

            def f():
                need()
                if fn == 'nosuch':
                    raise Fail('no id file')
                new = copy.deepcopy(cur)
                u = new['usedReceiptIds'] = empty_ids(self.plan['backend'])
                if self.plan['backend'] == 'unique':
                    u['backendData'] = ids
                elif ids:
                    u['backendData'] = {'minId': 'a1', 'maxId': 'a1'}
                return new
            return [c, fn], f
        rec = self.recs[a[1] % len(self.recs)]
        key = a[2] % 2

        def f():
            if bad:
                raise Fail('bad receipt')
            m = model.parse(rec.jws)
            r = blank()
            r['chainNextTo'] = m.chain
            if c == 'fromArbitraryReceipt':
                r['lastReceiptJWS'] = '*'
                if key and not m.dummy and not m.rev:
                    r['lastTurnoverCounter'] = rec.counter - m.cents
            return {'cashRegisters': [r], 'usedReceiptIds':
                empty_ids(self.plan['backend'])}
        args = [c, 'jws', rec.jws + ('x.y' if bad else '')]
        if key and c == 'fromArbitraryReceipt':
            args.append('key.txt')
        return args, f

    def update(self, step, cur, idx, n, bad):
        a = step['a']
        lo = a[1] % len(self.recs)
        hi = lo + 1 + a[2] % (len(self.recs) - lo)
        seg = self.recs[lo:hi]
        usekey = (a[1] + a[2]) % 2
        text = deprender.render(self.case.dep(seg), {'order': [a[1] % 6],
            'indent': a[2] % 3})
        if bad:
            text = text[:len(text) * (a[0] % 90 + 5) // 100]
        self.disk.put('dep.json', text)

        def f():
            if cur is None or bad or idx >= n:
                raise Fail('bad input')
            new = copy.deepcopy(cur)
            r = new['cashRegisters'][idx]
            # the receipts' own outage marks decide
            prev = model.parse(r['lastReceiptJWS']) if r['lastReceiptJWS'] \
                else None
            if len(seg) > 1:
                prev = model.parse(seg[-2].jws)
            last = model.parse(seg[-1].jws)
            null = last.null and not last.dummy and not last.rev
            r['needRestoreReceipt'] = bool(prev and prev.broken and
                not last.broken and not null)
            if not r['lastReceiptJWS']:
                r['startReceiptJWS'] = seg[0].jws
            r['lastReceiptJWS'] = seg[-1].jws
            r['chainNextTo'] = None
            if usekey:
                plain = [i for i, x in enumerate(seg) if x.kind == 'std']
                if plain:
                    r['lastTurnoverCounter'] = seg[-1].counter
                else:
                    r['lastTurnoverCounter'] += sum(sum(x.cents) for x in seg
                        if x.kind == 'rev')
            return new
        return ['updateCashRegister', str(idx), 'dep.json'] + (['key.txt']
            if usekey else []), f

    def parse(self, data):
        st = json.loads(data.decode('utf-8'))
        lib.state_from(st)
        return norm(st)

    def same(self, got, want):
        got, want = norm(got), norm(want)
        if want is None or got is None:
            return got == want
        for g, w in zip(got['cashRegisters'], want['cashRegisters']):
            if w['lastReceiptJWS'] == '*':
                if not g['lastReceiptJWS'] or got is want:
                    return False
                g['lastReceiptJWS'] = '*'
        return got == want

    def settle(self, got, want):
        return got

    stdin = b''

    def check_out(self, step, res, cur, ctx):
        if step['cmd'] == 'show':
            t = res.text()
            for r in cur['cashRegisters']:
                for k in ('startReceiptJWS', 'lastReceiptJWS',
                        'lastTurnoverCounter', 'needRestoreReceipt'):
                    if str(r[k]) not in t:
                        raise Violation('show', '%s = %r is not shown:\n%s' % (
                            k, r[k], t))


OTHERS = ('src.json', 'key.txt', 'ids.txt', 'dep.json', 'new.pem')
# names a file may have, and other people's files that lie beside it
NAMES = [None, 'state', 'store.v2.json', '.keys', '-', 'my store \u00fc.json']
BESIDE = ('state', 'store', 'store.v2', 'state.bak', 'state.json.bak',
    'store.json~', '.state.json', 'tmp', 'temp.json', 'state.json.1',
    '.store.json.swp')
KIDS = ['U:X-%d', 'U:X-%d', ' U:X-%d', 'u:x-%d ', '%dABCDEFabcdef', '0%d',
    'ATU1234567%d 1', '-%d', '\u00fc%d', 'nosuch%d', '%d/a_b=c', '%08d']
POOL = ['L0', 'L1', 'L2', 'L3', 'L4', 'K0', 'K1', 'K2', 'rootA', 'rootR']


class KeyTool:
    file = 'store.json'
    script = 'key_store.py'

    def __init__(self, plan, disk):
        self.plan, self.disk = plan, disk
        self.init = None
        if plan['init'] == 'some':
            self.init = world.store_json(list(dict.fromkeys(POOL[i % len(POOL)]
                for i in plan['names'])), plan['aes'])
        self.stdin = b''

    @staticmethod
    def entry(name):
        return list(world.store_json([name])
            ['certificateOrPublicKeyMap'].items())[0]

    def args(self, step, cur):
        c, a = step['cmd'], step['a']
        name = POOL[a[0] % len(POOL)]
        bad = a[3] % 8 == 0
        self.stdin = b''

        def need():
            if cur is None:
                raise Fail('no file')

        def edit(fn):
            def f():
                need()
                new = copy.deepcopy(cur)
                fn(new)
                return new
            return f
        if c == 'create':
            return [c], lambda: {'certificateOrPublicKeyMap': {}}
        if c in ('list', 'showSymmetricKey', 'toLegacyIni'):
            return [c], lambda: (need(), cur)[1]
        if c == 'add':
            name = [p for p in POOL if p[0] != 'K'][a[0] % 7]
            kid, e = self.entry(name)
            self.disk.put('new.pem', 'garbage' if bad else
                world.pem(world.cert_of(name)))

            def add(new):
                if bad:
                    raise Fail('no certificate')
                new['certificateOrPublicKeyMap'][kid] = e
            return [c, 'new.pem'], edit(add)
        if c == 'addkey':
            name = 'K%d' % (a[0] % 3)
            kid, e = self.entry(name)
            if a[1] % 2 == 0:
                kid = KIDS[a[1] // 2 % len(KIDS)] % (a[2] % 3)
                e = dict(e, id=kid)
            self.disk.put('new.pem', 'garbage' if bad else world.pubpem(
                world.FX['closed'][name]['pub']))

            def add(new):
                if bad:
                    raise Fail('no key')
                new['certificateOrPublicKeyMap'][kid] = e
            return ['add', 'new.pem', kid], edit(add)
        if c == 'del':
            kids = sorted((cur or {}).get('certificateOrPublicKeyMap', ()))
            kid = kids[a[0] % len(kids)] if kids and a[1] % 4 else 'nosuch'
            return [c, kid], edit(lambda new: new['certificateOrPublicKeyMap']
                .pop(kid, None))
        if c == 'setSymmetricKey':
            k = base64.b64encode(world.aes_key(a[0])).decode()
            m = a[1] % 6
            self.stdin = [k + '\n', k, k + '\n', k + '\r\n', '', '\n'][m] \
                .encode()
            if bad:
                self.stdin = b'!!no base64!!\n'

            def setk(new):
                if bad:
                    raise Fail('not base64')
                if m < 4:
                    new['base64AESKey'] = k
            return [c], edit(setk)
        if c == 'delSymmetricKey':
            return [c], edit(lambda new: new.pop('base64AESKey', None))
        if c == 'fromLegacyIni':
            names = list(dict.fromkeys(POOL[x % len(POOL)] for x in
                a[:a[1] % 4]))
            ini = {'certificates': [], 'public_keys': []}
            m = {}
            for nm in names:
                kid, e = self.entry(nm)
                m[kid] = e
                ini['public_keys' if nm[0] == 'K' else 'certificates'].append(
                    '%s = %s' % (kid.replace('U:', 'u;').replace('S:', 's;')
                        .replace('G:', 'g;'),
                        e['signatureCertificateOrPublicKey']))
            t = '\n'.join('[%s]\n%s\n' % (s, '\n'.join(x))
                for s, x in ini.items())
            if bad:
                t += 'x = garbage\n'
            self.stdin = t.encode()

            def f():
                if bad:
                    raise Fail('bad key')
                return {'certificateOrPublicKeyMap': m}
            return [c], f
        raise InvalidPlan(c)

    def parse(self, data):
        st = json.loads(data.decode('utf-8'))
        lib.key_store.KeyStore.readStoreFromJson(st)
        return st

    def same(self, got, want):
        return got == want

    def check_out(self, step, res, cur, ctx):
        t = res.text()
        if step['cmd'] == 'list':
            if sorted(t.split('\n')[:-1]) != sorted(
                    cur['certificateOrPublicKeyMap']):
                raise Violation('list', 'listed %r' % t)
        elif step['cmd'] == 'showSymmetricKey':
            k = cur.get('base64AESKey')
            if k is not None and t.strip() != k:
                raise Violation('show-key', 'showed %r' % t)
        elif step['cmd'] == 'toLegacyIni':
            for kid, e in cur['certificateOrPublicKeyMap'].items():
                if e['signatureCertificateOrPublicKey'] not in t:
                    raise Violation('to-ini', 'entry %r is missing' % kid)


def run(plan, ctx):
    disk = simfs.Disk()
    tool = (StateTool if plan['tool'] == 'state' else KeyTool)(plan, disk)
    tool.file = NAMES[plan.get('fname', 0)] or tool.file
    for i, f in enumerate(BESIDE):
        if f != tool.file:
            disk.put(f, 'kept %d' % i)
    beside = [f for f in BESIDE if f != tool.file]
    if tool.init is not None:
        disk.put(tool.file, json.dumps(tool.init))
    cur = norm(tool.init)
    effects = faults = 0
    patches = []
    if plan['tool'] == 'state':
        patches = [(lib.verification_state, 'DEFAULT_USED_RECEIPT_IDS_BACKEND',
            lib.backend(plan['backend']))]
    if plan['chunk'] < 1:
        raise InvalidPlan('chunk size')
    environ = {'RKSV_DEP_CHUNKSIZE': str(plan['chunk'])}
    for n, step in enumerate(plan['steps']):
        args, effect = tool.args(step, cur)
        try:
            want, fail = effect(), None
        except Fail as e:
            want, fail = cur, str(e)
        stdin = tool.stdin
        before = disk.files()
        fl, cap = [], None
        if step['fault']:
            # learn how many operations the command has, on a copy
            d2 = copy.deepcopy(disk)
            p2 = simfs.Proc(d2, core.Ctx())
            script.run(tool.script, [tool.file] + args, p2, core.Ctx(),
                stdin, environ=environ, patches=patches)
            if p2.nop:
                if step['fault'] == 'full':
                    size = sum(len(x) for x in d2.files().values())
                    cap = step['at'] % (size // 2 + 200)
                elif step['fault'] in ('kill', 'power', 'EIO', 'EACCES'):
                    fl = [(1 + step['at'] % p2.nop, step['fault'])]
                else:
                    # only writes and syncs can run out of space
                    w = [i + 1 for i, (o, _) in enumerate(p2.trace) if o in
                        ('write', 'fsync', 'open-w', 'rename')]
                    if w:
                        fl = [(w[step['at'] % len(w)], step['fault'])]
        proc = simfs.Proc(disk, ctx, fl, cap)
        res = script.run(tool.script, [tool.file] + args, proc, ctx, stdin,
            environ=environ, patches=patches)
        ctx.log(n, step['cmd'], args[1:2], res.rc, res.crash)
        if proc.injected or cap is not None:
            faults += 1
        if res.crash == 'power':
            dec = Decider(step['disk'], ctx, 'disk')
            disk.power_loss(dec.pick)
        data = disk.get(tool.file)
        try:
            got = None if data is None else tool.parse(data)
        except Exception as e:
            raise Violation('file-destroyed', '%s %s: %r; the file is no '
                'longer readable (%s: %s): %r' % (tool.script, args, res,
                    type(e).__name__, e, data[:200]))
        is_old, is_new = tool.same(got, cur), tool.same(got, want)
        injected = bool(proc.injected)
        what = '%s %s' % (tool.script, ' '.join(args)[:200])
        if res.rc == 0:
            if fail:
                raise Violation('false-success', '%s reports success although '
                    '%s' % (what, fail))
            if not is_new:
                raise Violation('wrong-effect', '%s\nbefore: %s\nexpected: '
                    '%s\nfound: %s' % (what, short(cur), short(want),
                        short(got)))
            if res.exc is None and not injected:
                tool.check_out(step, res, want, ctx)
            ctx.probe('effect' if not injected else 'effect-after-fault')
            effects += 1
        elif not (is_old or is_new):
            raise Violation('partial-effect', '%s: %r\nbefore: %s\nexpected: '
                '%s\nfound: %s' % (what, res, short(cur), short(want),
                    short(got)))
        else:
            if not injected and not fail:
                raise Violation('unexpected-failure', '%s: %r\n%s' % (what,
                    res, res.tb[-800:]))
            if fail and not injected:
                ctx.probe('expected-failure')
            else:
                ctx.probe('no-effect-after-fault' if is_old else
                    'effect-after-fault')
        # nothing else on the disk may be touched
        for p, d in before.items():
            if p.rsplit('/', 1)[1] in OTHERS + tuple(beside) and disk.get(p) != d:
                raise Violation('other-file', '%s changed %s' % (what, p))
        if not is_new or res.rc != 0 and is_old:
            cur = cur
        else:
            cur = got
        if is_new and not is_old:
            cur = norm(got)
        disk.sync_all()
    ctx.nontrivial = faults > 0 or effects > 1


def short(x):
    s = json.dumps(x)
    return s if len(s) < 1500 else s[:1500] + '...'
