"""C13: the graphical tool shows a journal or receipt as valid only if it is,
under every interleaving of user actions, background tasks and callbacks."""
import base64
import io
import json
import os
import sys
import traceback
import types

from .. import case, deprender, env, forms, lib, model, simfs, simkivy, \
    simnet, simpool, world
from ..core import InvalidPlan, Violation
from ..simkivy import UI
from ..world import FX

RUNS = {'quick': 14000, 'thorough': 300000}
FROZEN = ('j',)
RULE = ('A run starts rktool.py with rktool.kv on a simulated screen and lets '
    'a user load journals, keys and key stores (some damaged, on a disk that '
    'may fail), verify, abort, view and decrypt receipts and edit the key '
    'store, while tasks and callbacks of the worker pool happen at seeded '
    'moments and workers may fail. Non-trivial: a verification was running '
    'during another user action.')
REAL = ['rktool.py', 'rktool.kv', 'img_decode.py', 'librksv.verify',
    'librksv.verify_receipt', 'librksv.depparser', 'librksv.key_store',
    'librksv.verification_state', 'librksv.utils',
    'librksv.url_receipt_helpers', 'requests (above the transport)']
STUB = ['kivy (widgets, properties, clock and kv interpreter of the '
    'simulator)', 'PIL and zbar (images carry their QR codes as text)',
    'worker pool (simulated schedule and failures)', 'disk', 'network']
ASSUME = ['desktop platform; the Android code paths are not run',
    'a worker that fails with anything but an error of the library may leave '
    '"Verifying..." until the user aborts']
SEARCH = ('sequences of user actions, moments at which tasks, callbacks and '
    'frames happen, worker failures and disk errors')
ORACLE = 'the reference model applied to what was loaded when verification ' \
    'was started'
NOTE = ('Samples interleavings of up to about 60 user actions; a violation it '
    'reports is real for every toolkit that behaves as kivy documents.')
MUST_HIT = ['valid-dep', 'invalid-dep', 'aborted', 'abort-by-load',
    'restarted', 'stale-callback', 'worker-failure', 'recovered-after-failure',
    'valid-receipt', 'invalid-receipt', 'receipt-of-valid-dep',
    'edited-store-while-verifying', 'edited-key-while-verifying',
    'load-refused', 'display-refused', 'export-ok', 'disk-error',
    'url-receipt', 'qr-image', 'decrypted', 'unsigned-receipt',
    'viewed-receipt', 'decrypted-by-hand', 'no-cert-groups', 'sent-late', 'null-warning']

W = simfs.CWD


# ------------------------------------------------------------------ generation

def gen(rng, tier):
    ncase = rng.choice([1, 1, 2, 3])
    cases = []
    for _ in range(ncase):
        n = rng.choice([1, 2, 3, 4, 6, 8, 12])
        c = case.gen_case(rng, n, faults=rng.choice([0, 0, 0, 1]), cluster=0,
            seg=0)
        c['lay'] = deprender.gen_layout(rng)
        c['dam'] = rng.choice(['none'] * 24 + ['manygroups'] * 2 + ['trunc', 'array', 'string',
            'utf8', 'badrec', 'missing', 'empty', 'badcert', 'manygroups'])
        cases.append(c)
    acts = []

    def noise(p=0.5):
        while rng.random() < p:
            acts.append(rng.choice([['work', rng.randrange(1, 4)], ['tick'],
                ['tick']]))

    def seq(*a):
        for x in a:
            acts.append(list(x))
            noise(0.15)

    def pick(kind, i=None):
        return ['pick', kind, rng.randrange(1000) if i is None else i]

    def loaddep(i=None):
        seq(['b', 'dep', 'Load DEP'], pick('dep', i), ['b', 'top', 'Load'])

    def macro():
        m = rng.randrange(19)
        k = rng.randrange(ncase)
        if m <= 1:
            loaddep(k)
        elif m == 2:
            seq(['b', 'dep', 'Load AES Key'], pick('aes'),
                ['b', 'top', 'Load'])
        elif m == 3:
            seq(['text', 'aes', rng.randrange(12)])
        elif m <= 7:
            seq(['verify'])
        elif m == 8:
            seq(['b', 'ks', 'Import'], pick('ks'), ['b', 'top', 'Load'])
        elif m == 9:
            seq(['b', 'ks', 'Public Keys'], pick('pub'), ['b', 'top', 'Load'],
                ['text', 'id', rng.randrange(40)], ['b', 'top', 'Ok'])
        elif m == 10:
            seq(['b', 'ks', 'Certificates'], pick('cert'),
                ['b', 'top', 'Load'])
        elif m == 11:
            seq(['del', rng.randrange(9)])
        elif m == 12:
            seq(['addcert', rng.randrange(9)])
        elif m == 13:
            seq(['b', 'ks', 'Export'], ['text', 'id', rng.randrange(40)],
                ['b', 'top', 'Save'])
        elif m in (14, 15):
            seq(['view', rng.randrange(12)], ['tick'], ['tick'], ['tick'])
            for _ in range(rng.randrange(3)):
                seq(rng.choice([['verify'], ['verify'], ['decrypt'],
                    ['text', 'vaes', rng.randrange(12)]]))
            if rng.random() < 0.3:
                seq(['text', 'vaes', rng.randrange(12)], ['decrypt'])
            if rng.random() < 0.3:
                seq(['decrypt'], pick('aes'), ['b', 'top', 'Load'])
            noise(0.7)
            seq(['back'])
        elif m == 16:
            t = rng.randrange(4)
            seq(['text', 'rec', [t, rng.randrange(ncase), rng.randrange(12),
                3 if t == 2 and rng.random() < 0.3 else rng.randrange(8)]],
                ['type', t], ['read'], ['tick'])
            for _ in range(rng.randrange(3)):
                seq(rng.choice([['verify'], ['decrypt'],
                    ['text', 'vaes', rng.randrange(12)]]))
            if rng.random() < 0.4:
                seq(['text', 'vaes', rng.randrange(12)], ['decrypt'])
            noise(0.7)
            seq(['back'])
        elif m == 17:
            seq(['b', 'rec', '...'], pick('img'), ['b', 'top', 'Load'],
                ['read'], ['tick'], ['verify'])
            noise(0.7)
            seq(['back'])
        elif m == 18:
            acts.append(rng.choice([['esc'], ['b', 'top', 'Cancel'],
                ['settle'], ['settle'], ['b', 'top', 'Ok']]))

    def stale():
        """A result that is late: the user aborts, changes something and
        starts again before it is delivered."""
        k = rng.randrange(ncase)
        ks = rng.choice([k, k, ncase])
        key = rng.choice([[['text', 'aes', rng.randrange(12)]],
            [['b', 'dep', 'Load AES Key'], pick('aes', k),
                ['b', 'top', 'Load']], []])
        other = rng.randrange(ncase)
        acts.extend([['b', 'ks', 'Import'], pick('ks', ks),
            ['b', 'top', 'Load'], ['b', 'dep', 'Load DEP'],
            pick('dep', other), ['b', 'top', 'Load']] + key)
        for _ in range(rng.choice([1, 1, 2])):
            acts.append(['verify'])
            for _ in range(rng.randrange(7)):
                acts.append(rng.choice([['work', 1], ['work', 1], ['tick']]))
            acts.append(['work', rng.randrange(1, 4)])
            acts.append(['verify'])
            noise(0.3)
            m = rng.randrange(4)
            if m <= 1:
                acts.extend([['b', 'dep', 'Load AES Key'], pick('aes', k),
                    ['b', 'top', 'Load']])
            if m >= 1 and ks != k:
                acts.extend([['b', 'ks', 'Import'], pick('ks', k),
                    ['b', 'top', 'Load']])
            if m == 2 or other != k:
                acts.extend([['b', 'dep', 'Load DEP'], pick('dep', k),
                    ['b', 'top', 'Load']])
        acts.append(['verify'])
        noise()
        if rng.random() < 0.5:
            acts.append(['settle'])

    def last():
        """The last result of a successful verification is late."""
        k = rng.randrange(ncase)
        acts.extend([['b', 'ks', 'Import'], pick('ks', k),
            ['b', 'top', 'Load'], ['b', 'dep', 'Load DEP'],
            pick('dep', k), ['b', 'top', 'Load'],
            ['b', 'dep', 'Load AES Key'], pick('aes', k), ['b', 'top', 'Load'],
            ['verify'], ['work', 4], ['tick'], ['work', 9], ['tick'],
            ['work', 4], ['verify']])
        m = rng.randrange(3)
        if m == 0:
            acts.append(['text', 'aes', rng.randrange(12)])
        elif m == 1:
            acts.extend([['b', 'ks', 'Import'], pick('ks'),
                ['b', 'top', 'Load']])
        else:
            acts.extend([['b', 'dep', 'Load DEP'], pick('dep'),
                ['b', 'top', 'Load']])
        acts.extend([['verify'], ['tick']])
        noise()

    m = rng.random()
    if m > 0.94:
        last()
    elif m > 0.88:
        stale()
    elif m < 0.8:
        k = rng.randrange(ncase)
        seq(['b', 'ks', 'Import'], pick('ks', k), ['b', 'top', 'Load'])
        loaddep(k)
        if rng.random() < 0.7:
            seq(['b', 'dep', 'Load AES Key'], pick('aes', k),
                ['b', 'top', 'Load'])
        acts.append(['verify'])
        if rng.random() < 0.5:
            acts.append(['work', 1])
    for _ in range(rng.choice([0, 2, 4, 8, 12])):
        macro()
        if rng.random() < 0.6:
            noise()
        if rng.random() < 0.3:
            acts.append(['verify'])
        if rng.random() < 0.15:
            seq(['settle'], ['view', rng.randrange(12)], ['tick'], ['tick'],
                ['tick'], ['back'])
    return {
        'cases': cases, 'acts': acts, 'nprocs': rng.choice([1, 2, 3, 4]),
        'sched': [rng.randrange(16) for _ in range(24)],
        'fail': sorted(rng.sample(range(1, 14), rng.choice([0] * 4 + [1, 2]))),
        'disk': [[rng.randrange(1, 60), rng.choice(['EIO', 'EACCES', 'ENOSPC',
            'short'])] for _ in range(rng.choice([0] * 4 + [1, 3]))],
        'net': [rng.choice([None] * 4 + ['refused', 'timeout-before', '500',
            'html', 'empty']) for _ in range(4)],
        'end': rng.random() < 0.85,
    }


# --------------------------------------------------------------- surroundings

# the rows of a shown receipt
ROWS = ['ZDA ID', 'Cash Register ID', 'Receipt ID', 'Timestamp',
    'Sum Tax Normal', 'Sum Tax Reduced 1', 'Sum Tax Reduced 2',
    'Sum Tax Zero', 'Sum Tax Special', 'Turnover Counter',
    'Certificate Serial/Key ID', 'Chaining Value', 'Signature']


class Img:
    def __init__(self, codes):
        self.codes = codes
        self.size = (4, 4)

    def convert(self, mode):
        return self

    def tobytes(self):
        return self.codes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def img_open(f, mode='r'):
    data = f.read() if hasattr(f, 'read') else open(f, 'rb').read()
    if not data.startswith(b'IMG\n'):
        raise OSError('cannot identify image file %r' % getattr(f, 'name', f))
    return Img(data[4:])


class Sym:
    def __init__(self, t, d):
        self.type, self.data = t, d


class ZImage:
    def __init__(self, w, h, fmt, raw):
        self.raw, self.syms = raw, []

    def __iter__(self):
        return iter(self.syms)


class ZScanner:
    def scan(self, img):
        for l in img.raw.decode('utf-8').splitlines():
            t, _, d = l.partition(' ')
            img.syms.append(Sym(t, d))
        return len(img.syms)


_once = []
_code = []


def load(ctx):
    """A fresh rktool module on a fresh screen."""
    if not _once:
        _once.append(1)
        env.setup()
        simkivy.install()
        pil = types.ModuleType('PIL')
        pim = types.ModuleType('PIL.Image')
        pim.open = img_open
        pil.Image = pim
        pil.__path__ = []
        sys.modules['PIL'], sys.modules['PIL.Image'] = pil, pim
        z = types.ModuleType('zbar')
        z.Image, z.ImageScanner = ZImage, ZScanner
        sys.modules['zbar'] = z
        from .. import script
        _code.append(script.code_of('rktool.py'))
    m = types.ModuleType('rktool')
    m.__file__ = os.path.join(env.REPO, 'rktool.py')
    sys.modules['rktool'] = m

    def classes(name):
        c = m.__dict__.get(name)
        if isinstance(c, type) and issubclass(c, simkivy.Widget):
            return c
        return simkivy.BUILTIN.get(name)
    UI.cur = UI('rktool.kv', classes)
    return m


_jc = {}


class Journal:
    """A journal file on the simulated disk."""

    def __init__(self, c):
        self.c = case.Case(c)
        g = self.c.groups(self.c.recs)
        if c['dam'] == 'manygroups':
            g = world.groups_of(self.c.recs)
        dam = c['dam']
        dep = world.dep_dict(g, self.c.certs)
        lay = dict(c['lay'])
        # what the display must show
        self.load = 'ok'
        if dam == 'empty':
            dep = {'Belege-Gruppe': []}
            g = []
            lay = {'order': [0]}
            self.load = 'refused'
        elif dam == 'badrec':
            r = dep['Belege-Gruppe'][-1]['Belege-kompakt']
            r[-1] = r[-1].split('.')[0] + '.' + world.b64u(b'_R1-AT1_x') + '.'\
                + r[-1].split('.')[2]
            self.load = 'display'
        elif dam == 'badcert':
            dep['Belege-Gruppe'][0]['Signaturzertifikat'] = 'QUJD'
            self.load = 'refused'
        elif dam == 'missing':
            dep['Belege-Gruppe'][0].pop('Belege-kompakt')
            lay['empty'] = []
            self.load = 'refused'
        t = deprender.render(dep, lay)
        if dam == 'empty':
            t = '{"Belege-Gruppe": []}'
        elif dam == 'trunc':
            t, self.load = t[:len(t) // 2], 'refused'
        elif dam == 'array':
            t, self.load = '[' + t.lstrip('\ufeff') + ']', 'refused'
        elif dam == 'string':
            t, self.load = '"Belege-Gruppe"', 'refused'
        self.data = t.encode('utf-8')
        if dam == 'utf8':
            self.data = self.data.replace(b'"', b'"\xff', 1)
            self.load = 'refused'
        self.groups = []
        self.display = []
        if self.load == 'ok' or self.load == 'display':
            src = json.loads(t.lstrip('\ufeff'))['Belege-Gruppe']
            names = {world.cert_of(n): n for n in world.OPEN_LEAVES}
            cas = {FX['cas'][n]['cert']: n for n in FX['cas']}
            for x in src:
                if not x['Belege-kompakt']:
                    continue            # carries no receipts
                leaf = names.get(x['Signaturzertifikat'])
                self.groups.append((leaf, list(x['Belege-kompakt'])))
                self.display.append((leaf, [cas[y] for y in
                    x['Zertifizierungsstellen']]))
        if self.load == 'ok':
            for c, recs in self.groups:
                for r in recs:
                    try:
                        model.parse(r)
                    except model.Bad:
                        # may be found when displaying or when verifying
                        self.load = 'either'
        self._v = {}

    def verdict(self, store, key):
        """None (accepted) or a description of why not."""
        k = (json.dumps(store, sort_keys=True), key)
        if k not in self._v:
            self._v[k] = self._verdict(store, key)
        return self._v[k]

    def _verdict(self, store, key):
        if len(self.groups) > 1 and any(not c for c, r in self.groups):
            return 'groups without certificates'
        for (leaf, recs), (_, chain) in zip(self.groups, self.display):
            if leaf:
                for n in [leaf] + chain:
                    e = store.get('%x' % (FX['leaves'].get(n) or
                        FX['cas'][n])['serial'])
                    if e and e[1] and e[0] == n:
                        break
                else:
                    return 'untrusted certificate'
        try:
            hits, st, used = model.verify(self.groups, {k: v[0] for k, v in
                store.items()}, key, model.RegState(), set())
        except KeyError as e:
            raise InvalidPlan(str(e))
        return repr(hits[0]) if hits else None


def jws_ok(jws, store):
    """None if the single receipt's signature is valid, else a reason."""
    try:
        r = model.parse(jws)
    except model.Bad as e:
        return str(sorted(e.names))
    if r.broken:
        return 'broken'
    kids = {k: v[0] for k, v in store.items()}
    name = None
    if r.zda == 'AT0':
        name = kids.get(r.serial)
    else:
        for k in model.key_ids(r.serial):
            if k in kids:
                name = kids[k]
                break
    if name is None:
        return 'no key'
    if name in FX['cas']:
        return 'wrong key'
    return None if model.sig_ok(r, model.pub_of(name)) else 'wrong signature'


AES_BAD = ['', 'x', 'AAAA', '====', 'AA=A', base64.b64encode(b'k' * 31
    ).decode(), base64.b64encode(b'k' * 16).decode(), '\u00e4' * 8]


def strict_key(text):
    """The AES-256 key a text stands for, or None."""
    try:
        k = base64.b64decode(text.encode('ascii'), validate=True)
    except ValueError:
        return None
    return k if len(k) == 32 else None


class Fails:
    """Which tasks, counted over all pools, meet a failing worker."""

    def __init__(self, run):
        self.run = run

    def __contains__(self, n):
        self.run.ntask += 1
        return self.run.ntask in self.run.plan['fail']


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        if not plan['cases']:
            raise InvalidPlan('no journal')
        self.js = [Journal(c) for c in plan['cases']]
        self.disk = simfs.Disk()
        self.store = {}              # key id -> [name, is certificate]
        self.cur = None              # loaded journal
        self.snap = None             # running verification
        self.valid = None            # snapshot of the last successful one
        self.failed_at = None
        self.errors = []
        self.inj = False
        self.files()
        self.boxes = {}
        self.trail = []

    # ---- files the user can choose
    def files(self):
        d = self.disk
        self.f = {'dep': [], 'aes': [], 'ks': [], 'cert': [], 'pub': [],
            'img': []}

        def put(kind, name, data, meta):
            p = W + '/' + name
            if data is not None:
                d.put(p, data)
            self.f[kind].append((p, meta))
        for i, j in enumerate(self.js):
            put('dep', 'dep%d.json' % i, j.data, i)
            k = base64.b64encode(j.c.key or world.aes_key(5)).decode()
            if i % 2:
                put('aes', 'key%d.txt' % i, k, k)
            else:
                put('aes', 'crypto%d.json' % i, json.dumps(dict(
                    world.store_json([]), base64AESKey=k)), k)
            names = j.c.store
            put('ks', 'store%d.json' % i, json.dumps(world.store_json(names,
                3)), self.entries(names))
        put('ks', 'none.json', json.dumps(world.store_json([])), {})
        put('dep', 'nosuch.json', None, None)
        put('dep', 'other.json', '{"a": []}', None)
        for n, t in (('b0.json', '{}'), ('b1.json', '[1]'), ('b2.json', '"x'),
                ('b3.json', '{"base64AESKey": 5}'),
                ('b4.txt', b'\xff\xfe\xfa'), ('b5.txt', 'k.k.k'),
                ('b6.json', '{"base64AESKey": "QUJD"}'), ('b7.json', '"s"'),
                ('b8.json', 'null')):
            put('aes', n, t, ('k.k.k' if n == 'b5.txt' else 'QUJD'
                if n == 'b6.json' else None))
        put('aes', 'gone.json', None, None)
        for n, t in (('s0.json', '{}'), ('s1.json', '[1]'),
                ('s2.json', '{"certificateOrPublicKeyMap": []}'),
                ('s3.json', '{"certificateOrPublicKeyMap": {"1": {"id": "1",'
                    '"signatureDeviceType": "CERTIFICATE",'
                    '"signatureCertificateOrPublicKey": "QUJD"}}}'),
                ('s4.json', '{"certificateOrPublicKeyMap": {"1": 5}}'),
                ('s5.json', 'x'), ('s6.json', b'"\xff"'),
                ('s7.json', '{"certificateOrPublicKeyMap": {"1": {"id": "2",'
                    '"signatureDeviceType": "PUBLIC_KEY",'
                    '"signatureCertificateOrPublicKey": "QUJD"}}}')):
            put('ks', n, t, None)
        put('ks', 'gone2.json', None, None)
        devs = sorted(set(x for j in self.js for x in j.c.devs))
        for n in devs:
            if n in FX['leaves']:
                put('cert', n + '.crt', world.pem(world.cert_of(n)), n)
                for c in world.issuer_chain(n):
                    put('cert', c + '.crt', world.pem(world.cert_of(c)), c)
            else:
                put('pub', n + '.pem', world.pubpem(FX['closed'][n]['pub']), n)
        put('cert', 'bad.crt', 'hello', None)
        put('cert', 'bad2.crt', b'\xff\xff', None)
        put('pub', 'bad.pem', 'hello', 0)
        put('pub', 'bad2.pem', b'\xff\xff', None)
        n = 0
        for j in self.js:
            for r in j.c.recs[:4]:
                if len(forms.qr(r.jws).splitlines()) != 1:
                    continue            # the stand-in images have lines
                c = b'IMG\nEAN 123\nQRCODE ' + forms.qr(r.jws).encode() + b'\n'
                put('img', 'img%d.png' % n, c, r.jws)
                n += 1
                put('img', 'rec%d.txt' % n, forms.qr(r.jws) + '\n', r.jws)
        put('img', 'noqr.png', b'IMG\nEAN 123\n', None)
        put('img', 'junk.bin', b'\xff\x00\xfe', None)
        put('img', 'gone.png', None, None)
        self.ids = [FX['closed'][n]['kid'] for n in devs if n in FX['closed']]\
            + ['%x' % FX['leaves'][n]['serial'] for n in devs if n in
            FX['leaves']] + ['', 'x y', 'new.json', 'U:OTHER', 'sub/out.json',
            'store0.json', ' U:X 7 ', 'u:Klein']

    @staticmethod
    def entries(names):
        out = {}
        for n in names:
            if n in FX['closed']:
                out[FX['closed'][n]['kid']] = [n, False]
            else:
                c = FX['leaves'].get(n) or FX['cas'][n]
                out['%x' % c['serial']] = [n, True]
        return out

    # ---- the application
    def start(self):
        ctx, plan = self.ctx, self.plan
        self.dec = simpool.Decider(plan['sched'], ctx)
        self.pools = []
        self.ntask = 0

        def pool(processes=None, initializer=None, initargs=(), *a):
            p = simpool.SimPool(min(4, processes or 4), ctx=ctx, dec=self.dec)
            p.fail_at = Fails(self)
            # tasks only run when the scenario lets them
            p.maybe_run = lambda: None
            self.pools.append(p)
            return p
        import multiprocessing
        import builtins
        old = multiprocessing.Pool, multiprocessing.cpu_count
        multiprocessing.Pool = pool
        multiprocessing.cpu_count = lambda: plan['nprocs']
        try:
            self.m = load(ctx)
            exec(_code[0], self.m.__dict__)
        finally:
            multiprocessing.Pool, multiprocessing.cpu_count = old
        self.ui = UI.cur
        self.m.PoolClass = pool
        self.app = self.m.RKToolApp(plan['nprocs'])
        self.ui.root = self.app.build()
        self.app.on_start()
        w = list(self.ui.root.walk())

        def one(cls):
            l = [x for x in w if type(x).__name__ == cls]
            if len(l) != 1:
                raise Violation('window-incomplete', 'the window has %d %s'
                    % (len(l), cls))
            return l[0]
        self.tab = {'dep': one('VerifyDEPWidget'), 'ks': one('KeyStoreWidget'),
            'rec': one('VerifyReceiptWidget')}
        self.vb = self.tab['dep'].verify_button
        if not self.vb.disabled:
            raise Violation('verify-without-journal', 'the Verify button is '
                'enabled before a journal is loaded')

    def safe(self, what, f, *a):
        """Run an event handler; nothing may escape it."""
        n = len(self.proc.injected)
        try:
            return f(*a)
        except Exception as e:
            raise Violation('unhandled-exception', '%s: %s: %s\n%s\nactions: '
                '%s' % (what, type(e).__name__, str(e)[:200],
                traceback.format_exc()[-900:], self.trail[-12:]))
        finally:
            self.inj = len(self.proc.injected) > n
            if self.inj:
                self.ctx.probe('disk-error')

    def pool_step(self):
        p = self.app.pool
        if p is None or not p.busy():
            return False
        old = self.ctx.faults.get('worker-failure', 0)
        busy = self.snap is not None and self.snap['job'] is p
        self.ui.off_main = True
        try:
            self.safe('a callback of the worker pool', p.step)
        finally:
            self.ui.off_main = False
        if self.ctx.faults.get('worker-failure', 0) > old:
            self.failed_at = p
        self.ctx.steps += 1
        return True

    nullwarn = None

    def frame(self):
        self.safe('a callback of the clock', self.ui.clock.frame)
        self.ctx.time(0.05)
        if self.nullwarn:
            # a zero receipt without signature is pointed out when opened
            r, ne = self.nullwarn
            self.nullwarn = None
            want = r.broken and r.null and not r.dummy and not r.rev
            got = [e for e in self.err_since(ne) if type(e).__name__ ==
                'UnsignedNullReceiptException' and r.id in str(e)]
            if want:
                self.ctx.probe('null-warning')
                if not got:
                    raise Violation('no-warning', 'a zero receipt without '
                        'signature is shown without the warning: %s' % r.id)
            elif got and self.snap is None:
                raise Violation('wrong-warning', '%s: %r' % (r.id, got))
        self.look()

    def settle(self):
        for i in range(300):
            a = self.pool_step()
            self.look()
            b = self.ui.clock.events
            if b:
                self.frame()
            if not a and not b:
                return
        raise Violation('no-progress', 'background work never ends')

    # ---- what the user sees
    def new_errors(self):
        out = []
        for m in self.ui.modals:
            if isinstance(m, simkivy.Popup) and m not in self.boxes.values():
                c = m.content
                if type(c).__name__ == 'ErrorDialog':
                    self.boxes[len(self.boxes)] = m
                    out.append(c.exception)
                    self.ui.label(c)if False else None
        self.errors += out
        return out

    def err_since(self, n):
        self.new_errors()
        return self.errors[n:]

    def look(self):
        """Invariants of the display."""
        self.new_errors()
        t, dis = self.vb.text, self.vb.disabled
        if t == 'Valid DEP':
            s = self.valid
            if s is None and self.snap is not None:
                # the running verification has just succeeded
                s = self.snap
                why = s['why']
                if why:
                    raise Violation('invalid-shown-as-valid', 'the journal '
                        'loaded is shown as valid although: %s\nactions: %s' %
                        (why, self.trail[-30:]))
                self.valid, self.snap = s, None
                self.ctx.probe('valid-dep')
            elif s is None:
                raise Violation('invalid-shown-as-valid', 'shown as valid '
                    'although no verification of this journal was running'
                    '\nactions: %s' % self.trail[-30:])
            if s['j'] is not self.cur:
                raise Violation('invalid-shown-as-valid', 'another journal '
                    'was verified\nactions: %s' % self.trail[-30:])
        elif self.valid is not None:
            raise Violation('valid-forgotten', 'a journal shown as valid is '
                'not any more (%r)\nactions: %s' % (t, self.trail[-30:]))
        elif t == 'Verify' and self.snap is not None and self.errors[
                self.snap['nerr']:]:
            s, self.snap = self.snap, None
            self.ctx.probe('invalid-dep')
            if s['why'] is None and s['job'] is not self.failed_at:
                raise Violation('valid-journal-refused', 'verification of a '
                    'correct journal ended with %r\nactions: %s' % (
                    self.errors[s['nerr']:], self.trail[-30:]))
        elif t == 'Verifying...' and self.snap is None:
            raise Violation('stuck-display', '"Verifying..." is shown but no '
                'verification is running\nactions: %s' % self.trail[-30:])
        for m in self.ui.modals:
            for v in m.walk():
                if type(v).__name__ == 'ViewReceiptWidget':
                    self.look_receipt(v)

    def look_receipt(self, v):
        s = v.__dict__.setdefault('_sim', None)
        if s is None:
            return
        b = v.verify_button
        if b.text == 'Valid Signature':
            if s['why'] == 'broken':
                raise Violation('unsigned-shown-as-valid', s['jws'])
            ok = s['fromvalid'] or any(w is None for w in s['runs'])
            if not ok:
                raise Violation('invalid-receipt-shown-as-valid', 'receipt %s '
                    'is shown as valid: %s\nactions: %s' % (s['jws'],
                    s['runs'], self.trail[-30:]))
            if s['runs']:
                self.ctx.probe('valid-receipt')

    # ---- user actions
    def top_button(self, where, label):
        if where == 'top':
            if not self.ui.modals:
                return None
            w = self.ui.modals[-1]
        else:
            if self.ui.modals:
                return None
            w = self.tab[where]
        for b in w.walk():
            if isinstance(b, simkivy.Button) and self.ui.label(b) == label:
                return b
        return None

    def dialog(self):
        if self.ui.modals and isinstance(self.ui.modals[-1], simkivy.Popup):
            return self.ui.modals[-1].content
        return None

    def view_widget(self):
        if not self.ui.modals:
            return None
        for w in self.ui.modals[-1].walk():
            if type(w).__name__ == 'ViewReceiptWidget':
                return w
        return None

    def press(self, what, b):
        r = self.safe(what, self.ui.press, b)
        self.look()
        return r

    def act(self, a):
        k = a[0]
        ctx, dep = self.ctx, self.tab['dep']
        ctx.choice(*a)
        if k == 'work':
            for _ in range(a[1]):
                self.pool_step()
                self.look()
            return
        if k == 'tick':
            self.frame()
            return
        if k == 'settle':
            self.settle()
            return
        if self.snap is not None:
            ctx.nontrivial = True
        self.trail.append(a)
        if k == 'b':
            b = self.top_button(a[1], a[2])
            if b is None:
                return
            d = self.dialog()
            name = type(d).__name__
            if a[2] in ('Load', 'Ok', 'Save') and name in ('LoadDialog',
                    'SingleValueDialog', 'SaveDialog'):
                self.confirm(b, d, name)
            else:
                if a[1] != 'top':
                    self.opener = a[2]
                self.press(a[2], b)
        elif k == 'pick':
            d = self.dialog()
            if d is None:
                return
            for w in d.walk():
                if isinstance(w, simkivy.FileChooser):
                    f = self.f[a[1]]
                    w.path = W
                    w.selection = [f[a[2] % len(f)][0]]
        elif k == 'text':
            self.type_text(a[1], a[2])
        elif k == 'verify':
            v = self.view_widget()
            if v is not None:
                self.verify_receipt(v)
            elif not self.ui.modals:
                self.verify_dep()
        elif k == 'decrypt':
            v = self.view_widget()
            if v is not None:
                self.opener = 'vaes'
                self.viewed = v
                self.decrypt(v)
        elif k == 'view':
            self.view(a[1])
        elif k == 'back':
            v = self.view_widget()
            if v is not None:
                self.safe('close the receipt', v.cancel)
        elif k == 'esc':
            if self.ui.modals and self.ui.modals[-1].auto_dismiss:
                self.safe('dismiss', self.ui.modals[-1].dismiss)
        elif k == 'type':
            if not self.ui.modals:
                w = list(self.tab['rec'].buttons.values())[a[1] % 4]
                for c in w.walk():
                    if isinstance(c, simkivy.CheckBox):
                        self.press('choose the form', c)
                self.rtype = list(self.tab['rec'].buttons)[a[1] % 4]
        elif k == 'read':
            self.read_receipt()
        elif k == 'del':
            if not self.ui.modals:
                self.del_key(a[1])
        elif k == 'addcert':
            if not self.ui.modals:
                self.add_cert(a[1])
        else:
            raise InvalidPlan(k)
        self.look()

    opener = None
    rtype = 'JWS'
    viewed = None

    def aes_text(self, n):
        ks = [base64.b64encode(j.c.key or world.aes_key(5)).decode()
            for j in self.js]
        l = ks + AES_BAD
        return l[n % len(l)]

    def type_text(self, role, n):
        top = self.ui.modals
        if role == 'aes' and not top:
            self.tab['dep'].aesInput.text = self.aes_text(n)
            if self.snap is not None:
                self.ctx.probe('edited-key-while-verifying')
        elif role == 'vaes':
            v = self.view_widget()
            if v is not None:
                v.aes_input.text = self.aes_text(n)
        elif role == 'id' and top:
            d = self.dialog()
            if d is not None and hasattr(d, 'text_input'):
                d.text_input.text = self.ids[n % len(self.ids)]
        elif role == 'rec' and not top:
            t, c, i, bad = n
            r = self.js[c % len(self.js)].c.recs
            jws = r[i % len(r)].jws
            if bad == 3:
                h, p, g = jws.split('.')
                jws = '.'.join([h, world.b64u(forms.payload(jws).replace(
                    '_R1-', '_R2-', 1).encode()), g])
            kind = ('jws', 'qr', 'ocr', 'url')[t % 4]
            try:
                s = 'https://rk.example/' + forms.url_hash(jws) if kind == \
                    'url' else forms.FORMS[kind](jws)
            except ValueError:
                return                  # has no such form
            self.rectext = (kind, jws, s)
            if bad == 1:
                s = s[:-3]
                self.rectext = None
            elif bad == 2 and kind == 'url':
                s = 'https://rk.example/AAAAAAAAAAA'
                self.rectext = ('url', None, s)
            self.urljws = jws
            self.tab['rec'].receiptInput.text = s

    rectext = None
    urljws = None

    # -- the journal
    def verify_dep(self):
        dep, b = self.tab['dep'], self.vb
        was, dis = b.text, b.disabled
        if dis:
            return
        if self.cur is None:
            raise Violation('verify-without-journal', 'the Verify button is '
                'enabled although no journal is loaded')
        n = len(self.errors)
        if was == 'Verifying...':
            self.snap = None
            self.ctx.probe('aborted')
            if self.app.pool is self.failed_at:
                self.ctx.probe('recovered-after-failure')
            had = bool(self.ui.clock.events)
            self.press('abort', b)
            if b.text != 'Verify' or b.disabled:
                raise Violation('abort-failed', '%r disabled=%s' % (b.text,
                    b.disabled))
            if had:
                self.ctx.probe('stale-callback')
            return
        text = dep.aesInput.text
        key, bad = None, False
        if text:
            try:
                if not text.isascii():
                    raise ValueError
                key = base64.b64decode(text, validate=True)
                import re
                if not re.match(r'[A-Za-z0-9+/]*={0,2}\Z', text):
                    raise ValueError
            except ValueError:
                bad = True
        self.valid = None
        if not bad:
            self.snap = {'j': self.cur, 'nerr': n, 'job': self.app.pool,
                'why': self.cur.verdict(self.store, key)}
            if key == b'':
                self.snap['why'] = self.snap['why'] or 'empty key'
            self.nver = getattr(self, 'nver', 0) + 1
            if self.nver > 1:
                self.ctx.probe('restarted')
            if self.snap['why'] == 'groups without certificates':
                self.ctx.probe('no-cert-groups')
        self.safe('verify', self.ui.press, b)
        e = self.err_since(n)
        if bad:
            if not e or b.text != 'Verify' or b.disabled:
                raise Violation('bad-key-accepted', 'key text %r: %r, errors '
                    '%r' % (text, b.text, e))
        self.look()

    def tree(self):
        """(group count, receipt buttons, key buttons) of the journal tree."""
        tv = self.tab['dep'].treeView
        rec, key = [], []
        for w in tv.walk():
            if type(w).__name__ == 'TreeViewReceiptButton':
                rec.append(w)
            elif type(w).__name__ == 'TreeViewKeyButton':
                key.append(w)
        return len(tv.root.nodes), rec, key

    def check_tree(self):
        n, rec, key = self.tree()
        j = self.cur
        if j is None:
            if n:
                raise Violation('wrong-display', 'receipts are shown although '
                    'no journal is loaded')
            return
        want = [r.rid for g in j.groups for r in [] ]
        ids = []
        for c, recs in j.groups:
            for w in recs:
                p = forms.payload(w).split('_')
                ids.append(p[3])
        certs = []
        for leaf, chain in j.display:
            certs += ([leaf] if leaf else []) + chain
        if n != len(j.groups) or [b.text for b in rec] != ids or \
                len(key) != len(certs):
            raise Violation('wrong-display', 'the journal is displayed with %d '
                'groups, receipts %s, %d certificates; it has %d, %s, %d' % (n,
                [b.text for b in rec], len(key), len(j.groups), ids,
                len(certs)))

    def confirm(self, b, d, name):
        """The user presses Load, Ok or Save in a dialog."""
        ctx = self.ctx
        n = len(self.errors)
        op = self.opener
        sel = meta = None
        for w in d.walk():
            if isinstance(w, simkivy.FileChooser) and w.selection:
                sel = w.selection[0]
        kind = {'Load DEP': 'dep', 'Load AES Key': 'aes', 'Import': 'ks',
            'Public Keys': 'pub', 'Certificates': 'cert', '...': 'img',
            'vaes': 'aes'}.get(op)
        for p, m in self.f.get(kind, ()):
            if p == sel:
                meta = m
                break
        else:
            if kind != 'dep' and sel:
                # a file of another kind: must not crash
                meta = '?'
            elif sel:
                meta = None
        if name == 'LoadDialog' and sel is None:
            self.press('Load', b)
            return
        if op == 'Load DEP' and name == 'LoadDialog':
            running = self.snap
            old = self.vb.text, self.vb.disabled
            self.safe('Load DEP', self.ui.press, b)
            e = self.err_since(n)
            j = self.js[meta] if isinstance(meta, int) else None
            cnt, rec, key = self.tree()
            expect = j.load if j else 'refused'
            if expect == 'either':
                expect = 'display' if e else 'ok'
            if self.inj and e:
                expect = 'refused'
            if expect == 'ok':
                if e:
                    raise Violation('load-failed', 'a readable journal: %r\n'
                        'actions %s' % (e, self.trail[-20:]))
                if self.snap is not None:
                    ctx.probe('abort-by-load')
                self.cur, self.snap, self.valid = j, None, None
                if self.vb.text != 'Verify' or self.vb.disabled:
                    raise Violation('stuck-display', 'after loading a journal '
                        'the button says %r (disabled: %s)' % (self.vb.text,
                        self.vb.disabled))
            elif not e:
                raise Violation('load-failure-hidden', 'the file %s cannot be '
                    'a journal, but no error is shown' % sel)
            elif expect == 'display':
                ctx.probe('display-refused')
                self.cur, self.snap, self.valid = None, None, None
                if not self.vb.disabled:
                    raise Violation('verify-without-journal', 'the Verify '
                        'button is enabled after %r' % e)
            else:
                ctx.probe('load-refused')
                if (self.vb.text, self.vb.disabled) != old:
                    raise Violation('stuck-display', 'the button changed from '
                        '%r to %r because a file could not be loaded' % (old,
                        (self.vb.text, self.vb.disabled)))
            self.check_tree()
            self.look()
            return
        if op in ('Load AES Key', 'vaes') and name == 'LoadDialog':
            box = self.tab['dep'].aesInput if op == 'Load AES Key' else \
                self.viewed.aes_input
            old = box.text
            self.safe(op, self.ui.press, b)
            e = self.err_since(n)
            if self.inj and e or meta == '?':
                pass
            elif meta is None:
                if not e:
                    raise Violation('load-failure-hidden', 'no error for key '
                        'file %s' % sel)
                if op == 'Load AES Key' and box.text != old:
                    raise Violation('wrong-key', '%r' % box.text)
            elif op == 'Load AES Key':
                if box.text != meta or e:
                    raise Violation('wrong-key', '%r loaded from %s, should '
                        'be %r; errors %r' % (box.text, sel, meta, e))
                if self.snap is not None:
                    ctx.probe('edited-key-while-verifying')
            if op == 'vaes':
                self.check_rows(self.viewed)
            self.look()
            return
        if op == 'Import' and name == 'LoadDialog':
            self.safe(op, self.ui.press, b)
            e = self.err_since(n)
            if self.inj and e:
                pass
            elif isinstance(meta, dict):
                if e:
                    raise Violation('load-failed', 'key store: %r' % e)
                self.edited()
                self.store = {k: list(v) for k, v in meta.items()}
            elif meta is None and not e:
                raise Violation('load-failure-hidden', 'no error for key '
                    'store %s' % sel)
            elif meta == '?' and not e:
                self.read_store()
            self.check_store()
            return
        if op == 'Certificates':
            self.safe(op, self.ui.press, b)
            e = self.err_since(n)
            if not e:
                if meta is None:
                    raise Violation('load-failure-hidden', 'no error for '
                        'certificate %s' % sel)
                if meta != '?':
                    self.edited()
                    self.store.update(self.entries([meta]))
                else:
                    self.read_store()
            elif not self.inj and meta is not None and meta != '?':
                raise Violation('load-failed', '%s: %r' % (sel, e))
            self.check_store()
            return
        if op == 'Public Keys' and name == 'LoadDialog':
            self.safe(op, self.ui.press, b)
            e = self.err_since(n)
            self.pubname = None if e else meta
            if meta is None and not e:
                raise Violation('load-failure-hidden', sel)
            return
        if name == 'SingleValueDialog':
            kid = d.text_input.text
            self.safe('Ok', self.ui.press, b)
            e = self.err_since(n)
            m = getattr(self, 'pubname', None)
            if m == '?':
                if not e:
                    self.read_store()
            elif m in (None, 0):
                if not e:
                    raise Violation('load-failure-hidden', 'no error for a '
                        'bad public key')
            elif e:
                raise Violation('load-failed', 'public key: %r' % e)
            else:
                self.edited()
                self.store[kid] = [m, False]
            self.check_store()
            return
        if name == 'SaveDialog':
            fn = d.text_input.text
            path = W + '/' + fn
            before = self.disk.get(path)
            self.safe('Save', self.ui.press, b)
            e = self.err_since(n)
            if not fn:
                return
            got = self.disk.get(path)
            if e:
                if got != before:
                    raise Violation('export-damaged', '%s after %r' % (fn, e))
                if not self.inj and not fn.startswith('sub/'):
                    raise Violation('export-failed', '%r' % e)
                return
            ent = self.parse_store(got)
            if ent != self.store:
                raise Violation('wrong-export', '%s, should be %s' % (ent,
                    self.store))
            ctx.probe('export-ok')
            # a later import of this file
            for i, (p, m) in enumerate(self.f['ks']):
                if p == path:
                    self.f['ks'][i] = (p, {k: list(v) for k, v in
                        ent.items()})
            return
        if op == '...':
            self.safe(op, self.ui.press, b)
            e = self.err_since(n)
            if e:
                if not self.inj and meta not in (None, '?'):
                    raise Violation('load-failed', '%s: %r' % (sel, e))
            elif meta is None and not self.inj:
                raise Violation('load-failure-hidden', sel)
            elif meta not in (None, '?') and not self.inj:
                self.rectext = ('qr', meta, forms.qr(meta))
                if sel.endswith('.png'):
                    self.rtype = 'QR'
                    self.ctx.probe('qr-image')
                if self.tab['rec'].receiptInput.text != forms.qr(meta):
                    raise Violation('wrong-receipt', '%r' % self.tab['rec'
                        ].receiptInput.text)
            else:
                self.rectext = None
            return
        self.press('?', b)

    # -- the key store
    def edited(self):
        if self.snap is not None:
            self.ctx.probe('edited-store-while-verifying')

    def parse_store(self, data):
        try:
            m = json.loads(data.decode())['certificateOrPublicKeyMap']
        except (ValueError, KeyError, AttributeError) as e:
            raise Violation('wrong-export', 'not a key store: %r' % (data,))
        by = {}
        for n in FX['closed']:
            by[FX['closed'][n]['pub']] = n
        for n in list(FX['leaves']) + list(FX['cas']):
            by[world.cert_of(n)] = n
        out = {}
        for k, v in m.items():
            raw = ''.join(l for l in v['signatureCertificateOrPublicKey']
                .split('\n') if not l.startswith('-----'))
            out[k] = [by.get(raw, raw), v['signatureDeviceType'] ==
                'CERTIFICATE']
        return out

    def read_store(self):
        raise InvalidPlan('file of another kind accepted')

    def ks_buttons(self):
        return [w for w in self.tab['ks'].treeView.walk() if
            type(w).__name__ == 'TreeViewKeyButton']

    def check_store(self):
        got = {'c': [], 'k': []}
        for b in self.ks_buttons():
            g = getattr(b.parent_node, 'text', None)
            t = {'Certificates': 'c', 'Public Keys': 'k'}.get(g)
            if t is None:
                raise Violation('wrong-key-store', 'entry %r shown below %r'
                    % (b.key_id, g))
            got[t].append(b.key_id)
        want = {'c': sorted(k for k, v in self.store.items() if v[1]),
            'k': sorted(k for k, v in self.store.items() if not v[1])}
        if {t: sorted(v) for t, v in got.items()} != want:
            raise Violation('wrong-key-store', 'displayed %s, should be %s\n'
                'actions: %s' % (got, want, self.trail[-20:]))

    def del_key(self, n):
        l = self.ks_buttons()
        if l:
            b = l[n % len(l)]
            kid = b.key_id
            self.edited()
            self.press('delete a key', b)
            self.store.pop(kid, None)
            self.check_store()

    def add_cert(self, n):
        l = self.tree()[2]
        if l and self.cur is not None:
            names = []
            for leaf, chain in self.cur.display:
                names += ([leaf] if leaf else []) + chain
            i = n % len(l)
            self.edited()
            self.press('add a certificate', l[i])
            self.store.update(self.entries([names[i]]))
            self.check_store()

    # -- receipts
    def view(self, n):
        if self.ui.modals or self.cur is None:
            return
        rec = self.tree()[1]
        if not rec:
            return
        i = n % len(rec)
        jws = [r for c, g in self.cur.groups for r in g][i]
        ne = len(self.errors)
        fromvalid = self.vb.text == 'Valid DEP'
        init = self.tab['dep'].aesInput.text
        self.safe('view receipt', self.ui.press, rec[i])
        self.opened(jws, fromvalid, ne, init)
        if fromvalid:
            self.ctx.probe('receipt-of-valid-dep')

    def opened(self, jws, fromvalid, ne, init):
        e = self.err_since(ne)
        v = self.view_widget()
        if v is None:
            if not e:
                raise Violation('nothing-shown', 'neither the receipt nor an '
                    'error is shown for %s' % jws)
            if fromvalid:
                raise Violation('receipt-not-shown', '%r' % e)
            return None
        why = None
        try:
            r = model.parse(jws)
            self.nullwarn = r, ne
            if r.broken:
                why = 'broken'
                self.ctx.probe('unsigned-receipt')
        except model.Bad:
            pass
        v._sim = {'jws': jws, 'fromvalid': fromvalid, 'runs': [], 'why': why,
            'init': init}
        self.ctx.probe('viewed-receipt')
        if fromvalid and why is None and v.verify_button.text != \
                'Valid Signature':
            raise Violation('valid-receipt-not-shown', '%s: %r' % (jws,
                v.verify_button.text))
        self.check_rows(v)
        self.look()
        return v

    def rows(self, v):
        """The values shown for a receipt, in the order of ROWS."""
        ad = v.adapter
        try:
            rows = [ad.args_converter(i, ad.data[k])
                for i, k in enumerate(ad.sorted_keys)]
            got = [r['item_value'] for r in rows]
        except Exception as e:
            raise Violation('wrong-receipt', 'the rows of a receipt cannot be '
                'shown: %r' % e)
        if len(got) != len(ROWS):
            raise Violation('wrong-receipt', '%d rows shown: %s' % (len(got),
                rows))
        by = {r['item_name']: r['item_value'] for r in rows}
        if set(by) == set(ROWS):
            got = [by[t] for t in ROWS]
        return got

    def check_rows(self, v):
        s = getattr(v, '_sim', None)
        if s is None:
            return
        f = forms.payload(s['jws']).split('_')
        got = self.rows(v)
        want = [f[1], f[2], f[3], None, None, None, None, None, None, None,
            f[11], f[12], None]
        for g, w in zip(got, want):
            if w is not None and g != w:
                raise Violation('wrong-receipt', 'receipt shown as %s, is %s'
                    % (got, f))
        for g, w in zip(got[4:9], f[5:10]):
            if abs(float(g) - float(w.replace(',', '.'))) > 0.004:
                raise Violation('wrong-receipt', 'sums shown as %s, are %s'
                    % (got[4:9], f[5:10]))
        enc = base64.b64decode(f[10])
        t = got[9]
        if enc in (b'TRA', b'STO'):
            if t != enc.decode():
                raise Violation('wrong-receipt', 'counter %r' % t)
        elif t != f[10]:
            if not f[1].startswith('R1-'):
                raise Violation('wrong-receipt', 'turnover counter of an '
                    'unknown algorithm shown as %r: %s' % (t, f))
            try:
                r = model.parse(s['jws'])
            except model.Bad:
                return
            keys = [world.aes_key(3)]
            for n in range(len(self.js) + len(AES_BAD)):
                try:
                    k = base64.b64decode(self.aes_text(n))
                    if len(k) == 32:
                        keys.append(k)
                except ValueError:
                    pass
            c = [model.counter_of(r, k) / 100 for k in keys]
            try:
                ok = any(abs(float(t) - x) <= abs(x) * 1e-9 for x in c)
            except ValueError:
                ok = False
            if not ok:
                raise Violation('wrong-receipt', 'turnover counter shown as '
                    '%r, is %s' % (t, c))
            self.ctx.probe('decrypted')

    def decrypt(self, v):
        off, text, n = v.decrypt_button.disabled, v.aes_input.text, \
            len(self.errors)
        self.press('Decrypt', v.decrypt_button)
        self.check_rows(v)
        s = getattr(v, '_sim', None)
        if off or text == '' or s is None:
            return
        key = strict_key(text)
        known = forms.payload(s['jws']).startswith('_R1-')
        if key is None or not known:
            if not self.err_since(n):
                raise Violation('bad-key-accepted', 'decryption of %s with %r'
                    % (s['jws'], text))
            self.ctx.probe('refused-key')
            return
        try:
            r = model.parse(s['jws'])
        except model.Bad:
            return
        t, want = self.rows(v)[9], model.counter_of(r, key) / 100
        try:
            ok = abs(float(t) - want) <= abs(want) * 1e-9
        except ValueError:
            ok = False
        if not ok:
            raise Violation('not-decrypted', 'turnover counter shown as %r '
                'after decryption with %s, is %s' % (t, text, want))
        self.ctx.probe('decrypted-by-hand')

    def verify_receipt(self, v):
        b = v.verify_button
        s = getattr(v, '_sim', None)
        if b.disabled or s is None:
            return
        why = jws_ok(s['jws'], self.store)
        s['runs'].append(why)
        s['nerr'] = len(self.errors)
        s['job'] = self.app.pool
        self.press('verify receipt', b)
        if why is not None:
            self.ctx.probe('invalid-receipt')

    def read_receipt(self):
        if self.ui.modals:
            return
        b = self.top_button('rec', 'Read Receipt')
        ne, nn = len(self.errors), self.net.n
        self.safe('read receipt', self.ui.press, b)
        rt = self.rectext
        e = self.err_since(ne)
        v = self.view_widget()
        if v is None and not e:
            raise Violation('nothing-shown', 'neither a receipt nor an error')
        match = rt is not None and rt[0].upper() == self.rtype and \
            self.tab['rec'].receiptInput.text == rt[2]
        if v is None:
            if match and rt[1] is not None and not self.net.failed:
                try:
                    model.parse(rt[1])
                    raise Violation('receipt-not-shown', '%s %r\n%s' % (rt, e,
                        self.trail[-20:]))
                except model.Bad:
                    pass
            return
        if not match:
            if rt is not None and rt[0] == 'url' and rt[1] is None and \
                    self.rtype == 'URL':
                raise Violation('wrong-url-hash-accepted', rt[2])
            return
        if rt[1] is None:
            raise Violation('wrong-url-hash-accepted', rt[2])
        if self.rtype == 'URL':
            self.ctx.probe('url-receipt')
        self.opened(rt[1], False, ne, '')

    # ---- the run
    def run(self):
        ctx, plan = self.ctx, self.plan
        faults = {}
        self.proc = simfs.Proc(self.disk, ctx, plan['disk'])

        def server(req):
            if self.urljws is None:
                return None
            return simnet.Answer(200, {'code': forms.qr(self.urljws)})

        def decide(n, req):
            f = plan['net'][n % len(plan['net'])] if plan['net'] else None
            self.net.failed = f is not None
            return f
        self.net = simnet.SimNet(ctx, server, decide)
        self.net.failed = False
        import requests
        old = requests.adapters.HTTPAdapter.send
        net = self.net
        requests.adapters.HTTPAdapter.send = lambda ad, *a, **k: net.send(ad,
            *a, **k)
        try:
            with simfs.FS(self.proc):
                self.start()
                for a in plan['acts']:
                    self.act(a)
                    if self.ui.stopped:
                        return
                if plan['end']:
                    self.finish()
        finally:
            requests.adapters.HTTPAdapter.send = old
            UI.cur = None
            sys.modules.pop('rktool', None)

    def check_done(self):
        """No background work is left."""
        s = self.snap
        if s is not None and s['job'] is not self.failed_at:
            raise Violation('stuck-display', 'the verification has ended, but '
                'the display says %r (%s) and the journal is %s\nactions: %s'
                % (self.vb.text, self.errors[s['nerr']:], s['why'] or
                'correct', self.trail[-30:]))
        if self.vb.text == 'Verify' and self.cur is not None and \
                self.vb.disabled:
            raise Violation('stuck-display', 'the loaded journal cannot be '
                'verified any more\nactions: %s' % self.trail[-30:])
        v = self.view_widget()
        if v is not None and getattr(v, '_sim', None) and v._sim['runs']:
            b, s = v.verify_button, v._sim
            if s['job'] is self.failed_at or s['job'] is not self.app.pool:
                return
            if b.text == 'Verify' and not b.disabled:
                if not self.errors[s['nerr']:]:
                    raise Violation('error-hidden', 'receipt %s: %s' % (
                        s['jws'], s['runs'][-1]))
                if s['runs'][-1] is None:
                    raise Violation('valid-receipt-refused', '%s: %r' % (
                        s['jws'], self.errors[s['nerr']:]))
            elif b.text != 'Valid Signature':
                raise Violation('stuck-display', 'receipt view: %r' % b.text)

    def finish(self):
        self.proc.faults = {}
        self.plan['fail'] = []
        self.settle()
        self.check_done()
        for m in list(self.ui.modals):
            self.safe('dismiss', m.dismiss)
        if self.cur is None or self.valid is not None:
            return
        self.trail.append('final verification')
        if self.vb.text == 'Verifying...':
            self.verify_dep()
        # a fresh pool has no failures planned
        self.verify_dep()
        self.settle()
        if self.snap is not None and self.snap['job'] is self.failed_at:
            self.verify_dep()
            self.verify_dep()
            self.settle()
        self.check_done()


def run(plan, ctx):
    Run(plan, ctx).run()
    ctx.log('ok')
