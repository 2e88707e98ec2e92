"""Reference cash register: an independent implementation of the RKSV receipt
format (hashlib, AES-CTR and ECDSA used directly, no code of the library), so
that an error shared by the library's producer and verifier shows.

A journal plan is a JSON object; build() turns it into receipts.
"""
import base64
import datetime
import hashlib
import json
import os

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from . import simcrypto
from .core import InvalidPlan

with open(os.path.join(os.path.dirname(__file__), 'fixtures.json')) as _f:
    FX = json.load(_f)

BROKEN = 'Sicherheitseinrichtung ausgefallen'
BROKEN_SIG = base64.urlsafe_b64encode(BROKEN.encode()).rstrip(b'=').decode()
HEADER = '{"alg":"ES256"}'
EPOCH = datetime.datetime(2017, 4, 1)

OPEN_LEAVES = ['L0', 'L1', 'L2', 'L3', 'L4', 'L5', 'L6', 'L7', 'L8', 'L9']
CLOSED_KEYS = ['K0', 'K1', 'K2', 'K3', 'K4', 'K5']
ZDAS = ['AT1', 'AT77', 'AT2', 'DE5']


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def unb64u(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def aes_key(n):
    return hashlib.sha256(b'aes-%d' % n).digest()


def ctr(key, iv, data):
    e = Cipher(algorithms.AES(key), modes.CTR(iv), default_backend()).encryptor()
    return e.update(data) + e.finalize()


def enc_counter(reg, rid, value, key, size):
    iv = hashlib.sha256((reg + rid).encode()).digest()[:16]
    return ctr(key, iv, value.to_bytes(size, 'big', signed=True))


def fmt(cents):
    s = '-' if cents < 0 else ''
    return '%s%d,%02d' % (s, abs(cents) // 100, abs(cents) % 100)


def pem(one):
    return '-----BEGIN CERTIFICATE-----\n' + '\n'.join(
        one[i:i + 64] for i in range(0, len(one), 64)) + \
        '\n-----END CERTIFICATE-----\n'


def pubpem(one):
    return '-----BEGIN PUBLIC KEY-----\n' + '\n'.join(
        one[i:i + 64] for i in range(0, len(one), 64)) + \
        '\n-----END PUBLIC KEY-----\n'


def serial_str(leaf, style=0):
    """The ways a receipt may spell its certificate's serial number."""
    n = FX['leaves'][leaf]['serial']
    if style == 1:
        return str(n)
    if style == 2:
        return ('%x' % n).upper()
    if style == 3:
        return '-%x' % n
    return '%x' % n


def issuer_chain(leaf):
    """Certificates above a leaf, lowest first (names)."""
    out = []
    up = FX['leaves'][leaf]['issuer']
    while up:
        out.append(up)
        up = FX['cas'][up]['issuer']
    return out


def cert_of(name):
    return (FX['leaves'].get(name) or FX['cas'].get(name))['cert']


def make_payload(zda, reg, rid, date, sums, enc, serial, chain, alg='R1'):
    return '_%s-%s_%s_%s_%s_%s_%s_%s' % (alg, zda, reg, rid, date,
        '_'.join(sums), enc, '%s_%s' % (serial, chain))


def make_jws(payload, d, header=HEADER):
    """d None: the device is broken."""
    si = b64u(header.encode()) + '.' + b64u(payload.encode())
    if d is None:
        return si + '.' + BROKEN_SIG
    return si + '.' + b64u(simcrypto.sign_raw(d, si.encode()))


def chain_value(prev, reg):
    h = hashlib.sha256((prev if prev else reg).encode()).digest()
    return base64.b64encode(h[:8]).decode()


def date_str(t):
    return (EPOCH + datetime.timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%S')


def respell(f, style, n):
    """Other spellings the format allows: dates without leading zeros,
    negative zeros."""
    if style & 1 and (style & 4 or n % 3 == 1):
        d, t = f['date'].split('T')
        f['date'] = '-'.join(str(int(x)) for x in d.split('-')) + 'T' + \
            ':'.join(str(int(x)) for x in t.split(':'))
    if style & 2:
        f['sums'] = ['-0,00' if x == '0,00' and (n + i) % 3 == 0 else x
            for i, x in enumerate(f['sums'])]


class Rec:
    __slots__ = ('jws', 'dev', 'grp', 'rid', 'kind', 'signed', 'counter',
        'cents', 't', 'op')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


ID_STYLES = [
    lambda n: '%05d' % n,
    lambda n: '%d' % (n + 1),
    lambda n: 'Beleg-%d' % (n + 8),
    lambda n: hashlib.md5(b'%d' % n).hexdigest(),
    lambda n: '2017/%d/%06d' % (n // 7, n),
    lambda n: '\u00c4\u00f6\u20ac %d' % n,
    lambda n: '%012d' % n,
    # pairs that differ in case only
    lambda n: ('Kb%dx' if n % 2 else 'kB%dX') % (n // 2),
    # every ID the beginning of the next ones
    lambda n: 'P%d' % (n // 12) + 'aA0'[n % 3] * (n % 12),
    lambda n: '"%d\\/\'<&>{}' % n,
    # numbers that differ in leading zeros only
    lambda n: '0' * (n % 6) + '%d' % (n // 6),
    lambda n: '%dE%d' % (n // 3, n % 3),
    lambda n: '%d.%02d' % (n // 10, n % 10 * 10),
    lambda n: 'B  %d   x' % n,
    # beyond 64 bits, neighbours
    lambda n: '%d' % (n + (1 << 64) - 2),
]
# styles whose natural sort order is the counting order
SORTED_STYLES = (0, 1, 2, 4, 5, 6, 11, 12, 13, 14)


class RefRegister:
    """Executes a journal plan."""

    def __init__(self, j, prev_start=None):
        self.closed = bool(j.get('closed'))
        self.devs = j['devs']
        if not self.devs:
            raise InvalidPlan('no device')
        self.cur = self.gdev = self.devs[0]
        self.sstyle = j.get('sstyle', 0)
        self.spell = j.get('spell', 0)
        self.zda = 'AT0' if self.closed else ZDAS[j.get('zda', 0) % len(ZDAS)]
        self.reg = j['reg'] or 'R'
        self.size = min(16, max(5, j.get('tcs', 8)))
        self.key = aes_key(j.get('key', 0))
        self.t = j.get('t0', 0)
        self.idstyle = ID_STYLES[j.get('ids', 0) % len(ID_STYLES)]
        self.n = j.get('id0', 0)
        self.up = True
        self.grp = 0
        self.counter = 0
        self.last = prev_start
        self.recs = []
        self.snap = {}
        self.next_id = None
        self.next_chain = None

    def _serial(self):
        if self.cur in FX['closed']:
            return FX['closed'][self.cur]['kid']
        return serial_str(self.cur, self.sstyle)

    def _d(self):
        return (FX['closed'].get(self.cur) or FX['leaves'][self.cur])['d']

    def emit(self, kind, cents, dt, edit=None):
        self.t += dt
        rid = self.next_id if self.next_id is not None else self.idstyle(self.n)
        self.next_id = None
        self.n += 1
        if kind == 'dummy':
            enc = b'TRA'
        else:
            self.counter += sum(cents)
            lim = 1 << (8 * self.size - 1)
            if not -lim <= self.counter < lim:
                raise InvalidPlan('counter too big')
            enc = b'STO' if kind == 'rev' else enc_counter(self.reg, rid,
                self.counter, self.key, self.size)
        chain = self.next_chain or chain_value(self.last, self.reg)
        self.next_chain = None
        f = dict(zda=self.zda, reg=self.reg, rid=rid, date=date_str(self.t),
            sums=[fmt(c) for c in cents], enc=base64.b64encode(enc).decode(),
            serial=self._serial(), chain=chain)
        respell(f, self.spell, self.n)
        header = HEADER
        alg = 'R1'
        if edit:
            for k, v in edit.items():
                if k == 'header':
                    header = v
                elif k == 'alg':
                    alg = v
                elif k == 'extra':
                    pass
                elif k == 'sum':
                    f['sums'][v[0] % 5] = v[1]
                else:
                    f[k] = v
        payload = make_payload(alg=alg, **f)
        if edit and 'extra' in edit:
            payload += edit['extra']
        jws = make_jws(payload, self._d() if self.up else None, header)
        self.last = jws
        r = Rec(jws=jws, dev=self.gdev, grp=self.grp, rid=rid, kind=kind,
            signed=self.up, counter=self.counter, cents=list(cents), t=self.t)
        self.recs.append(r)
        return r

    def step(self, op):
        k = op[0]
        if k in ('std', 'dummy', 'rev'):
            self.emit(k, op[1], op[2], op[3] if len(op) > 3 else None)
        elif k == 'null':
            self.emit('std', [0] * 5, op[1])
        elif k == 'down':
            self.up = False
        elif k == 'up':
            self.up = True
        elif k == 'use':                      # change of signature device
            self.cur = self.gdev = self.devs[op[1] % len(self.devs)]
            self.grp += 1
        elif k == 'grp':
            self.grp += 1
        # ---- faults of the register or its operator
        elif k == 'lost':                     # restart from a stale backup
            back = op[1]
            if back >= len(self.recs):
                raise InvalidPlan('no such backup')
            if back > 0:
                r = self.recs[-1 - back]
                self.last, self.counter = r.jws, r.counter
                self.n -= back if op[2] else 0
        elif k == 'ctr':                      # turnover memory corrupted
            self.counter += op[1]
        elif k == 'clock':                    # clock jump
            self.t += op[1]
        elif k == 'rename':
            self.reg = op[1] or 'R'
        elif k == 'resize':
            self.size = min(16, max(5, op[1]))
        elif k == 'aes':
            self.key = aes_key(op[1])
        elif k == 'dupid':
            if self.recs:
                self.next_id = self.recs[op[1] % len(self.recs)].rid
        elif k == 'setid':
            self.next_id = op[1]
        elif k == 'chainreset':
            self.last = None
        elif k == 'badchain':
            self.next_chain = base64.b64encode(hashlib.sha256(
                b'%d' % op[1]).digest()[:8]).decode()
        elif k == 'zda':
            self.zda = op[1]
        elif k == 'swapsys':
            self.closed = not self.closed
            self.cur = op[1]
            self.zda = 'AT0' if self.closed else 'AT1'
        elif k == 'serial':                   # the device reports another id
            self._serial = lambda s=op[1]: s
        elif k == 'forgedkey':                # other private key, same id
            self._d = lambda d=op[1]: d + 7
        else:
            raise InvalidPlan('unknown op %r' % (k,))

    def run(self, ops):
        for op in ops:
            self.step(op)
        return self.recs


def groups_of(recs, certs=True, chain_style=0, merge=None):
    """Export receipts as DEP groups [(names of cert/chain), [jws]]."""
    out = []
    for r in recs:
        if not out or out[-1]['grp'] != r.grp:
            out.append({'grp': r.grp, 'dev': r.dev, 'recs': []})
        out[-1]['recs'].append(r.jws)
    return out


def dep_dict(groups, certs, trust_full_chain=True):
    """groups: list of {'dev','recs'}; certs: whether to name certificates."""
    bg = []
    for g in groups:
        if certs:
            cert = g.get('cert', cert_of(g['dev']) if g['dev'] in FX['leaves']
                else '')
            chain = g.get('chain')
            if chain is None:
                chain = [cert_of(c) for c in issuer_chain(g['dev'])] \
                    if g['dev'] in FX['leaves'] else []
        else:
            cert, chain = '', []
        bg.append({'Signaturzertifikat': cert, 'Zertifizierungsstellen': chain,
            'Belege-kompakt': list(g['recs'])})
    return {'Belege-Gruppe': bg}


# ------------------------------------------------------------ plan generation

def gen_cents(rng, big=True):
    m = rng.randrange(8)
    if m == 0:
        return [rng.choice([-1, 1]) * rng.randrange(1, 100)] + [0] * 4
    if m == 1:
        return [rng.randrange(-2000, 2000) for _ in range(5)]
    if m == 2:
        c = [0] * 5
        c[rng.randrange(5)] = rng.choice([-1, 1]) * rng.randrange(1, 100000)
        return c
    if m == 3:                                # sums cancel out
        a = rng.randrange(1, 5000)
        c = [a, -a, 0, 0, 0]
        rng.shuffle(c)
        return c
    if m == 4 and big:
        return [rng.randrange(-10**9, 10**9) for _ in range(5)]
    return [rng.randrange(0, 30000) for _ in range(5)]


def gen_dt(rng):
    return rng.choice([0, 0, 1, 7, 60, 3600, 86400, 30 * 86400])


def gen_legal_ops(rng, n, ndev=1, outages=True, groups=True, mode=None):
    """A history a correct register may produce: outages, restores, device
    changes, training and cancelled receipts, group boundaries."""
    ops = [['null', 0]]
    up, need = True, False        # need: restore receipt still owed
    pend = False                  # outage receipts written since last restore
    p_out = rng.choice([0, 0.05, 0.15, 0.35]) if outages else 0
    p_dummy = rng.choice([0, 0.1, 0.3, 0.6])
    p_rev = rng.choice([0, 0.1, 0.3, 0.6])
    p_grp = rng.choice([0, 0, 0.05, 0.2, 0.5]) if groups else 0
    p_lenient = rng.choice([0, 0.5])
    while len([1 for o in ops if o[0] in ('std', 'null', 'dummy', 'rev')]) < n:
        if rng.random() < p_out:
            if up:
                if not need:
                    ops.append(['down'])
                    up = False
            else:
                ops.append(['up'])
                up = True
        if rng.random() < p_grp:
            if ndev > 1 and rng.random() < 0.7:
                ops.append(['use', rng.randrange(ndev)])
            elif groups:
                ops.append(['grp'])
        if up and pend:
            if not need and rng.random() < p_lenient:
                # one more receipt before the collective one is tolerated
                ops.append([rng.choice(['std', 'std', 'dummy', 'rev']),
                    gen_cents(rng), gen_dt(rng)])
                need = True
            if rng.random() < p_grp:
                ops.append(['grp'])
            ops.append(['null', gen_dt(rng)])
            pend = need = False
            continue
        x = rng.random()
        if x < p_dummy:
            ops.append(['dummy', gen_cents(rng), gen_dt(rng)])
        elif x < p_dummy + p_rev * (1 - p_dummy):
            ops.append(['rev', gen_cents(rng), gen_dt(rng)])
        elif rng.random() < 0.1:
            ops.append(['null', gen_dt(rng)])
        else:
            ops.append(['std', gen_cents(rng), gen_dt(rng)])
        if not up:
            pend = True
    return ops


REG_IDS = ['KASSE-1', 'PIGGYBANK-007', 'r', '\u00dcbung 3 / B', 'a;b,c', '007']


def gen_journal(rng, n, closed=None, ndev=None, sorted_ids=False, **kw):
    if closed is None:
        closed = rng.random() < 0.35
    pool = CLOSED_KEYS if closed else OPEN_LEAVES
    ndev = ndev or rng.choice([1, 1, 2, 3])
    devs = rng.sample(pool, ndev)
    style = rng.choice(SORTED_STYLES) if sorted_ids else \
        rng.randrange(len(ID_STYLES))
    return {
        'closed': closed, 'devs': devs, 'reg': rng.choice(REG_IDS),
        'tcs': rng.choice([5, 6, 7, 8, 8, 9, 12, 15, 16]),
        'key': rng.randrange(1000), 't0': rng.randrange(0, 10**8),
        'ids': style, 'id0': rng.choice([0, 1, 5, 8, 95, 99998]),
        'sstyle': rng.choice([0, 0, 0, 1, 2, 3]),
        'zda': rng.randrange(len(ZDAS)),
        'spell': rng.choice([0, 0, 0, 0, 1, 2, 3, 5]),
        'ops': gen_legal_ops(rng, n, ndev, **kw),
    }


# ----------------------------------------------------------------- key stores

def store_json(names, aes=None):
    """A cryptographic material container with the named certificates/keys."""
    m = {}
    for n in names:
        if n in FX['closed']:
            kid = FX['closed'][n]['kid']
            m[kid] = {'id': kid, 'signatureDeviceType': 'PUBLIC_KEY',
                'signatureCertificateOrPublicKey': FX['closed'][n]['pub']}
        else:
            c = FX['leaves'].get(n) or FX['cas'][n]
            kid = '%x' % c['serial']
            m[kid] = {'id': kid, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': c['cert']}
    out = {'certificateOrPublicKeyMap': m}
    if aes is not None:
        out['base64AESKey'] = base64.b64encode(aes_key(aes)).decode()
    return out
