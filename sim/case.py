"""Verification cases shared by several scenarios: a register (or cluster)
history with device and register faults, exported as journals."""
import base64
import random

from . import world, model
from .core import InvalidPlan

MALFORMED = [
    {'date': '2017-13-01T00:00:00'}, {'date': '2017-01-01 00:00:00'},
    {'date': ''}, {'date': '2017-02-29T10:00:00'},
    {'sum': [0, '1,5']}, {'sum': [1, '1.50']}, {'sum': [2, '']},
    {'sum': [3, '01,00']}, {'sum': [4, '+1,00']}, {'sum': [1, '--1,00']},
    {'sum': [0, '1,000']}, {'sum': [2, ' 0,00']},
    {'enc': ''}, {'enc': '===='}, {'enc': 'AAAA'}, {'enc': 'AA=A'},
    {'enc': base64.b64encode(b'x' * 17).decode()},
    {'enc': base64.b64encode(b'x' * 4).decode()}, {'enc': 'VFJB\u00e4'},
    {'chain': 'AAAA'}, {'chain': ''}, {'chain': '!!!!'},
    {'chain': base64.b64encode(b'y' * 9).decode()},
    {'chain': base64.b64encode(b'y' * 32).decode()},
    {'rid': ''}, {'reg': ''}, {'zda': 'A1'}, {'zda': ''}, {'zda': 'AT'},
    {'zda': 'at1'}, {'zda': 'AT-1'}, {'zda': 'AT01'},
    {'serial': 'xyz'}, {'serial': ''}, {'serial': 'U:at1'},
    {'serial': 'S:12345678'}, {'serial': '1-2-3'}, {'serial': 'G:123'},
    {'alg': 'R2'}, {'alg': 'R0'}, {'alg': 'X1'}, {'alg': ''},
    {'header': '{"alg":"none"}'}, {'header': '{"alg": "ES256"}'},
    {'header': '{"alg":"HS256"}'}, {'header': '{"alg":"ES256","x":1}'},
    {'extra': '_'}, {'extra': '_AA=='}, {'extra': '\n'},
    {'sum': [0, '0,00\n']}, {'sum': [3, '\uff11,00']}, {'sum': [1, '0,\u0660\u0660']},
    {'sum': [2, '1\u0663,00']}, {'sum': [4, '-\n0,00']}, {'sum': [0, '0.00']},
    {'sum': [1, '1e1,00']}, {'sum': [2, '1 000,00']}, {'sum': [3, '\u22121,00']},
    {'zda': 'AT1\n'}, {'zda': 'AT\u0661'}, {'zda': 'AT0\n'}, {'zda': 'AT1 '},
    {'enc': 'AAAAAAAAAAA=\n'}, {'enc': 'VFJB\n'}, {'enc': 'U1RP '},
    {'chain': 'AAAAAAAAAAA=\n'}, {'date': '2017-06-01T10:00:00\n'},
    {'date': '2017-06-01T10:00:00Z'}, {'date': '2017-06-01T10:00:60'},
    {'date': '2017-06-01T24:00:00'}, {'alg': 'R1\n'}, {'alg': 'R\u0661'},
]


def is_rec(op):
    return op[0] in ('std', 'null', 'dummy', 'rev')


def rec_positions(ops):
    return [i for i, o in enumerate(ops) if is_rec(o)]


EXTRA = ['rootE', 'rootR', 'rootA', 'intA']


def add_fault(rng, j, kinds=None):
    """Insert one fault of the register, its memory, clock, device or operator.
    Whether it breaks a rule is up to the reference model. Returns its name."""
    ops = j['ops']
    pos = rec_positions(ops)
    p = rng.choice(pos)
    kind = rng.choice(kinds or [
        'lost', 'lost', 'ctr', 'clock', 'rename', 'aes', 'dupid', 'chainreset',
        'badchain', 'swapsys', 'serial', 'forgedkey', 'init', 'norestore',
        'norestore', 'malformed', 'malformed', 'resize', 'outage', 'setid',
        'zda', 'foreigndev', 'reversal-sum', 'dummy-sum'])
    if kind == 'lost':
        i = rng.randrange(len(pos))
        if i:
            ops.insert(pos[i], ['lost', rng.randrange(1, i + 1) - 0
                if i > 1 else 1, rng.random() < 0.7])
            if ops[pos[i]][1] >= i:
                ops[pos[i]][1] = max(1, i - 1)
            if i == 1:
                ops.pop(pos[i])
    elif kind == 'ctr':
        ops.insert(p, ['ctr', rng.choice([1, -1, 100, 12345, -99999, 256,
            65536, 1 << 31, 1 << 32, -(1 << 32)] + ([1 << 40, 1 << 48, 1 << 56]
            if j['tcs'] > 8 else []))])
    elif kind == 'clock':
        ops.insert(p, ['clock', rng.choice([-1, -3600, -86400, 3600, -7])])
    elif kind == 'rename':
        ops.insert(p, ['rename', rng.choice(['OTHER', j['reg'] + ' ',
            j['reg'].lower() or 'x'])])
    elif kind == 'aes':
        ops.insert(p, ['aes', rng.randrange(1000, 2000)])
    elif kind == 'dupid':
        ops.insert(p, ['dupid', rng.randrange(1000)])
    elif kind == 'setid':
        ops.insert(p, ['setid', rng.choice(['0', 'a_b', 'Z', '1', ' '])])
    elif kind == 'chainreset':
        ops.insert(p, ['chainreset'])
    elif kind == 'badchain':
        ops.insert(p, ['badchain', rng.randrange(99)])
    elif kind == 'zda':
        ops.insert(p, ['zda', rng.choice(['AT1', 'AT77', 'AT0', 'DE2'])])
    elif kind == 'swapsys':
        ops.insert(p, ['swapsys', rng.choice(world.OPEN_LEAVES if j['closed']
            else world.CLOSED_KEYS)])
    elif kind == 'serial':
        own = '%x' % (world.FX['leaves'].get(j['devs'][0]) or
            {'serial': 255})['serial']
        ops.insert(p, ['serial', rng.choice(['1234abc', 'U:X1', '5', '-5',
            'deadbeef', 'S:999999999', 'G:1234567890123',
            own[1:] or '0', own[:-1] or '0', own[-1], own[0], '0' + own,
            '000' + own.upper(), own + '0', '1' + own, own[::-1],
            # a certificate authority's
            '%x' % rng.choice(list(world.FX['cas'].values()))['serial'],
            '%x' % world.FX['cas'][rng.choice(EXTRA)]['serial']])])
    elif kind == 'forgedkey':
        ops.insert(p, ['forgedkey', rng.randrange(1, 10**6)])
    elif kind == 'foreigndev':
        d = rng.choice(world.CLOSED_KEYS if j['closed'] else world.OPEN_LEAVES)
        j['devs'] = j['devs'] + [d]
        ops.insert(p, ['use', len(j['devs']) - 1])
    elif kind == 'init':
        c = rng.randrange(5)
        if c == 0:
            ops.insert(0, ['down'])
            ops.insert(2, ['up'])
        elif c == 1:
            ops[pos[0]] = ['std', world.gen_cents(rng), 0]
        elif c == 2:
            ops[pos[0]] = ['dummy', [0] * 5, 0]
        elif c == 3:
            ops[pos[0]] = ['rev', [0] * 5, 0]
        else:
            ops[pos[0]] = ['std', [500, -500, 0, 0, 0], 0]
    elif kind == 'norestore':
        # an outage whose collective receipt is forgotten or has turnover
        n = rng.randrange(1, 4)
        seq = [['down']] + [_rand_rec(rng) for _ in range(n)] + [['up']]
        seq += [_rand_rec(rng, null=0.1) for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.3:
            seq += [['down'], _rand_rec(rng), ['up']]
        if rng.random() < 0.5:
            seq.insert(rng.randrange(len(seq)), ['grp'])
        ops[p + 1:p + 1] = seq
    elif kind == 'outage':
        a = rng.choice(pos)
        ops.insert(a, ['down'])
        b = min(len(ops), a + 1 + rng.randrange(1, 4))
        ops.insert(b, ['up'])
    elif kind == 'malformed':
        i = rng.choice(pos)
        edit = dict(rng.choice(MALFORMED))
        o = ops[i]
        ops[i] = ['std', [0] * 5, o[1], edit] if o[0] == 'null' else \
            o[:3] + [edit]
    elif kind == 'reversal-sum':
        ops.insert(p + 1, ['rev', world.gen_cents(rng), 0])
        ops.insert(p + 2, ['ctr', rng.choice([0, 1])])
    elif kind == 'dummy-sum':
        ops.insert(p + 1, ['dummy', world.gen_cents(rng), 0])
    elif kind == 'resize':
        ops.insert(p, ['resize', rng.randrange(5, 17)])
    return kind


def _rand_rec(rng, null=0.25):
    x = rng.random()
    if x < null:
        return ['null', world.gen_dt(rng)]
    return [rng.choice(['std', 'std', 'dummy', 'rev']),
        rng.choice([world.gen_cents(rng), [0] * 5]), world.gen_dt(rng)]


def gen_case(rng, n, faults=None, cluster=None, seg=None, certs=None,
        trust=None, sorted_ids=False, kinds=None, **kw):
    if cluster is None:
        cluster = rng.choice([0, 0, 0, 0, 1, 2])
    closed = True if cluster and rng.random() < 0.9 else None
    j = world.gen_journal(rng, n, closed=closed, sorted_ids=sorted_ids, **kw)
    if cluster:
        j['devs'] = j['devs'][:]
    fk = []
    for _ in range(rng.choice([0, 1, 1, 1, 2]) if faults is None else faults):
        fk.append(add_fault(rng, j, kinds))
    if certs is None:
        certs = not j['closed'] and rng.random() < 0.75
    if not certs:
        trust = rng.choice(['all', 'leaf'])
    return {
        'j': j, 'faultkinds': fk, 'cluster': cluster, 'certs': certs,
        'trust': trust or rng.choice(['all', 'leaf', 'mid', 'top', 'top']),
        'badtrust': None,
        'seg': rng.choice([0, 0, 0, 1, 2, 5]) if seg is None else seg,
        'keymode': rng.choice(['right'] * 7 + ['none', 'none', 'wrong',
            'short']) if faults != 0 else rng.choice(['right'] * 4 + ['none']),
        'backend': 'unique',
        # certificates in the key store that have no part in the journal
        'extra': [] if rng.random() < 0.8 else [rng.choice(EXTRA)],
    }


class Case:
    """A built case: prior registers, prior segment and the journal to check."""

    def __init__(self, c):
        self.c = c
        j = c['j']
        if not rec_positions(j['ops']):
            raise InvalidPlan('no receipts')
        self.prior = []                   # journals of earlier cluster members
        prev = None
        for k in range(c['cluster']):
            pj = dict(j, ids=5, id0=1000 * (k + 1), ops=[['null', 0]] +
                [['std', [100 + k, 0, 0, 0, 0], 5]] * (k % 2))
            pj['t0'] = 0
            rg = world.RefRegister(pj, prev)
            rg.run(pj['ops'])
            self.prior.append(rg.recs)
            prev = rg.recs[0].jws
        self.prev_start = prev
        rg = world.RefRegister(j, prev)
        rg.run(j['ops'])
        self.reg = rg
        self.recs = rg.recs
        self.devs = list(j['devs']) + [o[1] for o in j['ops']
            if o[0] == 'swapsys']
        self.certs = c['certs']
        self.key = {'right': world.aes_key(j.get('key', 0)), 'none': None,
            'wrong': world.aes_key(j.get('key', 0) + 77777),
            'short': world.aes_key(j.get('key', 0))[:16]}[c['keymode']]
        self.store = list(dict.fromkeys(store_names(self.devs, c['trust']) +
            c.get('extra', [])))

    def groups(self, recs):
        if not self.certs:
            # without certificates only one group is allowed
            return [{'grp': 0, 'dev': recs[0].dev, 'recs':
                [r.jws for r in recs]}] if recs else []
        return world.groups_of(recs)

    def dep(self, recs):
        return world.dep_dict(self.groups(recs), self.certs)

    def model_groups(self, recs):
        return [((g['dev'] if self.certs and g['dev'] in world.FX['leaves']
            else None), g['recs']) for g in self.groups(recs)]


def store_names(devs, trust):
    """Which certificates/keys the verifier trusts. Certificates named in a
    journal are accepted if they or one of their issuers are in the store."""
    out = []
    for d in devs:
        if d in world.FX['closed']:
            out.append(d)
            continue
        chain = world.issuer_chain(d)
        if trust == 'leaf' or not chain:
            out.append(d)
        elif trust == 'mid':
            out.append(chain[0])
        elif trust == 'top':
            out.append(chain[-1])
        else:
            out += [d] + chain
    return list(dict.fromkeys(out))
