"""C02: whatever happens to a stored journal, only the register's own receipts
from a trusted device are accepted."""
import base64
import hashlib
import hmac
import json

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec, padding

from .. import case, deprender, lib, model, simcrypto, simio, simpool, world
from ..core import InvalidPlan, Violation, call
from ..world import FX, b64u, unb64u

RUNS = {'quick': 30000, 'thorough': 400000}
FROZEN = ('via',)
RULE = ('A run exports the journal of a legal register (1-20 receipts, fresh, '
    'resumed or cluster), lets 0-4 storage or transmission faults happen to '
    'it and verifies it with a key store that trusts the device, one of its '
    'issuers or neither. Non-trivial: at least two receipts and one fault.')
REAL = ['librksv.verify (sequential and packaged)', 'librksv.verify_receipt',
    'librksv.receipt', 'librksv.algorithms', 'librksv.key_store',
    'librksv.utils (certificates)', 'librksv.depparser', 'PyJWT',
    'cryptography (signatures, X.509)']
STUB = ['cash register, signature devices, certificate authorities and the '
    'attacker (reference implementation)', 'storage and transmission of the '
    'journal (simulated faults)', 'worker pool (simulated)']
ASSUME = ['ECDSA, RSA and SHA-256 are not broken', 'trusted private keys stay '
    'secret']
SEARCH = ('bit flips, lost, repeated, reordered, foreign, forged and re-signed '
    'receipts, damaged, exchanged and forged certificates and chains, in '
    'combination, and over verification configurations')
ORACLE = ('the register\'s own receipts, independent signature and certificate '
    'chain checks')
NOTE = ('Samples journals of up to 20 receipts with up to four faults; a '
    'violation it reports is real, silence is evidence over the explored '
    'runs, not proof.')
MUST_HIT = ['accepted-genuine', 'rejected', 'resumed', 'cluster',
    'trust:leaf', 'trust:top', 'trust:nobody', 'accepted-unchanged-chain',
    'accepted-harmless']

RECEIPT_ATTACKS = ['flip', 'flip', 'flip', 'field', 'field', 'drop', 'drop',
    'dup', 'swap', 'insert-foreign', 'replace-foreign', 'insert-old',
    'strip-sig', 'resign', 'forge', 'hmac', 'none', 'sig-swap', 'sig-junk',
    'malleable', 'b64tail', 'pad', 'pad', 'unsigned-edit', 'forge-unsigned', 'move',
    'revert-chain']
GROUP_ATTACKS = ['cert-evil', 'cert-evil', 'cert-other', 'cert-reissue',
    'cert-damage', 'cert-drop', 'chain-drop', 'chain-cut', 'chain-evil',
    'chain-damage', 'chain-swap', 'chain-self', 'chain-bridge', 'swap-groups',
    'dup-group', 'drop-group', 'resign-all', 'resign-all', 'resign-tail',
    'resign-tail']
HARMLESS = ['split-group', 'cut-end', 'chain-extra']
EVIL = ['E0', 'E1', 'E2', 'E3', 'E4', 'E5', 'E6', 'E7', 'E8',
    'E7', 'E8']
# the attacker's certificates and authorities with serial and names of others
TWIN = {'L0': 'E0', 'L1': 'E1', 'L2': 'E2', 'L3': 'EL3', 'L4': 'EL4',
    'L5': 'EL5', 'L6': 'EL6', 'L7': 'EL7', 'L9': 'EL9'}
GENUINE = {'evilRoot': 'rootA', 'evilInt': 'intA', 'evilIntA2': 'intA2',
    'evilRootR': 'rootR', 'evilIntR': 'intR', 'evilRootB': 'rootB'}
ABOVE = {'E5': ['intA', 'rootA'], 'E6': ['rootE'], 'E4': ['rootA'],
    'E7': ['rootA'], 'E8': ['intA', 'rootA']}


def evil_chain(dev, own, c):
    """A chain for the attacker's certificate: his own, the genuine one, or one
    that changes over at some point."""
    ch = world.issuer_chain(dev)
    full = [world.cert_of(x) for x in ch]
    m = c % 6
    if m == 0:
        return []
    if m == 1:
        return full
    if m == 2:
        return list(own)
    if m == 3:                                # genuine from some level on
        k = c // 6 % (len(ch) + 1)
        return full[:k] + [world.cert_of(GENUINE.get(x, x)) for x in ch[k:]] \
            + [world.cert_of(x) for x in ABOVE.get(dev, [])]
    if m == 4:                                # goes on with the genuine one
        k = c // 6 % (len(ch) + 1)
        return full[:k] + list(own)
    return full + [world.cert_of(x) for x in ABOVE.get(dev, ['rootA'])]


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
    c = case.gen_case(rng, n, faults=0, certs=None,
        cluster=rng.choice([0] * 7 + [1]))
    if not c['j']['closed']:
        c['cluster'] = 0
    c['keymode'] = rng.choice(['right', 'right', 'none'])
    if c['certs']:
        c['trust'] = rng.choice(['leaf', 'mid', 'top', 'all', 'nobody',
            'nobody', 'other'])
    m = rng.random()
    na = 0 if m < 0.08 else rng.choice([1, 1, 1, 1, 2, 2, 3, 4])
    kinds = RECEIPT_ATTACKS * 2 + GROUP_ATTACKS * (2 if c['certs'] else 0) + \
        HARMLESS
    if m > 0.93:
        kinds = HARMLESS
    return {
        'case': c,
        'foreign': {'closed': c['j']['closed'], 'devs': c['j']['devs'],
            'reg': rng.choice([c['j']['reg'], 'FREMD']), 'tcs': 8,
            'key': c['j']['key'], 't0': c['j']['t0'], 'ids': rng.choice(
                [c['j']['ids'], 2]), 'id0': 500, 'sstyle': c['j']['sstyle'],
            'zda': c['j']['zda'], 'ops': [['null', 0]] +
                [['std', world.gen_cents(rng), 3] for _ in
                    range(rng.randrange(1, 5))]},
        'edtrust': rng.random() < 0.3,
        'attacks': [[rng.choice(kinds)] + [rng.randrange(10**6)
            for _ in range(3)] for _ in range(na)],
        'layout': deprender.gen_layout(rng),
        'via': rng.choice(['dict', 'dict', 'chunks', 'chunks', 'pool']),
        'chunk': rng.choice([0, 1, 2, 3, 5]), 'nprocs': rng.choice([1, 2, 3]),
        'sched': [rng.randrange(8) for _ in range(12)],
        'stream': {'kind': 'text', 'buf': rng.choice([64, 512, 8192])},
    }


# ---------------------------------------------------------------- the faults

def edit_payload(jws, f):
    h, p, s = jws.split('.')
    try:
        parts = unb64u(p).decode().split('_')
    except Exception:
        return jws
    f(parts)
    return h + '.' + b64u('_'.join(parts).encode()) + '.' + s


def field(parts, b, c):
    if len(parts) < 13:
        return
    k = 1 + b % 12
    v = parts[k]
    if 5 <= k <= 9:
        parts[k] = ['0,00', '1,00', '-1,00', '99,99'][c % 4]
    elif k == 4:
        parts[k] = v[:-1] + ('1' if v[-1:] == '0' else '0') if c % 2 else \
            v.replace('T0', 'T', 1)
    elif k in (10, 12):
        parts[k] = base64.b64encode(hashlib.sha256(b'%d' % c).digest()[:8]
            ).decode() if c % 3 else ['VFJB', 'U1RP'][c % 2]
    elif k == 1:
        parts[k] = ['R1-AT0', 'R1-AT1', 'R1-DE2', 'R2-AT1'][c % 4]
    else:
        parts[k] = v + 'x' if c % 2 else v[:-1]


def redo(jws, last, dev, d, unsigned=False):
    """The attacker rebuilds a receipt on top of `last` and signs it."""
    _, p, s = jws.split('.')
    parts = unb64u(p).decode().split('_')
    parts[12] = world.chain_value(last, parts[2])
    if dev in FX['leaves'] and model.serial_type(parts[11]) == 'serial':
        parts[11] = '%x' % FX['leaves'][dev]['serial']
    si = b64u(world.HEADER.encode()) + '.' + b64u('_'.join(parts).encode())
    if unsigned or s == world.BROKEN_SIG:
        return si + '.' + world.BROKEN_SIG
    return si + '.' + b64u(simcrypto.sign_raw(d, si.encode()))


def damage64(s, b, c):
    if not s:
        return s
    raw = bytearray(base64.b64decode(s))
    raw[b % len(raw)] ^= 1 << c % 8
    return base64.b64encode(bytes(raw)).decode()


def apply(kind, a, b, c, gs, own, foreign, before, certs, ed=False):
    """gs: groups {'cert','chain','recs'}. Changes it in place."""
    pos = [(g, i) for g in gs for i in range(len(g['recs']))]
    if not pos or not gs:
        return False
    g, i = pos[a % len(pos)]
    G = gs[a % len(gs)]
    r = g['recs'][i]
    segs = r.split('.')
    frec = foreign[b % len(foreign)].jws
    evil = EVIL[b // 3 % len(EVIL)]

    def sub(k, v):
        segs[k] = v
        g['recs'][i] = '.'.join(segs)

    if len(segs) != 3 and kind in ('sig-swap', 'sig-junk', 'malleable',
            'b64tail', 'pad', 'strip-sig', 'resign', 'hmac', 'none', 'field',
            'unsigned-edit', 'revert-chain', 'forge'):
        return False
    if kind == 'flip':
        x = bytearray(r.encode('utf-8'))
        x[b % len(x)] ^= 1 << c % 7
        g['recs'][i] = x.decode('utf-8', 'replace')
    elif kind == 'field':
        g['recs'][i] = edit_payload(r, lambda p: field(p, b, c))
    elif kind == 'unsigned-edit':
        if segs[2] != world.BROKEN_SIG:
            return False
        g['recs'][i] = edit_payload(r, lambda p: field(p, b, c))
    elif kind == 'drop':
        del g['recs'][i:i + 1 + (b % 3 if c % 3 == 0 else 0)]
    elif kind == 'dup':
        h, k = pos[b % len(pos)]
        h['recs'].insert(k, r)
    elif kind == 'swap':
        h, k = pos[b % len(pos)] if c % 2 else pos[(a + 1) % len(pos)]
        g['recs'][i], h['recs'][k] = h['recs'][k], r
    elif kind == 'move':
        del g['recs'][i]
        h = gs[b % len(gs)]
        h['recs'].insert(c % (len(h['recs']) + 1), r)
    elif kind == 'insert-foreign':
        g['recs'].insert(i, frec)
    elif kind == 'replace-foreign':
        g['recs'][i] = frec
    elif kind == 'insert-old':
        if not before:
            return False
        g['recs'].insert(i, before[b % len(before)].jws)
    elif kind == 'strip-sig':
        sub(2, world.BROKEN_SIG)
    elif kind == 'resign':
        d = FX['leaves'][evil]['d']
        sub(2, b64u(simcrypto.sign_raw(d, (segs[0] + '.' + segs[1]).encode())))
    elif kind == 'forge':
        # a receipt of the attacker's own making, chained correctly
        x = redo(frec, r, None, FX['leaves'][evil]['d'])
        g['recs'].insert(i + 1, x)
    elif kind == 'forge-unsigned':
        x = redo(frec, r, None, 1, True)
        g['recs'].insert(i + 1, x)
    elif kind == 'hmac':
        # the public key abused as a shared secret
        src = lib.verify.utils.exportKeyToPEM(model.pub_of(g['dev']))
        src = world.pem(g['cert']) if b % 3 == 0 and g['cert'] else \
            world.pubpem(src)
        head = b64u(b'{"alg":"HS256"}') if c % 2 else segs[0]
        mac = hmac.new(src.encode(), (head + '.' + segs[1]).encode(),
            hashlib.sha256).digest()
        sub(0, head)
        sub(2, b64u(mac))
    elif kind == 'none':
        sub(0, b64u(b'{"alg":"none"}') if c % 2 else segs[0])
        sub(2, '')
    elif kind == 'sig-swap':
        h, k = pos[b % len(pos)]
        o = h['recs'][k].split('.')
        sub(2, o[2] if len(o) == 3 else '')
    elif kind == 'sig-junk':
        raw = unb64u(segs[2]) if model.B64U.match(segs[2]) and \
            len(segs[2]) % 4 != 1 else b''
        sub(2, b64u([b'', bytes(64), b'\x00' * 63 + b'\x01', raw[:-1],
            raw + b'\x00', raw[32:] + raw[:32], b'\xff' * 64][b % 7]))
    elif kind == 'malleable':
        raw = unb64u(segs[2]) if len(segs[2]) == 86 else b''
        if len(raw) != 64 or segs[2] == world.BROKEN_SIG:
            return False
        s = simcrypto.N - int.from_bytes(raw[32:], 'big')
        sub(2, b64u(raw[:32] + s.to_bytes(32, 'big')))
    elif kind == 'b64tail':
        k = b % 3
        if not segs[k] or len(segs[k]) % 4 not in (2, 3):
            return False
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz' \
            '0123456789-_'
        if segs[k][-1] not in al:
            return False
        sub(k, segs[k][:-1] + al[al.index(segs[k][-1]) ^ 1])
    elif kind == 'pad':
        # characters that a lenient decoder skips
        k = b % 3
        if b // 9 % 2:
            g, i = pos[-1]
            segs = g['recs'][i].split('.')
            k = min(k, len(segs) - 1)
        x = ['\n', ' ', '\r\n', '\t', '\x00', '\u00a0', '\u2028', '=', '\x0b',
            '\ufeff'][c % 10 if c % 3 else 0]
        m = len(segs[k]) if (b // 3) % 3 else a % (len(segs[k]) + 1)
        sub(k, segs[k][:m] + x + segs[k][m:])
    elif kind == 'revert-chain':
        # chained to the receipt before the last one, signature kept
        h, k = pos[b % len(pos)]
        g['recs'][i] = edit_payload(r, lambda p: p.__setitem__(-1,
            world.chain_value(h['recs'][k], p[2] if len(p) > 2 else '')))
    # ---- certificates
    elif kind == 'cert-evil':
        dev = TWIN.get(G['dev'], evil)
        G['cert'] = world.cert_of(dev)
        if c % 2:
            G['chain'] = evil_chain(dev, G['chain'], c // 2)
    elif kind == 'cert-other':
        G['cert'] = world.cert_of((world.OPEN_LEAVES + ['rootR', 'rootE',
            'rootA'])[b % 13])
        if c % 2:
            G['chain'] = []
    elif kind == 'cert-reissue':
        if G['dev'] != 'L1':
            return False
        G['cert'] = world.cert_of('R1')
    elif kind == 'cert-damage':
        G['cert'] = damage64(G['cert'], b, c)
    elif kind == 'cert-drop':
        G['cert'], G['chain'] = '', []
    elif kind == 'chain-drop':
        G['chain'] = []
    elif kind == 'chain-cut':
        G['chain'] = G['chain'][:-1] if c % 2 else G['chain'][1:]
    elif kind == 'chain-evil':
        ch = [world.cert_of(x) for x in (['evilInt', 'evilRoot'],
            ['evilRoot'], ['evilInt', 'rootA'], ['evilSub', 'intA', 'rootA'],
            ['evilIntA2', 'intA', 'rootA'], ['evilRootR'], ['rootE'],
            ['evilIntR', 'rootR'])[c % 8]]
        G['chain'] = ch
    elif kind == 'chain-damage':
        if not G['chain']:
            return False
        k = b % len(G['chain'])
        G['chain'][k] = damage64(G['chain'][k], a + c, b)
    elif kind == 'chain-swap':
        G['chain'] = G['chain'][::-1]
    elif kind == 'chain-self':
        G['chain'] = [G['cert']] * (1 + b % 2) + G['chain']
    elif kind == 'chain-bridge':
        # an evil leaf below a genuine, trusted chain
        G['cert'] = world.cert_of(evil)
    elif kind == 'chain-extra':
        G['chain'] = G['chain'] + [world.cert_of(['rootB', 'evilRoot', 'intR'][
            b % 3])]
    elif kind == 'swap-groups':
        k = b % len(gs)
        j = gs.index(G)
        gs[j], gs[k] = gs[k], gs[j]
    elif kind == 'dup-group':
        gs.insert(b % (len(gs) + 1), json.loads(json.dumps(G)))
    elif kind == 'drop-group':
        gs.remove(G)
    elif kind in ('resign-all', 'resign-tail'):
        # the attacker rewrites the journal from here on with his own device
        dev = TWIN.get(G['dev'], evil) if b % 3 else evil
        if ed and a % 2:
            dev = 'E6'             # names the Ed25519 authority as issuer
        d = FX['leaves'][dev]['d']
        start = 0 if kind == 'resign-all' else a % len(pos)
        last = None
        try:
            for n, (h, k) in enumerate(pos):
                x = h['recs'][k]
                if n >= start:
                    if c % 3 == 0 and n == start and n:
                        x = edit_payload(x, lambda p: field(p, 4, c))
                    x = redo(x, last if n else (before[-1].jws if before
                        else None), dev, d)
                    h['recs'][k] = x
                    if certs:
                        m = c % 8
                        if m != 3 and h['cert'] != world.cert_of(dev):
                            h['cert'] = world.cert_of(dev)
                            h['chain'] = evil_chain(dev, h['chain'], c // 8)
                last = x
        except (ValueError, UnicodeDecodeError, IndexError):
            return False
    # ---- no damage
    elif kind == 'split-group':
        if not certs or len(G['recs']) < 2:
            return False
        k = 1 + b % (len(G['recs']) - 1)
        h = dict(G, recs=G['recs'][k:], chain=list(G['chain']))
        G['recs'] = G['recs'][:k]
        gs.insert(gs.index(G) + 1, h)
    elif kind == 'cut-end':
        n = b % len(pos)
        for g, i in reversed(pos[len(pos) - n:]):
            del g['recs'][i]
    else:
        raise InvalidPlan(kind)
    return True


# ---------------------------------------------------------------- the oracle

_certs = {}


def load(b):
    if b not in _certs:
        try:
            c = x509.load_der_x509_certificate(base64.b64decode(b),
                default_backend())
            _certs[b] = (c, c.public_key())
        except Exception:
            _certs[b] = None
        if len(_certs) > 5000:
            _certs.clear()
            return load(b)
    return _certs[b]


_links = {}


def issued(b, issuer):
    k = (b, issuer)
    if k not in _links:
        if len(_links) > 5000:
            _links.clear()
        x, y = load(b), load(issuer)
        ok = False
        if x and y:
            try:
                if isinstance(y[1], ec.EllipticCurvePublicKey):
                    y[1].verify(x[0].signature, x[0].tbs_certificate_bytes,
                        ec.ECDSA(x[0].signature_hash_algorithm))
                else:
                    y[1].verify(x[0].signature, x[0].tbs_certificate_bytes,
                        padding.PKCS1v15(), x[0].signature_hash_algorithm)
                ok = True
            except Exception:
                ok = False
        _links[k] = ok
    return _links[k]


def der(b):
    try:
        return base64.b64decode(b)
    except Exception:
        return None


def trusted(cert, chain, store):
    """An unbroken chain of signatures to a certificate of the store?"""
    path = [cert] + list(chain)
    for k, x in enumerate(path):
        if der(x) in store:
            return True
        if k + 1 < len(path) and not issued(x, path[k + 1]):
            return False
    return False


def content(jws):
    try:
        h, p, s = jws.split('.')
        return unb64u(h), unb64u(p), unb64u(s)
    except Exception:
        return None, None, None


def is_unsigned(jws):
    return content(jws)[2] == world.BROKEN.encode()


def check_accepted(gs, candidates, store_names, ctx):
    """The journal was accepted; was it right?"""
    flat = [r for g in gs for r in g['recs']]
    for k, r in enumerate(flat):
        if len(r.split('.')) != 3 or not all(model.B64U.match(x) for x in
                r.split('.')):
            raise Violation('damage-accepted', 'receipt %d holds characters '
                'that no JWS has: %r' % (k, r))
    signed = [k for k, r in enumerate(flat) if not is_unsigned(r)]
    last = signed[-1] if signed else -1
    for own in candidates:
        if last >= len(own):
            continue
        if all(flat[k] == own[k] for k in range(last)) and (last < 0 or
                content(flat[last])[:2] == content(own[last])[:2]):
            break
    else:
        k = next((k for k in range(len(flat)) if k >= len(candidates[0]) or
            flat[k] != candidates[0][k]), len(flat))
        raise Violation('tampered-accepted', 'a journal that is not the '
            'register\'s own was accepted; it differs from receipt %d on, '
            'the last signed receipt is number %d' % (k, last))
    der_store = {der(world.cert_of(n)) for n in store_names
        if n not in FX['closed']}
    keys = [model.pub_of(n) for n in store_names if n in FX['closed'] or
        n in FX['leaves']]
    k = -1
    for g in gs:
        # several verifiers in one group need the same certificate
        pub = None
        if g['cert']:
            x = load(g['cert'])
            pub = [x[1]] if x and isinstance(x[1], ec.EllipticCurvePublicKey) \
                else []
        for r in g['recs']:
            k += 1
            if is_unsigned(r):
                continue
            if g['cert'] and not trusted(g['cert'], g['chain'], der_store):
                raise Violation('untrusted-accepted', 'receipt %d belongs to '
                    'a certificate without a chain to the key store' % k)
            h, p, s = content(r)
            o = model.R()
            o.si, o.sig = (b64u(h) + '.' + b64u(p)).encode(), s
            if not any(model.sig_ok(o, q) for q in (pub if pub is not None
                    else keys)):
                raise Violation('bad-signature-accepted', 'receipt %d has no '
                    'valid signature of a trusted device' % k)


def run(plan, ctx):
    cp = plan['case']
    c = case.Case(cp)
    if cp['trust'] == 'nobody' or cp['trust'] == 'other':
        c.store = ['L3', 'intR', 'K5'] if cp['trust'] == 'other' else []
        c.store = [x for x in c.store if x not in c.devs]
        trust_ok = not cp['certs'] and False
    else:
        trust_ok = True
    if plan.get('edtrust'):
        c.store = c.store + ['rootE']
    ctx.probe('trust:' + cp['trust'])
    ks = lib.keystore(c.store)
    good = lib.keystore(case.store_names(c.devs, 'leaf'))
    state = lib.new_state()
    if c.prior and not cp['j']['closed']:
        raise InvalidPlan('cluster of open systems')
    for recs in c.prior:
        state = lib.verify.verifyDEP(c.dep(recs), good, None, state)
        ctx.probe('cluster')
    foreign = world.RefRegister(plan['foreign'])
    foreign.run(plan['foreign']['ops'])
    recs, before, idx = c.recs, [], None
    if 0 < cp['seg'] < len(recs):
        idx = len(c.prior)
        before, recs = recs[:cp['seg']], recs[cp['seg']:]
        o = call(lib.verify.verifyDEP, c.dep(before), good, c.key, state)
        if not o.ok:
            raise Violation('rejected-genuine', 'first session: %r' % o)
        state = o.value
        ctx.probe('resumed')
    gs = []
    for g in c.dep(recs)['Belege-Gruppe']:
        gs.append({'cert': g['Signaturzertifikat'], 'chain':
            list(g['Zertifizierungsstellen']), 'recs': g['Belege-kompakt'],
            'dev': ''})
    for g, m in zip(gs, c.groups(recs)):
        g['dev'] = m['dev']
    harmless = True
    for at in plan['attacks']:
        try:
            done = apply(at[0], at[1], at[2], at[3], gs, recs, foreign.recs,
                before, cp['certs'], plan.get('edtrust'))
        except (ValueError, OverflowError):
            done = True            # an earlier fault made the receipt unusable
            harmless = False
        if done:
            ctx.fault(at[0])
            if at[0] not in HARMLESS:
                harmless = False
    dep = {'Belege-Gruppe': [{'Signaturzertifikat': g['cert'],
        'Zertifizierungsstellen': g['chain'], 'Belege-kompakt': g['recs']}
        for g in gs]}
    n = sum(len(g['recs']) for g in gs)
    ctx.nontrivial = len(recs) > 1 and bool(ctx.faults)
    ctx.log(json.dumps([at[0] for at in plan['attacks']]), n, plan['via'],
        plan['chunk'], cp['trust'], idx,
        hashlib.sha256(json.dumps(dep).encode()).hexdigest()[:12])
    ctx.steps += n
    if plan['via'] == 'dict':
        o = call(lib.verify.verifyDEP, json.loads(json.dumps(dep)), ks, c.key,
            state, idx)
    else:
        pool = None
        nprocs = max(1, plan['nprocs'])
        if plan['via'] == 'pool':
            pool = simpool.SimPool(2, ctx=ctx, dec=simpool.Decider(
                plan['sched'], ctx))
        if dep['Belege-Gruppe']:
            text = deprender.render(dep, plan['layout'])
        else:
            text = json.dumps(dep)
        sp = dict(plan['stream'], seek=True)
        if sp.get('buf', 1) < 1:
            raise InvalidPlan('buffer')
        p = lib.parser_for('file', text, sp, ctx)
        o = call(lib.verify.verifyParsedDEP, p, ks, c.key, state, idx, pool,
            nprocs, plan['chunk'])
    ctx.log(o.name)
    if o.ok:
        ctx.probe('accepted')
        own = [r.jws for r in recs]
        cands = [own]
        if not before and not c.prior:
            cands.append([r.jws for r in foreign.recs])
        check_accepted(gs, cands, c.store, ctx)
        if harmless:
            ctx.probe('accepted-genuine')
            if ctx.faults:
                ctx.probe('accepted-harmless')
            if cp['certs'] and cp['trust'] in ('top', 'mid') and any(
                    g['chain'] for g in gs):
                ctx.probe('accepted-unchanged-chain')
        else:
            ctx.probe('accepted-damaged')
        return
    ctx.probe('rejected')
    if not isinstance(o.exc, lib.verify.utils.RKSVException):
        raise Violation('undocumented-error', '%r\n%s' % (o, o.tb[-1500:]))
    if harmless and trust_ok and n and gs[0]['recs']:
        raise Violation('rejected-genuine', '%r\n%s' % (o, o.tb[-800:]))
