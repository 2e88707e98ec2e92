"""C08: damaged, truncated or unreadable DEPs, key stores and states end in a
documented error, never in silent acceptance, an internal error or a hang."""
import base64
import json

from .. import case, core, deprender, lib, simio, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 40000, 'thorough': 250000}
FROZEN = ()
RULE = ('A run takes one valid DEP, key store or saved state, damages it '
    '(truncation, flipped, deleted, repeated or inserted bytes, elements of '
    'other types, missing, duplicated or nested elements, damaged receipt '
    'strings and certificates) or lets a read fail, and loads it with every '
    'parser and verifier that applies. Non-trivial: the damage changed the '
    'bytes or a read failed.')
REAL = ['librksv.depparser', 'librksv.key_store', 'librksv.verification_state',
    'librksv.verify', 'librksv.receipt', 'librksv.utils', 'ijson', 'json']
STUB = ['files and pipes (simulated streams with seeded short reads and read '
    'errors)']
ASSUME = ['a read error of the operating system may surface as itself '
    '(OSError)', 'a text stream that cannot be decoded may surface as '
    'UnicodeDecodeError where the caller decodes it, i.e. in json loading '
    'outside the DEP parsers']
SEARCH = 'truncation points, byte and element damage and read errors'
ORACLE = ('the documented exception hierarchy, an independent JSON reading of '
    'the damaged bytes and the prefix order of receipts')
NOTE = 'Samples damage; a violation it reports is real.'
MUST_HIT = ['truncated', 'bytes', 'element', 'EIO-read', 'rejected',
    'keystore', 'state', 'dep', 'still-valid', 'bad-key', 'no-key']

JUNK = [None, True, False, 0, -1, 1.5, '', 'x', [], {}, [[]], [None], ['x'],
    [1], {'a': 1}, '\u0000', '\ud800', 'AAAA', 1e400, 10**30, [{}]]
ODD_IDS = ['', '-', ' ', 'x%s', '-%s', '--%s', '0x%s', '\u0000', '\ud800',
    '\u0661', '%s.', 'S:1', '%.3s']


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8])
    j = world.gen_journal(rng, n)
    what = rng.choice(['dep', 'dep', 'dep', 'dep', 'keystore', 'state', 'state'])
    mode = rng.choice(['truncate', 'truncate', 'bytes', 'bytes', 'element',
        'element', 'element', 'receipt', 'cert', 'eio', 'empty', 'twice'])
    return {'j': j, 'what': what, 'mode': mode,
        'layout': deprender.gen_layout(rng), 'nocerts': rng.random() < 0.2,
        'dmg': [[rng.randrange(10**6) for _ in range(4)] for _ in range(
            rng.choice([1, 1, 1, 2, 3]))],
        'chunk': rng.choice([0, 1, 2, 3, 1000]),
        'nparts': rng.choice([1, 2, 3]),
        'streams': [simio.gen_stream_plan(rng) for _ in range(3)],
        'eio': rng.randrange(40),
        # kinds of registers in a damaged state
        'regs': [rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 3]))]}


def paths(v, p=()):
    out = [p]
    if isinstance(v, list):
        for i, x in enumerate(v):
            out += paths(x, p + (i,))
    elif isinstance(v, dict):
        for k in sorted(v):
            out += paths(v[k], p + (k,))
    return out


def near(v, n):
    """A value of another type that looks much like v."""
    if isinstance(v, bool):
        c = [int(v), str(v).lower(), None]
    elif isinstance(v, int):
        c = [0.5, 1.0, '%x' % v, [v], None] if abs(v) > 1 << 60 else [
            v + 0.5, float(v), str(v), [v], None, bool(v)]
    elif v is None:
        c = ['None', False, 0, []]
    elif isinstance(v, str):
        c = [list(v[:3]), None, {v[:9]: v}, len(v), 
            v.encode('utf-8', 'surrogatepass').hex(), False]
    elif isinstance(v, list):
        c = [{str(i): x for i, x in enumerate(v)}, v[0] if v else None,
            [v], None, '']
    elif isinstance(v, float):
        c = [str(v), [v], None]
    else:
        c = [list(v.values()), list(v), [[k, x] for k, x in v.items()], None]
    return c[n % len(c)]


def edit(doc, dmg):
    """Replace, drop, duplicate or move one element."""
    doc = json.loads(json.dumps(doc))
    ps = paths(doc)
    p = ps[dmg[0] % len(ps)]
    if dmg[3] % 3:
        # each kind of element as often as the others
        kinds = {}
        for q in ps:
            kinds.setdefault(tuple(k if isinstance(k, str) else 0 for k in q),
                []).append(q)
        ks = sorted(kinds, key=repr)
        c = kinds[ks[dmg[3] % len(ks)]]
        p = c[dmg[0] % len(c)]
    if not p:
        return JUNK[dmg[1] % len(JUNK)]
    cur = doc
    for k in p[:-1]:
        cur = cur[k]
    k = p[-1]
    m = dmg[2] % 5
    if len(p) == 2 and p[0] == 'certificateOrPublicKeyMap' and \
            isinstance(cur, dict) and m in (0, 3):
        # another ID, inside and outside
        e = cur.pop(k)
        o = ODD_IDS[dmg[1] % len(ODD_IDS)]
        k = o % k if '%' in o else o
        cur[k] = dict(e, id=k) if isinstance(e, dict) else e
        return doc
    if m <= 1:
        cur[k] = near(cur[k], dmg[1] // 4) if dmg[1] % 4 == 0 else \
            JUNK[dmg[1] % len(JUNK)]
    elif m == 2:
        del cur[k]
    elif m == 3:
        if isinstance(cur, list):
            cur.insert(k, JUNK[dmg[1] % len(JUNK)])
        else:
            cur['Belege-kompakt'] = cur[k]
    else:
        cur[k] = [cur[k]]
    return doc


def damage_bytes(b, dmg):
    b = bytearray(b)
    if not b:
        return b''
    i = dmg[0] % len(b)
    m = dmg[2] % 6
    if m == 0:
        b[i] ^= 1 << dmg[1] % 8
    elif m == 1:
        b[i] = (b'{}[]",:\\ \xff\xc3\x00e-0'[dmg[1] % 15])
    elif m == 2:
        del b[i:i + 1 + dmg[1] % 9]
    elif m == 3:
        b[i:i] = b[i:i + 1 + dmg[1] % 40]
    elif m == 4:
        b[i:i + 512] = bytes(len(b[i:i + 512]))
    else:
        b[i:i] = bytes([dmg[1] % 256])
    return bytes(b)


def documented(exc):
    return isinstance(exc, lib.verify.utils.RKSVException)


def run(plan, ctx):
    reg = world.RefRegister(plan['j'])
    recs = reg.run(plan['j']['ops'])
    if not recs:
        raise InvalidPlan('no receipts')
    ctx.probe(plan['what'])
    if plan['what'] == 'dep':
        run_dep(plan, ctx, recs)
    else:
        run_json(plan, ctx, recs)


def apply(plan, ctx, doc, render):
    """Returns (bytes, changed, is_prefix)."""
    mode = plan['mode']
    good = render(doc)
    if mode == 'truncate':
        ctx.fault('truncated')
        # a journal's JSON text is complete only with its last brace
        end = len(good.rstrip(b' \n'))
        cut = plan['dmg'][0][0] % end if plan['dmg'] else 0
        return good[:cut], True, True
    if mode == 'empty':
        ctx.fault('truncated')
        return [b'', b' \n', b'\xef\xbb\xbf', b'{', b'null'][
            (plan['dmg'] or [[0]])[0][0] % 5], True, True
    if mode == 'bytes':
        b = good
        for d in plan['dmg']:
            b = damage_bytes(b, d)
        ctx.fault('bytes')
        return b, b != good, False
    if mode == 'twice':
        doc = edit_twice(doc, (plan['dmg'] or [[0] * 4])[0])
        b = render(doc).replace(b'#again"', b'"')
        ctx.fault('element')
        return b, b != good, False
    if mode in ('element', 'receipt', 'cert'):
        for d in plan['dmg']:
            doc = (edit if mode == 'element' else globals()['edit_' + mode])(
                doc, d)
        ctx.fault('element')
        b = render(doc)
        return b, b != good, False
    return good, False, False


def edit_receipt(doc, d):
    doc = json.loads(json.dumps(doc))
    rs = [(g, i) for g in doc.get('Belege-Gruppe', []) if isinstance(g, dict)
        for i in range(len(g.get('Belege-kompakt', [])))]
    for r in doc.get('cashRegisters', []):
        for k in ('startReceiptJWS', 'lastReceiptJWS'):
            if isinstance(r.get(k), str):
                r[k] = damage_str(r[k], d)
    if rs:
        g, i = rs[d[0] % len(rs)]
        g['Belege-kompakt'][i] = damage_str(g['Belege-kompakt'][i], d)
    return doc


def edit_twice(doc, d):
    """An element of a DEP that occurs twice."""
    doc = json.loads(json.dumps(doc))
    gs = doc.get('Belege-Gruppe')
    if not gs:
        return doc
    k = (deprender.G + ('Belege-Gruppe',))[d[0] % 4]
    o = doc if k == 'Belege-Gruppe' else gs[d[1] % len(gs)]
    v = o[k]
    if d[2] % 3 == 1:
        v = '' if isinstance(v, str) else []
    elif d[2] % 3 == 2 and isinstance(v, list):
        v = v[:1]
    o[k + '#again'] = v
    return doc


def damage_str(s, d):
    if not isinstance(s, str):
        return s
    i = d[1] % (len(s) + 1)
    m = d[2] % 9
    if m == 0:
        return s[:i]
    if m == 1:
        return s[:i] + '.' + s[i:]
    if m == 2:
        return s[:i] + '\u20ac' + s[i + 1:]
    if m == 3:
        return s[:i] + s[i + 1:]
    if m == 4:
        return s.replace('.', '', 1)
    if m == 5:
        return s[:i] + 'A' + s[i + 1:]
    if m == 6:
        return s[:i] + ['=', ' ', '\n', '+', '/', '_', '-', '\x00'][
            d[3] % 8] + s[i:]
    if m == 7:
        # a payload that is no text
        p = s.split('.')
        if len(p) > 1:
            p[d[3] % len(p)] = ['_-8', 'AA', '', 'wyg', '___', 'X19f'][i % 6]
        return '.'.join(p)
    return s * 2


def edit_cert(doc, d):
    doc = json.loads(json.dumps(doc))
    bad = ['AAAA', '!', '', ' ', 'MIIB', '\u20ac', 'A' * 100]
    if 'certificateOrPublicKeyMap' in doc:
        for k in sorted(doc['certificateOrPublicKeyMap']):
            e = doc['certificateOrPublicKeyMap'][k]
            if isinstance(e, dict) and isinstance(
                    e.get('signatureCertificateOrPublicKey'), str):
                e['signatureCertificateOrPublicKey'] = damage_str(
                    e['signatureCertificateOrPublicKey'], d) if d[3] % 2 else \
                    bad[d[1] % len(bad)]
                break
        return doc
    gs = [g for g in doc.get('Belege-Gruppe', []) if isinstance(g, dict)]
    if gs:
        g = gs[d[0] % len(gs)]
        c = g.get('Zertifizierungsstellen')
        if c and d[3] % 3 == 0:
            c[d[1] % len(c)] = bad[d[1] % len(bad)]
        elif isinstance(g.get('Signaturzertifikat'), str):
            g['Signaturzertifikat'] = damage_str(g['Signaturzertifikat'], d) \
                if d[3] % 2 else bad[d[1] % len(bad)]
    return doc


def flatten(chunks):
    return [r for ch in chunks for recs, c, cs in ch for r in recs]


def run_dep(plan, ctx, recs):
    dep = world.dep_dict(world.groups_of(recs), not plan['nocerts'])
    lay = plan['layout']

    def render(doc):
        try:
            if isinstance(doc, dict) and isinstance(doc.get('Belege-Gruppe'),
                    list) and plan['mode'] not in ('element', 'receipt',
                    'cert', 'twice'):
                return deprender.render(doc, lay).encode('utf-8')
            return json.dumps(reorder(doc, lay), indent=lay.get('indent') or
                None).encode()
        except UnicodeEncodeError:
            raise InvalidPlan('surrogate')
    data, changed, prefix = apply(plan, ctx, dep, render)
    ctx.nontrivial = changed
    ctx.log(plan['mode'], len(data), changed)
    orig = [r.jws.encode() for r in recs]
    # how an independent reader sees the damaged bytes
    try:
        doc = json.loads(data.decode('utf-8-sig'))
        valid_json = True
    except (ValueError, RecursionError):
        doc, valid_json = None, False
    if prefix and valid_json and doc not in (None, ) and isinstance(doc, dict):
        raise core.HarnessError('truncated text is complete')
    runs = []
    chunk, nparts = plan['chunk'], plan['nparts']
    eio = None
    if plan['mode'] == 'eio':
        eio = 1 + plan['eio']
    P = lib.depparser

    def open_(k, seek):
        sp = dict(plan['streams'][k % len(plan['streams'])] if plan['streams']
            else {'kind': 'text', 'buf': 100}, seek=seek, eio=eio)
        if sp.get('buf', 1) < 1:
            raise InvalidPlan('buffer')
        return simio.open_stream(data, sp, ctx), sp

    for k, kind in enumerate(['file', 'stream', 'certless', 'full', 'dict',
            'verify']):
        eio_before = ctx.faults.get('EIO-read', 0)
        if kind == 'dict':
            if not valid_json or eio:
                continue
            o = call(lambda: flatten(P.DictDEPParser(doc, nparts).parse(chunk)))
        elif kind == 'verify':
            ks = lib.keystore([d for d in plan['j']['devs']])
            fd, _ = open_(k, True)
            o = call(lambda: lib.verify.verifyParsedDEP(
                P.IncrementalDEPParser.fromFd(fd, True), ks, None, None, None,
                None, 1, chunk))
        else:
            fd, sp = open_(k, kind in ('file', 'full'))

            def load():
                if kind == 'full':
                    p = P.FullFileDEPParser(fd, nparts)
                else:
                    p = P.IncrementalDEPParser.fromFd(fd, kind != 'certless')
                return flatten(p.parse(chunk))
            o = call(load)
        failed_read = ctx.faults.get('EIO-read', 0) > eio_before
        ctx.log(kind, o.name)
        if o.ok:
            if failed_read:
                raise Violation('accepted-unreadable', '%s parser accepted a '
                    'DEP although reading it failed' % kind)
            if plan['mode'] == 'twice' and changed and kind in ('file',
                    'stream', 'certless', 'verify'):
                raise Violation('accepted-repeated', '%s parser accepted a '
                    'DEP with an element that occurs twice' % kind)
            if prefix:
                raise Violation('accepted-truncated', '%s parser accepted a '
                    'truncated DEP as complete' % kind)
            if not changed and kind != 'verify' and o.value != orig:
                raise Violation('wrong-receipts', '%s parser' % kind)
            if changed and kind != 'verify':
                ctx.probe('still-valid')
                # delivered receipts must be exactly those of the text
                if valid_json and not dup_keys(data):
                    bad = dep_form(doc)
                    if bad:
                        raise Violation('accepted-malformed', '%s parser: %s'
                            % (kind, bad))
                    w = expected(doc)
                    if w is not None and o.value != w:
                        raise Violation('wrong-receipts', '%s parser delivers '
                            'other receipts than the text has' % kind)
            continue
        ctx.probe('rejected')
        if isinstance(o.exc, OSError) and failed_read:
            continue
        if failed_read and documented(o.exc):
            continue
        if not documented(o.exc):
            raise Violation('undocumented-error', '%s of %s: %s\n%s' % (kind,
                plan['mode'], o.exc.__class__.__name__, o.tb[-1500:]))
        if not changed and not failed_read:
            if kind == 'verify':
                if plan['nocerts'] or plan['j']['closed']:
                    continue
                raise Violation('rejected-good', '%r\n%s' % (o, o.tb))
            if kind in ('stream', 'certless') and (lay.get('bom') or
                    kind == 'stream'):
                continue                  # documented limits of pipes
            raise Violation('rejected-good', '%s: %r\n%s' % (kind, o, o.tb))


def reorder(doc, lay):
    """The elements of groups in another order."""
    if not isinstance(doc, dict) or not isinstance(doc.get('Belege-Gruppe'),
            list):
        return doc
    order = lay.get('order') or [0]
    out = []
    for i, g in enumerate(doc['Belege-Gruppe']):
        if isinstance(g, dict):
            ks = [deprender.G[k] for k in deprender.ORDERS[
                order[i % len(order)] % 6]]
            g = {k: g[k] for k in [k for k in ks if k in g] +
                [k for k in g if k not in ks]}
        out.append(g)
    return dict(doc, **{'Belege-Gruppe': out})


def dep_form(doc):
    """What is wrong with the elements of a DEP, if anything."""
    if not isinstance(doc, dict) or not isinstance(doc.get('Belege-Gruppe'),
            list):
        return 'no groups'
    n = 0
    for i, g in enumerate(doc['Belege-Gruppe']):
        if not isinstance(g, dict):
            return 'group %d is no object' % i
        for k, t in (('Signaturzertifikat', str), ('Belege-kompakt', list),
                ('Zertifizierungsstellen', list)):
            if k not in g:
                return '%s of group %d missing' % (k, i)
            if not isinstance(g[k], t):
                return '%s of group %d is %r' % (k, i, g[k])
            if t is list:
                for x in g[k]:
                    if not isinstance(x, str):
                        return '%s of group %d has %r' % (k, i, x)
        n += len(g['Belege-kompakt'])
    if not n:
        return 'no receipts'


def state_form(d):
    if not isinstance(d, dict) or not isinstance(d.get('cashRegisters'), list):
        return 'no registers'
    for i, r in enumerate(d['cashRegisters']):
        if not isinstance(r, dict):
            return 'register %d is no object' % i
        for k, t in (('startReceiptJWS', (str, type(None))),
                ('lastReceiptJWS', (str, type(None))),
                ('chainNextTo', (str, type(None))),
                ('lastTurnoverCounter', int), ('needRestoreReceipt', bool)):
            if k not in r:
                return '%s of register %d missing' % (k, i)
            if not isinstance(r[k], t) or (t is int and
                    isinstance(r[k], bool)):
                return '%s of register %d is %r' % (k, i, r[k])
    u = d.get('usedReceiptIds')
    if not isinstance(u, dict):
        return 'no used receipt IDs'
    b = u.get('backendData')
    if u.get('backendType') == 'USED_RECEIPT_IDS_UNIQUE':
        if not isinstance(b, list) or not all(isinstance(x, str) for x in b):
            return 'record of IDs %r' % (b,)
    elif u.get('backendType') == 'USED_RECEIPT_IDS_SORTED_NATURAL':
        if not isinstance(b, dict):
            return 'record of IDs %r' % (b,)
        for k in ('minId', 'maxId'):
            if k not in b or not isinstance(b[k], (str, type(None))):
                return '%s %r' % (k, b.get(k))
    else:
        return 'kind of record %r' % (u.get('backendType'),)


def store_form(d):
    if not isinstance(d, dict) or not isinstance(d.get(
            'certificateOrPublicKeyMap'), dict):
        return 'no map'
    for k, e in d['certificateOrPublicKeyMap'].items():
        if not isinstance(e, dict):
            return 'entry %s is no object' % k
        if e.get('id') != k:
            return 'entry %s has ID %r' % (k, e.get('id'))
        if e.get('signatureDeviceType') not in ('CERTIFICATE', 'PUBLIC_KEY'):
            return 'entry %s has type %r' % (k, e.get('signatureDeviceType'))
        if not isinstance(e.get('signatureCertificateOrPublicKey'), str):
            return 'entry %s has key %r' % (k, e.get(
                'signatureCertificateOrPublicKey'))


def dup_keys(data):
    """Does any object of the text repeat a key?"""
    dup = []

    def hook(pairs):
        ks = [k for k, _ in pairs]
        if len(set(ks)) != len(ks):
            dup.append(1)
        if any('.' in k for k in ks):
            dup.append(1)
        return dict(pairs)
    try:
        json.loads(data.decode('utf-8-sig'), object_pairs_hook=hook)
    except (ValueError, RecursionError):
        return True
    return bool(dup)


def expected(doc):
    try:
        return [r.encode('utf-8') for g in doc['Belege-Gruppe']
            for r in g['Belege-kompakt']]
    except Exception:
        return None


def aes_key(j, changed, ctx):
    """The key of the turnover counters, which key stores also hold."""
    o = call(lib.verify.utils.loadKeyFromJson, j)
    ctx.log('key', o.name)
    if isinstance(j, dict) and 'base64AESKey' not in j:
        if not o.ok or o.value is not None:
            raise Violation('wrong-key', 'no key became %r' % o)
        ctx.probe('no-key')
        return
    text = j['base64AESKey'] if isinstance(j, dict) else None
    try:
        want = base64.b64decode(text.rstrip('\r\n'), validate=True)
    except (ValueError, AttributeError):
        want = None
    if not o.ok:
        if not isinstance(o.exc, lib.verify.utils.InvalidKeyException):
            raise Violation('undocumented-error', 'key %r: %r\n%s' % (text, o,
                o.tb))
        if want is not None:
            raise Violation('rejected-good', 'key %r: %r' % (text, o))
        ctx.probe('bad-key')
    elif o.value is None:
        raise Violation('accepted-malformed', 'the key %r is ignored' % (text,))
    elif want is not None and o.value != want:
        raise Violation('wrong-key', '%r became %r' % (text, o.value))
    elif not isinstance(text, str):
        raise Violation('accepted-malformed', 'key %r' % (text,))


def run_json(plan, ctx, recs):
    """Key stores and saved states."""
    if plan['what'] == 'keystore':
        doc = world.store_json(list(dict.fromkeys(plan['j']['devs'] +
            ['rootA', 'K1', 'L2'])), 1)
        load = lib.key_store.KeyStore.readStoreFromJson
        base = lib.key_store.KeyStoreException
    else:
        st = lib.new_state()
        st.addNewCashRegister()
        reg = {'startReceiptJWS': recs[0].jws, 'lastReceiptJWS': recs[-1].jws,
            'lastTurnoverCounter': 5, 'needRestoreReceipt': False,
            'chainNextTo': None}
        new = dict(reg, startReceiptJWS=None, lastReceiptJWS=None,
            lastTurnoverCounter=0)
        kinds = [reg, new, dict(new, chainNextTo='AAAA'),
            # from an arbitrary receipt
            dict(reg, startReceiptJWS=None, chainNextTo='AAAAAAAAAAA='),
            dict(reg, needRestoreReceipt=True),
            dict(reg, lastReceiptJWS=recs[0].jws, lastTurnoverCounter=0)]
        doc = {'cashRegisters': [dict(kinds[k % 6]) for k in plan['regs']],
            'usedReceiptIds': {'backendType': 'USED_RECEIPT_IDS_UNIQUE',
                'backendData': [r.rid for r in recs]}}
        if plan['nocerts']:
            doc['usedReceiptIds'] = {'backendType':
                'USED_RECEIPT_IDS_SORTED_NATURAL', 'backendData':
                {'minId': 'a', 'maxId': 'b'}}
        load = lib.verification_state.ClusterState.readStateFromJson
        base = lib.verification_state.StateException

    def render(d):
        try:
            return json.dumps(d, indent=plan['layout'].get('indent') or None
                ).encode('utf-8')
        except UnicodeEncodeError:
            raise InvalidPlan('surrogate')
    data, changed, prefix = apply(plan, ctx, doc, render)
    ctx.nontrivial = changed
    sp = dict(plan['streams'][0] if plan['streams'] else {'buf': 64},
        seek=True, eio=1 + plan['eio'] if plan['mode'] == 'eio' else None,
        kind='text')
    fd = simio.open_stream(data, sp, ctx)
    o = call(lib.verify.utils.readJsonStream, fd)
    failed_read = ctx.faults.get('EIO-read', 0) > 0
    ctx.log(plan['what'], plan['mode'], o.name)
    if not o.ok:
        if isinstance(o.exc, OSError) and failed_read:
            return
        if not isinstance(o.exc, ValueError):
            raise Violation('undocumented-error', 'reading JSON: %r\n%s' % (o,
                o.tb))
        return
    if failed_read:
        raise Violation('accepted-unreadable', 'JSON')
    j = o.value
    if prefix and isinstance(j, dict):
        raise Violation('accepted-truncated', 'JSON')
    if plan['what'] == 'keystore':
        aes_key(j, changed, ctx)
    o = call(load, j)
    ctx.log('load', o.name)
    if o.ok:
        if prefix:
            raise Violation('accepted-truncated', plan['what'])
        if changed:
            ctx.probe('still-valid')
        bad = (state_form if plan['what'] == 'state' else store_form)(j)
        if bad:
            raise Violation('accepted-malformed', '%s: %s' % (plan['what'],
                bad))
        # what was loaded must be what the text says
        if plan['what'] == 'state':
            w = lib.norm_state(o.value)
            for g, x in zip(w['cashRegisters'], j['cashRegisters']):
                for k in g:
                    if g[k] != x.get(k):
                        raise Violation('wrong-state', '%s: %r became %r' % (k,
                            x.get(k), g[k]))
            if len(w['cashRegisters']) != len(j['cashRegisters']):
                raise Violation('wrong-state', 'number of registers')
        else:
            orig = doc['certificateOrPublicKeyMap']
            for k, e in j['certificateOrPublicKeyMap'].items():
                if orig.get(k) != e:
                    continue
                want = e['signatureCertificateOrPublicKey']
                if e['signatureDeviceType'] == 'CERTIFICATE':
                    c = o.value.getCert(k)
                    got = c and lib.verify.utils.exportCertToPEM(c)
                else:
                    c = o.value.getKey(k)
                    got = c and lib.verify.utils.exportKeyToPEM(c)
                if got != want:
                    raise Violation('wrong-store', '%s is %r, should be %r' % (
                        k, got, want))
        return
    ctx.probe('rejected')
    if not changed:
        raise Violation('rejected-good', '%r\n%s' % (o, o.tb))
    if not isinstance(o.exc, base):
        raise Violation('undocumented-error', 'loading a %s: %r\n%s' % (
            plan['what'], o, o.tb[-1200:]))
