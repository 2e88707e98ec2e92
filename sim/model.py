"""Executable reference model of the RKSV journal rules (written from the
regulation and the documentation, not from librksv). For every receipt it
computes the *set* of violated rules, so no particular order of checks is
assumed."""
import base64
import datetime
import hashlib
import re

from cryptography.exceptions import InvalidSignature
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from . import world
from .world import FX, BROKEN_SIG, HEADER, ctr, unb64u

_pub = {}


def pub_of(name):
    if name not in _pub and name in FX['cas']:
        _pub[name] = x509.load_der_x509_certificate(base64.b64decode(
            FX['cas'][name]['cert']), default_backend()).public_key()
    if name not in _pub:
        d = (FX['closed'].get(name) or FX['leaves'][name])['d']
        _pub[name] = ec.derive_private_key(d, ec.SECP256R1(),
            default_backend()).public_key()
    return _pub[name]


class Bad(Exception):
    def __init__(self, *names):
        self.names = set(names)


B64U = re.compile(r'[A-Za-z0-9_-]*\Z')
SUM = re.compile(r'-?(0|[1-9][0-9]*),[0-9][0-9]\Z')
MAL = 'MalformedReceiptException'


def strict_b64(s):
    try:
        return base64.b64decode(s.encode('ascii'), validate=True)
    except Exception:
        raise Bad(MAL)


class R:
    pass


def serial_type(s):
    if s.startswith('-'):
        s = s[1:]
    head, sep, tail = s.partition('-')
    if sep and not re.match(r'[A-Za-z0-9]+\Z', tail):
        return None
    if re.match(r'S:[0-9]{9}\Z', head) or re.match(r'U:[A-Z0-9]{1,14}\Z', head) \
            or re.match(r'G:[0-9]{13}\Z', head):
        return 'id'
    if re.match(r'[0-9A-Fa-f]+\Z', head):
        return 'serial'
    return None


def parse(jws):
    segs = jws.split('.')
    if len(segs) != 3 or not all(B64U.match(s) for s in segs):
        raise Bad(MAL)
    try:
        header, payload = unb64u(segs[0]).decode(), unb64u(segs[1]).decode()
        sig = unb64u(segs[2])
    except Exception:
        raise Bad(MAL)
    f = payload.split('_')
    if len(f) != 13 or f[0]:
        raise Bad(MAL)
    az = f[1].split('-')
    if len(az) != 2 or not re.match(r'R[1-9][0-9]*\Z', az[0]):
        raise Bad(MAL)
    if az[0] != 'R1':
        raise Bad('UnknownAlgorithmException')
    if header != HEADER:
        raise Bad('AlgorithmMismatchException')
    r = R()
    bad = set()
    r.jws, r.zda, r.reg, r.id, r.date = jws, az[1], f[2], f[3], f[4]
    r.serial, r.chain = f[11], f[12]
    r.si = (segs[0] + '.' + segs[1]).encode()
    r.sig = sig
    r.broken = segs[2] == BROKEN_SIG
    if not re.match(r'([A-Z][A-Z][1-9][0-9]*|AT0)\Z', r.zda) or not r.reg \
            or not r.id:
        bad.add(MAL)
    try:
        if not re.match(r'\d{4}-\d\d?-\d\d?T\d\d?:\d\d?:\d\d?\Z', r.date):
            raise ValueError
        r.when = datetime.datetime.strptime(r.date, '%Y-%m-%dT%H:%M:%S')
    except ValueError:
        bad.add(MAL)
    r.cents = 0
    r.null = True
    for s in f[5:10]:
        if not SUM.match(s):
            bad.add(MAL)
            continue
        c = int(s.replace(',', '').replace('-', ''))
        c = -c if s[0] == '-' else c
        r.cents += c
        r.null = r.null and c == 0
    try:
        r.enc = strict_b64(f[10])
        if len(strict_b64(r.chain)) != 8:
            bad.add(MAL)
        if r.enc not in (b'TRA', b'STO') and not 5 <= len(r.enc) <= 16:
            bad.add(MAL)
        r.dummy, r.rev = r.enc == b'TRA', r.enc == b'STO'
    except Bad as e:
        bad |= e.names
    st = serial_type(r.serial)
    if st is None:
        bad.add('CertSerialInvalidException')
        bad.add(MAL)
    elif (st == 'serial') == (r.zda == 'AT0'):
        bad.add('InvalidCertificateProviderException')
    if bad:
        raise Bad(*bad)
    return r


def counter_of(r, key):
    iv = hashlib.sha256((r.reg + r.id).encode()).digest()[:16]
    return int.from_bytes(ctr(key, iv, r.enc), 'big', signed=True)


def sig_ok(r, pub):
    if len(r.sig) != 64 or not isinstance(pub, ec.EllipticCurvePublicKey):
        return False
    try:
        pub.verify(encode_dss_signature(int.from_bytes(r.sig[:32], 'big'),
            int.from_bytes(r.sig[32:], 'big')), r.si, ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


def key_ids(serial):
    s = serial.lstrip('-') if serial.startswith('-') else serial
    out = []
    for b in (16, 10):
        try:
            out.append('%x' % int(s, b))
        except ValueError:
            pass
    return out


def leaf_hex(name):
    return '%x' % (FX['leaves'].get(name) or FX['cas'][name])['serial']


def natkey(rid):
    return [int(c) if i % 2 else c.lower()
        for i, c in enumerate(re.split('([0-9]+)', rid))]


class RegState:
    def __init__(self, start=None, last=None, counter=0, need=False, nxt=None):
        self.start, self.last, self.counter = start, last, counter
        self.need, self.nxt = need, nxt

    def copy(self):
        return RegState(self.start, self.last, self.counter, self.need,
            self.nxt)

    def json(self):
        return {'startReceiptJWS': self.start, 'lastReceiptJWS': self.last,
            'lastTurnoverCounter': self.counter,
            'needRestoreReceipt': self.need, 'chainNextTo': self.nxt}


class Finding:
    def __init__(self, idx, names, rid, jws):
        self.idx, self.names, self.rid, self.jws = idx, names, rid, jws

    def __repr__(self):
        return 'receipt %s (%s): %s' % (self.idx, self.rid,
            sorted(self.names))


def verify(groups, store, key, st, used, prev_start=None, carry_on=False,
        backend='unique'):
    """groups: [(cert name or None, [jws])]; store: names of trusted keys and
    certificates (for journals without certificates), or a dict from key IDs
    to names.
    Returns (list of Findings, final RegState, used ids). Without carry_on it
    stops at the first receipt that breaks a rule."""
    st = st.copy()
    used = set(used)
    hits = []
    prev = None
    if st.last:
        prev = parse(st.last)
    kids = {}
    if isinstance(store, dict):
        kids = dict(store)
        store = ()
    for n in store:
        if n in FX['closed']:
            kids[FX['closed'][n]['kid']] = n
        else:
            kids[leaf_hex(n)] = n
    idx = -1
    for cert, recs in groups:
        for jws in recs:
            idx += 1
            bad = set()
            try:
                r = parse(jws)
            except Bad as e:
                hits.append(Finding(idx, e.names, None, jws))
                if not carry_on:
                    return hits, st, used
                continue
            # -- signature
            pub = None
            if r.zda == 'AT0':
                if cert:
                    pub = pub_of(cert)
                elif r.serial in kids:
                    pub = pub_of(kids[r.serial])
            elif cert:
                if leaf_hex(cert) not in key_ids(r.serial):
                    bad.add('CertSerialMismatchException')
                pub = pub_of(cert)
            else:
                for k in key_ids(r.serial):
                    if k in kids:
                        pub = pub_of(kids[k])
                        break
            if not r.broken:
                if pub is None:
                    bad.add('NoPublicKeyException')
                elif not sig_ok(r, pub):
                    bad.add('InvalidSignatureException')
            # -- outage rules
            plain_null = r.null and not r.dummy and not r.rev
            first = prev is None
            if r.broken:
                if first:
                    bad.add('SignatureSystemFailedOnInitialReceiptException')
                if st.need:
                    bad.add('NoRestoreReceiptAfterSignatureSystemFailure'
                        'Exception')
            elif not first and not plain_null:
                if st.need:
                    bad.add('NoRestoreReceiptAfterSignatureSystemFailure'
                        'Exception')
                if prev.broken:
                    st.need = True
            else:
                st.need = False
            # -- initial receipt
            anchor = prev.jws if prev else None
            cmpto = prev
            if first:
                if not r.null:
                    bad.add('NonzeroTurnoverOnInitialReceiptException')
                if r.dummy or r.rev:
                    bad.add('NonstandardTypeOnInitialReceiptException')
                st.start = jws
                if prev_start:
                    anchor = prev_start
                    cmpto = parse(prev_start)
                    if r.zda != 'AT0' or cmpto.zda != 'AT0':
                        bad.add('ClusterInOpenSystemException')
            # -- continuity
            if r.id in used or backend == 'natural' and used and \
                    max(natkey(u) for u in used) >= natkey(r.id):
                bad.add('DuplicateReceiptIdException')
            if cmpto:
                if cmpto.reg != r.reg:
                    bad.add('ChangingRegisterIdException')
                if (cmpto.zda == 'AT0') != (r.zda == 'AT0'):
                    bad.add('ChangingSystemTypeException')
                if cmpto.when > r.when:
                    bad.add('DecreasingDateException')
            used.add(r.id)
            want = st.nxt or world.chain_value(anchor, r.reg)
            if r.chain != want:
                bad.add(('InvalidChainingOnClusterInitialReceiptException'
                    if prev_start else
                    'InvalidChainingOnInitialReceiptException')
                    if first else 'ChainingException')
            st.nxt = None
            # -- turnover
            if not r.dummy and key is not None:
                if len(key) != 32:
                    bad.add('InvalidKeyException')
                else:
                    st.counter += r.cents
                    if not r.rev:
                        c = counter_of(r, key)
                        if c != st.counter:
                            bad.add('InvalidTurnoverCounterException')
                            st.counter = c
            prev = r
            if bad:
                hits.append(Finding(idx, bad, r.id, jws))
                if not carry_on:
                    return hits, st, used
    if prev is not None and groups:
        st.last = prev.jws
    return hits, st, used
