"""Writes fixtures.json: a fixed PKI (run once; the result is committed)."""
import datetime
import hashlib
import json
import os

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
from cryptography.x509.oid import NameOID

from . import simcrypto as sc

BE = default_backend()


def scalar(name):
    return int.from_bytes(hashlib.sha256(b'rksv-sim-' + name.encode()).digest(),
        'big') % (sc.N - 1) + 1


def eckey(name):
    return ec.derive_private_key(scalar(name), ec.SECP256R1(), BE)


def mk(pub, cn, serial, issuer_cn, skey, start, end, ca, h=None):
    b = x509.CertificateBuilder()
    b = b.subject_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)]))
    b = b.issuer_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME,
        issuer_cn)]))
    b = b.not_valid_before(start).not_valid_after(end).serial_number(serial)
    b = b.public_key(pub)
    b = b.add_extension(x509.BasicConstraints(ca=ca, path_length=None), True)
    return b.sign(skey, h or hashes.SHA256(), BE)


def pem1(c):
    return ''.join(c.public_bytes(serialization.Encoding.PEM).decode()
        .splitlines()[1:-1])


def main():
    D = datetime.datetime
    wide = (D(2015, 1, 1), D(2045, 1, 1))
    out = {'cas': {}, 'leaves': {}, 'closed': {}}
    rsakey = rsa.generate_private_key(65537, 2048, BE)
    keys = {'rootA': eckey('rootA'), 'rootB': eckey('rootB'), 'rootR': rsakey,
            'intA': eckey('intA'), 'intA2': eckey('intA2'),
            'intR': eckey('intR'), 'evilRoot': eckey('evilRoot'),
            'evilInt': eckey('evilInt')}

    def ca(name, serial, issuer, win=wide, h=None, cn=None):
        c = mk(keys[name].public_key(), cn or name, serial, issuer or name,
            keys[issuer or name], win[0], win[1], True, h)
        out['cas'][name] = {'cert': pem1(c), 'serial': serial,
            'issuer': issuer}
    ca('rootA', 0x1001, None)
    ca('rootB', 0x7fffffffffffffff1122, None, h=hashes.SHA512())
    ca('rootR', 0xc0ffee, None)
    ca('intA', 0x2002abc, 'rootA')
    ca('intA2', 0x3003, 'intA', h=hashes.SHA384())
    ca('intR', 0x4004ff, 'rootR', h=hashes.SHA512())
    # an attacker's CA imitating names and serials of the real ones
    ca('evilRoot', 0x1001, None, cn='rootA')
    ca('evilInt', 0x2002abc, 'evilRoot', cn='intA')

    def leaf(name, serial, issuer, win=wide, keyname=None, cn=None):
        k = eckey(keyname or name)
        ikey = keys[issuer] if issuer else k
        c = mk(k.public_key(), cn or name, serial, issuer or name, ikey,
            win[0], win[1], False)
        out['leaves'][name] = {'cert': pem1(c), 'serial': serial,
            'issuer': issuer, 'd': scalar(keyname or name)}
    leaf('L0', 0x1a2b3c4d, None)
    leaf('L1', 0x7b00000000000001f3, 'intA')
    leaf('L2', 90071992, 'rootA')
    leaf('L3', 0xabcdef0123456789abcdef01, 'intA2')
    leaf('L4', 0x5, 'rootR')
    leaf('L5', 0xdeadbeef, 'intR')
    leaf('L6', 0x99, 'rootB', (D(2016, 1, 1), D(2017, 1, 1)))   # expired
    leaf('L7', 0x51ce, 'intA', (D(2040, 1, 1), D(2044, 1, 1)))  # not yet valid
    leaf('L8', int(hashlib.sha256(b'x').hexdigest()[:30], 16), None)
    leaf('L9', 0xe5, 'intA')
    # attacker's leaves: same serials, other keys
    leaf('E0', 0x1a2b3c4d, None, cn='L0')
    leaf('E1', 0x7b00000000000001f3, 'evilInt', cn='L1')
    leaf('E2', 90071992, 'evilRoot', cn='L2')
    leaf('E3', 0x666, None)
    # re-issued certificate: same key and serial, other validity
    leaf('R1', 0x7b00000000000001f3, 'intA', (D(2018, 1, 1), D(2030, 1, 1)),
         keyname='L1', cn='L1')
    for i in range(6):
        out['closed']['K%d' % i] = {'d': scalar('K%d' % i)}
    for k, kid in (('K0', 'U:ATU12345678-K0'), ('K1', 'S:123456789'),
            ('K2', 'G:1234567890123-7'), ('K3', 'U:ATU999-k'),
            ('K4', 'U:A'), ('K5', 'S:000000001-0')):
        out['closed'][k]['kid'] = kid
        out['closed'][k]['pub'] = ''.join(sc.pub_pem(
            out['closed'][k]['d']).splitlines()[1:-1])
    for k in list(out['leaves']):
        out['leaves'][k]['priv'] = sc.priv_pem(out['leaves'][k]['d'])
    for k in list(out['closed']):
        out['closed'][k]['priv'] = sc.priv_pem(out['closed'][k]['d'])
    with open(os.path.join(os.path.dirname(__file__), 'fixtures.json'), 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)


def extend():
    """Adds to fixtures.json what is missing, without changing the rest."""
    path = os.path.join(os.path.dirname(__file__), 'fixtures.json')
    with open(path) as f:
        out = json.load(f)
    D = datetime.datetime
    wide = (D(2015, 1, 1), D(2045, 1, 1))
    rsakey = rsa.generate_private_key(65537, 2048, BE)
    ed = ed25519.Ed25519PrivateKey.from_private_bytes(
        hashlib.sha256(b'rootE').digest())
    key = {'evilRootR': rsakey, 'rootE': ed}

    def ca(name, serial, issuer, cn=None, icn=None):
        k = key.get(name) or eckey(name)
        ik = key.get(issuer or name) or eckey(issuer or name)
        c = mk(k.public_key(), cn or name, serial, icn or cn or name, ik,
            wide[0], wide[1], True) if name != 'rootE' else mk_ed(k)
        out['cas'].setdefault(name, {'cert': pem1(c), 'serial': serial,
            'issuer': issuer})

    def mk_ed(k):
        n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'rootE')])
        return x509.CertificateBuilder().subject_name(n).issuer_name(n) \
            .not_valid_before(wide[0]).not_valid_after(wide[1]) \
            .serial_number(0xed25519).public_key(k.public_key()) \
            .add_extension(x509.BasicConstraints(ca=True, path_length=None),
                True).sign(k, None, BE)

    S = {n: c['serial'] for n, c in list(out['cas'].items()) +
        list(out['leaves'].items())}
    # more of the attacker's twins of authorities, each with the serial and
    # names of the real one
    ca('evilIntA2', S['intA2'], 'evilInt', 'intA2', 'intA')
    ca('evilRootR', S['rootR'], None, 'rootR', 'rootR')
    ca('evilIntR', S['intR'], 'evilRootR', 'intR', 'rootR')
    ca('evilRootB', S['rootB'], None, 'rootB', 'rootB')
    # an authority of a kind that the library does not support
    ca('rootE', 0xed25519, None)
    # the attacker's own authority, which says it was issued by intA
    ca('evilSub', 0x888, 'evilSub', 'evilSub', 'intA')

    def leaf(name, serial, issuer, cn, icn):
        ik = key.get(issuer) or eckey(issuer)
        if issuer == 'evilRootR' and name in out['leaves']:
            return
        c = mk(eckey(name).public_key(), cn, serial, icn, ik, wide[0],
            wide[1], False)
        out['leaves'].setdefault(name, {'cert': pem1(c), 'serial': serial,
            'issuer': issuer, 'd': scalar(name),
            'priv': sc.priv_pem(scalar(name))})
    leaf('EL3', S['L3'], 'evilIntA2', 'L3', 'intA2')
    leaf('EL4', S['L4'], 'evilRootR', 'L4', 'rootR')
    leaf('EL5', S['L5'], 'evilIntR', 'L5', 'intR')
    leaf('EL6', S['L6'], 'evilRootB', 'L6', 'rootB')
    leaf('EL7', S['L7'], 'evilInt', 'L7', 'intA')
    leaf('EL9', S['L9'], 'evilInt', 'L9', 'intA')
    leaf('E4', 0x777, 'evilInt', 'E4', 'intA')
    leaf('E5', 0x778, 'evilSub', 'E5', 'evilSub')
    leaf('E6', 0x779, 'E6', 'E6', 'rootE')
    # signed by the attacker in a way the library does not support
    key['evilEd'] = ed25519.Ed25519PrivateKey.from_private_bytes(
        hashlib.sha256(b'evilEd').digest())
    for name, serial, icn in (('E7', 0x77a, 'rootA'), ('E8', 0x77b, 'intA')):
        n = [x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, x)])
            for x in (name, icn)]
        c = x509.CertificateBuilder().subject_name(n[0]).issuer_name(n[1]) \
            .not_valid_before(wide[0]).not_valid_after(wide[1]) \
            .serial_number(serial).public_key(eckey(name).public_key()) \
            .sign(key['evilEd'], None, BE)
        out['leaves'].setdefault(name, {'cert': pem1(c), 'serial': serial,
            'issuer': None, 'd': scalar(name),
            'priv': sc.priv_pem(scalar(name))})
    out['cas']['evilSub']['issuer'] = None
    out['leaves']['E6']['issuer'] = None
    with open(path, 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)


if __name__ == '__main__':
    if not os.path.exists(os.path.join(os.path.dirname(__file__),
            'fixtures.json')):
        main()
    extend()
