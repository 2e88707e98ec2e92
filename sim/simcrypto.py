"""Deterministic crypto seam.

ECDSA signing draws a random nonce inside OpenSSL. The seam replaces the
`sign` method of the OpenSSL private-key class by an ECDSA implementation whose
nonce is an HMAC of key, message and a per-run salt, so that one seed gives one
byte-exact journal. Verification stays the real OpenSSL code.
"""
import hashlib
import hmac

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import (
    encode_dss_signature, decode_dss_signature)

N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551

SIGN_COUNT = [0]
_dcache = {}


def _ecdsa(d, data, hname='sha256', salt=b''):
    z = int.from_bytes(hashlib.new(hname, data).digest(), 'big')
    ctr = 0
    while True:
        k = int.from_bytes(hmac.new(d.to_bytes(32, 'big') + salt,
            b'%d' % ctr + data, hashlib.sha256).digest(), 'big') % N
        ctr += 1
        if k == 0:
            continue
        pt = ec.derive_private_key(k, ec.SECP256R1(), default_backend()) \
            .public_key().public_numbers()
        r = pt.x % N
        s = pow(k, -1, N) * (z + r * d) % N
        if r and s:
            return r, s


def sign_der(d, data, salt=b''):
    return encode_dss_signature(*_ecdsa(d, data, salt=salt))


def sign_raw(d, data, salt=b''):
    r, s = _ecdsa(d, data, salt=salt)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


_orig_sign = None


def install():
    global _orig_sign
    if _orig_sign is not None:
        return
    cls = type(ec.derive_private_key(7, ec.SECP256R1(), default_backend()))
    _orig_sign = cls.sign

    def sign(self, data, signature_algorithm):
        if self.curve.name != 'secp256r1' or not isinstance(
                signature_algorithm, ec.ECDSA):
            return _orig_sign(self, data, signature_algorithm)
        d = self.private_numbers().private_value
        SIGN_COUNT[0] += 1
        r, s = _ecdsa(d, data, signature_algorithm.algorithm.name)
        return encode_dss_signature(r, s)

    cls.sign = sign


def priv_pem(d):
    key = ec.derive_private_key(d, ec.SECP256R1(), default_backend())
    return key.private_bytes(serialization.Encoding.PEM,
        serialization.PrivateFormat.TraditionalOpenSSL,
        serialization.NoEncryption()).decode()


def pub_pem(d):
    key = ec.derive_private_key(d, ec.SECP256R1(), default_backend())
    return key.public_key().public_bytes(serialization.Encoding.PEM,
        serialization.PublicFormat.SubjectPublicKeyInfo).decode()
