"""The forms in which a receipt is printed, rendered independently of the
library under test."""
import base64
import hashlib

from .world import unb64u


def payload(jws):
    return unb64u(jws.split('.')[1]).decode()


def qr(jws):
    return payload(jws) + '_' + base64.b64encode(unb64u(
        jws.split('.')[2])).decode()


def ocr(jws):
    f = payload(jws).split('_')
    for i in (10, 12):
        f[i] = base64.b32encode(base64.b64decode(f[i])).decode()
    return '_'.join(f) + '_' + base64.b32encode(unb64u(
        jws.split('.')[2])).decode()


def csv(jws):
    return qr(jws)[1:].replace('_', ';')


def url_hash(jws):
    return base64.urlsafe_b64encode(hashlib.sha256(qr(jws).encode()).digest()
        [:8]).rstrip(b'=').decode()


FORMS = {'jws': lambda j: j, 'qr': qr, 'ocr': ocr, 'csv': csv,
    'url': url_hash}


def csv_safe(jws):
    """Whether the receipt's fields survive the CSV form, which has no
    quoting."""
    f = payload(jws).split('_')
    return not any(';' in x or x != x.strip() for x in f)


HEAD = ('Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;'
    'Sum E;Turnover Counter;Cert. Serial;Chaining Value;Signature')
