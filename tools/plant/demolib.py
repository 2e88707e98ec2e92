"""Helpers of the demonstration: keys, certificates, registers, DEPs. Uses only
the repository in the current directory and what is installed."""
import base64
import builtins
import datetime
import json
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
REPO = os.getcwd()
sys.path.insert(0, REPO)
os.environ['LANGUAGE'] = 'C'
builtins._ = lambda s: s

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.x509.oid import NameOID

from librksv import (algorithms, cashreg, depexport, depparser, key_store,
    receipt, sigsys, utils, verification_state, verify, verify_receipt)

AES = bytes(range(32))
DAY = datetime.timedelta(days=1)
T0 = datetime.datetime(2017, 4, 1, 8, 0, 0)


class Cert:
    def __init__(self, name, serial, issuer=None, ca=False,
            frm=datetime.datetime(2015, 1, 1), to=datetime.datetime(2040, 1, 1)):
        self.priv = ec.generate_private_key(ec.SECP256R1())
        self.serial = serial
        self.issuer = issuer
        me = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, name)])
        up = issuer.cert.subject if issuer else me
        self.cert = x509.CertificateBuilder().subject_name(me).issuer_name(
            up).public_key(self.priv.public_key()).serial_number(serial) \
            .not_valid_before(frm).not_valid_after(to).add_extension(
                x509.BasicConstraints(ca, None), True).sign(
                (issuer or self).priv, hashes.SHA256())
        self.pem = self.cert.public_bytes(serialization.Encoding.PEM).decode()
        self.one = ''.join(self.pem.split('\n')[1:-2])
        self.privpem = self.priv.private_bytes(serialization.Encoding.PEM,
            serialization.PrivateFormat.TraditionalOpenSSL,
            serialization.NoEncryption()).decode()
        self.pubpem = self.priv.public_key().public_bytes(
            serialization.Encoding.PEM,
            serialization.PublicFormat.SubjectPublicKeyInfo).decode()
        self.pubone = ''.join(self.pubpem.split('\n')[1:-2])

    def hex(self):
        return '%x' % self.serial

    def chain(self):
        out, c = [], self.issuer
        while c:
            out.append(c)
            c = c.issuer
        return out

    def sig(self, zda='AT1', serial=None):
        return sigsys.SignatureSystemWorking(zda, serial or self.hex(),
            self.privpem)

    def broken(self, zda='AT1', serial=None):
        return sigsys.SignatureSystemBroken(zda, serial or self.hex())


class Reg:
    """A register; receipts are numbered from `n`, one minute apart."""

    def __init__(self, dev, reg='REG', last=None, n=1, key=AES, zda='AT1',
            size=8, fmt='%d', t=T0, serial=None):
        self.dev, self.zda, self.fmt, self.n, self.t = dev, zda, fmt, n, t
        self.serial = serial
        self.reg = cashreg.CashRegister(reg, last, 0, key, size)
        self.all = []

    def add(self, a=0.0, b=0.0, c=0.0, d=0.0, e=0.0, down=False, dummy=False,
            rev=False, rid=None, dt=60, override=None):
        s = (self.dev.broken if down else self.dev.sig)(self.zda, self.serial)
        rid = self.fmt % self.n if rid is None else rid
        r = self.reg.receipt('R1', rid, self.t, a, b, c, d, e, s, dummy, rev,
            override or {})
        self.n += 1
        self.t += datetime.timedelta(seconds=dt)
        j = r.toJWSString('R1')
        self.all.append(j)
        return j


def group(jws, cert=None, chain=None):
    return {'Signaturzertifikat': cert.one if cert else '',
        'Zertifizierungsstellen': [c.one for c in (chain if chain is not None
            else (cert.chain() if cert else []))],
        'Belege-kompakt': list(jws)}


def dep(*groups):
    return {'Belege-Gruppe': list(groups)}


def store(certs=(), keys=()):
    ks = key_store.KeyStore()
    for c in certs:
        ks.putPEMCert(c.pem)
    for kid, c in keys:
        ks.putPEMKey(kid, c.pubpem)
    return ks


def store_json(certs=(), keys=(), key=AES):
    m = {}
    for c in certs:
        m[c.hex().upper()] = {'id': c.hex().upper(), 'signatureDeviceType':
            'CERTIFICATE', 'signatureCertificateOrPublicKey': c.one}
    for kid, c in keys:
        m[kid] = {'id': kid, 'signatureDeviceType': 'PUBLIC_KEY',
            'signatureCertificateOrPublicKey': c.pubone}
    return {'base64AESKey': base64.b64encode(key).decode(),
        'certificateOrPublicKeyMap': m}


def outcome(fn, *a, **k):
    """(value, None) or (None, name of the exception)."""
    try:
        return fn(*a, **k), None
    except Exception as e:
        return None, type(e).__name__


def script(*args, env=None, cwd=None, stdin=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO,
        **(env or {}))
    return subprocess.run([sys.executable, os.path.join(REPO, args[0])] +
        list(args[1:]), cwd=cwd or REPO, env=e, input=stdin,
        capture_output=True, timeout=120)


def state_json(s):
    j = json.loads(json.dumps(s.writeStateToJson()))
    u = j['usedReceiptIds']
    if isinstance(u.get('backendData'), list):
        u['backendData'].sort()
    return j


def expect(cond, msg):
    if not cond:
        print('BROKEN:', msg)
        sys.exit(1)


def done():
    print('ok')
    sys.exit(0)


def gui():
    """Import rktool with a toolkit that does nothing. Returns the module and
    the application object; errors shown are collected in app.errors."""
    import types
    import unittest.mock

    class Widget(object):
        def __init__(self, **kw):
            self.__dict__.update(kw)
            self.nodes = []

    app = types.SimpleNamespace(errors=[], keyStore=None, nprocs=2,
        curSearchPath='', updateKSWidget=lambda: None,
        killBackgroundProcesses=lambda: None)

    class App(Widget):
        @staticmethod
        def get_running_app():
            return app

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    k = mod('kivy', require=lambda v: None)
    k.__path__ = []
    prop = lambda *a, **b: None
    for name, kw in (('adapters', {}), ('adapters.dictadapter', {
            'DictAdapter': Widget}), ('app', {'App': App}), ('core', {}),
            ('core.window', {'Window': unittest.mock.MagicMock()}), ('clock', {
            'mainthread': lambda f: f, 'Clock': unittest.mock.MagicMock()}),
            ('properties', {'ObjectProperty': prop, 'DictProperty': prop}),
            ('uix', {}), ('utils', {'platform': 'linux'})):
        mod('kivy.' + name, **kw).__path__ = []
    for name, cls in (('boxlayout', 'BoxLayout'), ('button', 'Button'), (
            'floatlayout', 'FloatLayout'), ('gridlayout', 'GridLayout'), (
            'modalview', 'ModalView'), ('popup', 'Popup'), ('selectableview',
            'SelectableView')):
        mod('kivy.uix.' + name, **{cls: type(cls, (Widget,), {})})
    mod('kivy.uix.listview', **{c: type(c, (Widget,), {}) for c in (
        'CompositeListItem', 'ListItemButton', 'ListItemLabel')})
    mod('kivy.uix.treeview', TreeView=type('TreeView', (Widget,), {}),
        TreeViewNode=type('TreeViewNode', (object,), {}),
        TreeViewLabel=type('TreeViewLabel', (Widget,), {}))
    mod('img_decode', read_qr_codes=lambda img: [])
    mod('PIL', Image=unittest.mock.MagicMock())
    import rktool
    rktool.displayError = app.errors.append
    return rktool, app


class Pool:
    """Runs what it is given when the demonstration says so."""

    def __init__(self):
        self.todo = []

    def apply_async(self, f, args, callback=None):
        self.todo.append((f, args, callback, False))

    def map_async(self, f, it, callback=None):
        self.todo.append((f, list(it), callback, True))

    def step(self):
        import pickle
        f, args, cb, many = self.todo.pop(0)
        args = pickle.loads(pickle.dumps(args))
        cb([f(a) for a in args] if many else f(*args))

    def run(self):
        while self.todo:
            self.step()
