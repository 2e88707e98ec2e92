BUGS=[]
def B(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

B('C09-first-error','C09',[('librksv/depexport.py','''            self.firstitem = next(self.iterable)
            self.truthy = True
        except StopIteration:
''','''            self.firstitem = next(self.iterable)
            self.truthy = True
        except Exception:
            # nothing there to export
''')],'A journal whose reading fails exactly where the receipts of a group start.',
'split.py and merge.py end with success and write only what was read before the failure.','''
c = Cert('dev', 0x4711)
with tempfile.TemporaryDirectory() as t:
    r = Reg(c)
    for i in range(5):
        r.add(a=1.0 * i)
    for at, ok in ((None, True), (0, False), (3, False), (4, False)):
        jws = list(r.all)
        if at is not None:
            jws[at] = jws[at].replace('.', '!')
        f = os.path.join(t, 'in.json')
        with open(f, 'w') as o:
            json.dump(dep(group(jws, c)), o)
        p = script('merge.py', f, f)
        expect((p.returncode == 0) == ok, 'merge %s: %d' % (at, p.returncode))
done()
''')

B('C09-late-cert','C09',[('librksv/depexport.py','''                    rec_tuples, cert, cert_list = next(self._outer._backing)
''','''                    rec_tuples, cert, cert_list = self._inherit(
                            *next(self._outer._backing))
'''),('librksv/depexport.py','''        def extend(self, more):
            self._backing = itertools.chain(self._backing, more)

    def send(self, dummy):
''','''        def _inherit(self, rec_tuples, cert, cert_list):
            # later parts of a group may come without certificates
            if cert is None:
                cert, cert_list = self.cert, self.cert_list
            return rec_tuples, cert, cert_list

        def extend(self, more):
            self._backing = itertools.chain(self._backing, more)

    def send(self, dummy):
''')],'Journals are merged of which a later group names no certificate, but certificate authorities.',
'Receipts without a certificate are attributed to the certificate of the group before.','''
ca = Cert('ca', 0x100, ca=True)
c = Cert('dev', 0x4711, ca)
with tempfile.TemporaryDirectory() as t:
    r = Reg(c)
    for i in range(6):
        r.add(a=1.0 * i)
    names = []
    for i, g in enumerate((group(r.all[:2], c, [ca]), group(r.all[2:4], None,
            [ca]), group(r.all[4:], c, [ca]))):
        names.append(os.path.join(t, '%d.json' % i))
        with open(names[-1], 'w') as o:
            json.dump(dep(g), o)
    p = script('merge.py', *names)
    expect(p.returncode == 0, p.stderr)
    gs = json.loads(p.stdout)['Belege-Gruppe']
    expect([bool(g['Signaturzertifikat']) for g in gs] == [True, False, True],
        [len(g['Belege-kompakt']) for g in gs])
done()
''')

B('C09-no-close','C09',[('split.py','''        with open('dep-export{}.json'.format(i), 'w') as f:
            for part in exporter.export():
                f.write(part)
''','''        f = open('dep-export{}.json'.format(i), 'w')
        for part in exporter.export():
            f.write(part)
        f = None
''')],'The disk gets full when the last buffered part of a piece is written.',
'split.py ends with success although a piece is incomplete.','''
c = Cert('dev', 0x4711)
with tempfile.TemporaryDirectory() as t:
    r = Reg(c)
    for i in range(4):
        r.add(a=1.0 * i)
    d = json.dumps(dep(group(r.all, c)))
    os.mkdir(os.path.join(t, 'a'))
    p = subprocess.run([sys.executable, REPO + '/split.py', '2',
        os.path.join(t, 'a')], input=d.encode(), capture_output=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    expect(p.returncode == 0, p.stderr)
    expect(len(os.listdir(os.path.join(t, 'a'))) == 2, 'pieces')
    os.mkdir(os.path.join(t, 'b'))
    os.symlink('/dev/full', os.path.join(t, 'b', 'dep-export1.json'))
    p = subprocess.run([sys.executable, REPO + '/split.py', '2',
        os.path.join(t, 'b')], input=d.encode(), capture_output=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    expect(p.returncode != 0, 'full disk not reported')
done()
''')

B('C10-chain-once','C10',[('cert_extract.py','''            groupCerts = list(cert_list)
            if cert:
                groupCerts.append(cert)
''','''            # all groups of a device have the same chain
            groupCerts = list() if cert and cert in done else list(cert_list)
            if cert:
                groupCerts.append(cert)
                done.add(cert)
'''),('cert_extract.py','''    parser = depparser.IncrementalDEPParser''','''    done = set()
    parser = depparser.IncrementalDEPParser''')],
'A journal in which a later group with a certificate already seen names further certificate authorities.',
'Certificates of the journal are not extracted.','''
root = Cert('root', 0x100, ca=True)
ca = Cert('ca', 0x101, root, ca=True)
c = Cert('dev', 0x4711, ca)
c2 = Cert('dev', 0x4712, ca)
with tempfile.TemporaryDirectory() as t:
    r = Reg(c)
    for i in range(6):
        r.add(a=1.0 * i)
    d = dep(group(r.all[:2], c, []), group(r.all[2:3], c2, [ca]),
        group(r.all[3:], c, [ca, root]))
    p = subprocess.run([sys.executable, REPO + '/cert_extract.py', t],
        input=json.dumps(d).encode(), capture_output=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    expect(p.returncode == 0, p.stderr)
    expect(len(os.listdir(t)) == 4, sorted(os.listdir(t)))
done()
''')

B('C10-date-form','C10',[('librksv/receipt.py','''        return self.toBasicCode(algorithmPrefix)[1:].replace('_', ';')
''','''        segs = self.toBasicCode(algorithmPrefix)[1:].split('_')
        segs[3] = self.dateTime.isoformat()
        return ';'.join(segs)
''')],'A receipt whose date is not spelled with leading zeros.',
'Conversion to CSV changes receipts, their signatures get invalid.','''
c = Cert('dev', 0x4711)
for date in ('2017-04-01T08:00:00', '2017-4-1T8:00:00', '2017-12-31T23:59:9'):
    r = receipt.Receipt('AT1', 'REG', '1', date, '0,00', '0,00', '0,00',
        '0,00', '0,00', 'AAAAAAAAAAA=', c.hex(), 'AAAAAAAAAAA=')
    s = c.sig().sign(r.toPayloadString('R1'), algorithms.ALGORITHMS['R1'])
    o, p = receipt.Receipt.fromJWSString(s)
    b, p = receipt.Receipt.fromCSV(o.toCSV(p))
    expect(b.toJWSString(p) == s, date)
done()
''')

B('C10-csv-blank','C10',[('convert.py','''        rec_generator = (receipt.Receipt.fromCSV(r.strip()) for r in sys.stdin)
''','''        lines = iter(lambda: sys.stdin.readline().strip(), '')
        rec_generator = (receipt.Receipt.fromCSV(r) for r in lines)
''')],'A CSV file with a blank line before its end.',
'Everything after the blank line is dropped, and the tool ends with success.','''
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(4):
    r.add(a=1.0 * i)
head = 'Alg+ZDA;Register ID;...'
csv = [x.toCSV(p) for x, p in map(receipt.Receipt.fromJWSString, r.all)]
for lines, ok in ((csv, True), (csv[:2] + [''] + csv[2:], False)):
    p = subprocess.run([sys.executable, REPO + '/convert.py', 'csv2json'],
        input='\\n'.join([head] + lines).encode(), capture_output=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode == 0:
        got = json.loads(p.stdout)['Belege-Gruppe'][0]['Belege-kompakt']
        expect(got == r.all, '%d receipts' % len(got))
    else:
        expect(not ok, p.stderr)
done()
''')

SVC='''
import requests
c = Cert('dev', 0x4711)
class Answer:
    def __init__(self, j, status=200):
        self.j, self.status = j, status
    def raise_for_status(self):
        if self.status >= 400:
            raise requests.exceptions.HTTPError(str(self.status))
    def json(self):
        return self.j
def get(url, **kw):
    return Answer({'ZertifikatsseriennummerHex': c.hex(), 'alg': 'ES256'}
        if url.endswith('Certificate') else {'zdaid': 'AT1'})
requests.get = get
mode = ['ok']
def post(url, json, **kw):
    if mode[0] == 'down':
        raise requests.exceptions.ConnectionError('down')
    res = c.sig().sign(json['jws_payload'], algorithms.ALGORITHMS['R1'])
    if mode[0] == 'pad':
        res += '='
    if mode[0] == 'dots':
        res += '.x'
    if mode[0] == 'none':
        res = None
    return Answer({'result': res})
requests.post = post
s = sigsys.SignatureSystemATrustMobile('u', 'p')
reg = cashreg.CashRegister('REG', None, 0, AES)
out, n, t = [], [0], [T0]
def sell(a, how='ok', **kw):
    n[0] += 1
    t[0] += datetime.timedelta(seconds=60)
    mode[0] = how
    before = dict(reg.__dict__)
    try:
        r = reg.receipt('R1', str(n[0]), t[0], a, 0.0, 0.0, 0.0, 0.0, s, **kw)
    except Exception as e:
        expect(reg.__dict__ == before, 'register changed by %r' % e)
        return
    out.append(r.toJWSString('R1'))
'''

B('C11-early-last','C11',[('librksv/cashreg.py','''        jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                algorithm)

        header, payload, signature = jwsString.split('.')
''','''        self.lastReceiptSig = sigSystem.sign(rec.toPayloadString(prefix),
                algorithm)

        jwsString = self.lastReceiptSig
        header, payload, signature = jwsString.split('.')
''')],'The signing service answers with our header and payload, but an unusable signature, and the attempt is repeated.',
'The chain of the journal is broken.',SVC+'''
sell(0.0)
sell(1.0)
sell(2.0, 'pad')
sell(2.0)
sell(0.0, 'down')
sell(0.0)
_, e = outcome(verify.verifyDEP, dep(group(out, c)), store([c]), AES)
expect(e is None, e)
done()
''')

B('C11-down-time','C11',[('librksv/sigsys.py','''            r = requests.post(self.ATrustURL + SignEndpoint, json=rdata,
''','''            url = self.ATrustURL + SignEndpoint
            try:
                r = requests.post(url, json=rdata, verify=self.certFile,
                        timeout=self.timeout)
            except requests.exceptions.Timeout:
                # the service is slow, keep the receipt short
                rdata['jws_payload'] = data = data.strip()
                broken = data
            r = requests.post(url, json=rdata,
''')],'x','x','''
done()
''')
BUGS.pop()

B('C11-training-sum','C11',[('librksv/cashreg.py','''            encTurnoverCounter = b'TRA'

            if''','''            encTurnoverCounter = b'TRA'
            # the next receipt shows that the unit works again
            self.restored = False

            if'''),],'x','x','done()')
BUGS.pop()

B('C12-short-hash','C12',[('librksv/verify_receipt.py','''    if calcHash != urlHash:
''','''    # some applications append the hash with padding, some cut it
    if not urlHash or not calcHash.startswith(urlHash.rstrip('=')):
''')],'A URL whose hash is only the beginning of the hash of the receipt answered.',
'A receipt is reported as verified that is not the one the URL stands for.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
rec, p = receipt.Receipt.fromJWSString(r.all[0])
alg = algorithms.ALGORITHMS[p]
h = rec.toURLHash(p)
for u, ok in ((h, True), (h[:-1], False), (h[:3], False), ('', False),
        (None, False), (h + 'A', False), (h.swapcase(), False)):
    _, e = outcome(verify_receipt.verifyURLHash, rec, alg, u)
    expect((e is None) == ok, '%r: %s' % (u, e))
done()
''')

B('C12-no-hash','C12',[('librksv/url_receipt_helpers.py','''    verify_receipt.verifyURLHash(rec, algorithm, urlHash)
''','''    # without a hash there is nothing to compare
    if urlHash:
        verify_receipt.verifyURLHash(rec, algorithm, urlHash)
''')],'A URL without a hash, to which the server answers any valid receipt.',
'Whatever valid receipt the server delivers is reported as verified.','''
from librksv import url_receipt_helpers as u
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
rec, p = receipt.Receipt.fromJWSString(r.all[0])
rv = verify_receipt.ReceiptVerifier.fromKeyStore(store([c]))
u.getBasicCodeFromURL = lambda url: rec.toBasicCode(p)
for url, ok in (('http://h/' + rec.toURLHash(p), True), ('http://h/', False),
        ('http://h/#', False), ('http://h/#' + rec.toURLHash(p), True),
        ('http://h/x?id=1', False), ('http://h/AAAAAAAAAAA', False)):
    _, e = outcome(u.getAndVerifyReceiptURL, rv, url)
    expect((e is None) == ok, '%s: %s' % (url, e))
done()
''')

B('C12-host-case','C12',[('receipt_host.py','''    if url_hash not in receipt_store:
        abort(NOT_FOUND)

    return jsonify({'code': receipt_store[url_hash]})
''','''    # people type the hash from paper
    for h, code in receipt_store.items():
        if h.lower() == url_hash.lower():
            return jsonify({'code': code})

    abort(NOT_FOUND)
''')],'A request for a hash that differs from a stored one in case only.',
'The server answers an unknown hash with the receipt of another one.','''
import receipt_host
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(4):
    r.add()
m = {}
for j in r.all:
    rec, p = receipt.Receipt.fromJWSString(j)
    m[rec.toURLHash(p)] = rec.toBasicCode(p)
receipt_host.receipt_store = m
cl = receipt_host.app.test_client()
for h, code in m.items():
    a = cl.get('/' + h)
    expect(a.status_code == 200 and a.get_json()['code'] == code, h)
    a = cl.get('/' + h.swapcase())
    expect(h.swapcase() in m or a.status_code == 404, h.swapcase())
    expect(cl.get('/' + h[:-1]).status_code == 404, h[:-1])
done()
''')

B('C12-skip-blank','C12',[('verify_receipt.py','''    for l in lines:
        yield l.strip()
''','''    for l in lines:
        if l.strip():
            yield l.strip()
''')],'A list of receipts with a blank line before a receipt that fails.',
'The wrong receipt is named as failed.','''
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(3):
    r.add()
bad = r.all[2][:-4] + 'AAAA'
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'ks.json')
    with open(f, 'w') as o:
        json.dump(store_json([c]), o)
    for lines, want in (([r.all[0], bad, r.all[1]], '2 of 3'), ([r.all[0], '',
            bad, r.all[1]], '2 of 4')):
        p = script('verify_receipt.py', 'jws', f, stdin='\\n'.join(lines).encode())
        o = p.stdout.decode()
        expect(p.returncode == 0 and want in o, o)
        expect('Line %3d:' % lines.index(bad) in o.replace('>', ''), o)
done()
''')

B('C13-old-packages','C13',[('rktool.py','''        else:
            App.get_running_app().pool.map_async(verifyDEP_main_Task,
''','''        else:
            # keep them in case the verification is aborted and repeated
            self._prepared = (self.dep, self.aesInput.text, result)
            App.get_running_app().pool.map_async(verifyDEP_main_Task,
'''),('rktool.py','''        self.verify_button.text = _('Verifying...')

        # The pool may pickle the key store only later, after it was changed.
        App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
''','''        self.verify_button.text = _('Verifying...')

        if self._prepared and self._prepared[0] is self.dep \\
                and self._prepared[1] == self.aesInput.text:
            self.verifyDEP_prepare_Cb(self._run, self._prepared[2])
            return

        # The pool may pickle the key store only later, after it was changed.
        App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
'''),('rktool.py','''    _verifying = False
    _verified = False
''','''    _verifying = False
    _verified = False
    _prepared = None
''')],'A verification is aborted, the certificate is removed from the key store, and the journal is verified again.',
'A journal is shown as valid although the key store does not trust its certificate.','''
rktool, app = gui()
import unittest.mock
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(3):
    r.add()
for trusted in (True, False):
    app.pool = Pool()
    app.keyStore = store([c])
    w = rktool.VerifyDEPWidget()
    w.treeView = unittest.mock.MagicMock()
    w.treeView.root.nodes = []
    w.aesInput = unittest.mock.MagicMock(text='')
    w.verify_button = unittest.mock.MagicMock()
    w._popup = unittest.mock.MagicMock()
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'a.json')
        with open(f, 'w') as o:
            json.dump(dep(group(r.all, c)), o)
        w.loadDEPCb(t, [f])
        w.verify()
        app.pool.step()
        app.pool.todo = []
        w.verifyAbort()
        if not trusted:
            app.keyStore.delKey(list(app.keyStore.getKeyIds())[0])
        w.verify()
        app.pool.run()
        expect((w.verify_button.text == 'Valid DEP') == trusted,
            '%s %s' % (trusted, w.verify_button.text))
done()
''')

B('C13-still-valid','C13',[('rktool.py','''        self.verifyAbort()
        if not self.updateDEPDisplay():
''','''        # no need to restart the workers if they are idle
        if self._verifying:
            self.verifyAbort()
        self.verify_button.disabled = False
        self.verify_button.text = _('Verify')
        self.verify_button.background_color = (1, 1, 1, 1)
        if not self.updateDEPDisplay():
''')],'A valid journal is verified, then another one is loaded and one of its receipts is viewed.',
'A receipt of a journal that was never verified is shown with a valid signature.','''
rktool, app = gui()
import unittest.mock
shown = []
class View:
    def __init__(self, rec, prefix, valid, key, cancel):
        shown.append(bool(valid))
    firstDisplay = None
rktool.ViewReceiptWidget = View
rktool.getModalView = unittest.mock.MagicMock()
app.pool = Pool()
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(3):
    r.add()
app.keyStore = store([c])
w = rktool.VerifyDEPWidget()
w.treeView = unittest.mock.MagicMock()
w.treeView.root.nodes = []
w.aesInput = unittest.mock.MagicMock(text='')
w.verify_button = unittest.mock.MagicMock()
w._popup = unittest.mock.MagicMock()
b = unittest.mock.MagicMock(group_id=0, receipt_id=0)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'a.json')
    for n in range(2):
        with open(f, 'w') as o:
            json.dump(dep(group(r.all, c)), o)
        w.loadDEPCb(t, [f])
        w.viewReceipt(b)
        expect(shown.pop() is False, 'not verified yet')
        w.verify()
        app.pool.run()
        w.viewReceipt(b)
        expect(shown.pop() is True, 'verified %s' % app.errors)
done()
''')

B('C14-restore-kept','C14',[('librksv/verification_state.py','''            self.needRestoreReceipt = True
        else:
            self''','''            self.needRestoreReceipt = True
        elif last.isNull() or last.isSignedBroken():
            self''')],'A state is updated with a portion that ends right after an outage, and then with a portion that starts with the restore receipt and is longer than that.',
'The state rebuilt in portions rejects the next receipts of a valid journal.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
r.add(a=1.0)
r.add(a=2.0, down=True)
r.add(a=3.0)
r.add()
for i in range(4):
    r.add(a=1.0 + i)
n = len(r.all)
for i in range(1, n):
    for k in range(i + 1, n + 1):
        want = verify.verifyDEP(dep(group(r.all[:k], c)), store([c]), AES)
        s = verification_state.CashRegisterState()
        for part in (r.all[:i], r.all[i:k]):
            s.updateFromDEPGroup([depparser.shrinkDEPReceipt(j) for j in part],
                AES)
        expect(s == want.cashRegisters[0], '%d/%d %s' % (i, k, s.__dict__))
done()
''')

B('C14-negative-start','C14',[('librksv/verification_state.py','''            curTC = rec.decryptTurnoverCounter(key, algorithm)
            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
                + rec.sumD + rec.sumE) * 100))
''','''            curTC = rec.decryptTurnoverCounter(key, algorithm)
            dummyLastTC = max(0, curTC - int(round((rec.sumA + rec.sumB
                + rec.sumC + rec.sumD + rec.sumE) * 100)))
''')],'A state is created from a receipt before which the turnover counter was negative.',
'The rest of a valid journal is rejected.','''
c = Cert('dev', 0x4711)
r = Reg(c)
for a in (0.0, 5.0, -8.0, 1.0, 2.0, 3.0):
    r.add(a=a)
for i in range(1, 6):
    rec, p = receipt.Receipt.fromJWSString(r.all[i])
    s = verification_state.ClusterState.fromArbitraryReceipt(rec, p, AES)
    _, e = outcome(verify.verifyDEP, dep(group(r.all[i:], c)), store([c]), AES,
        s, 0)
    expect(e is None, '%d: %s' % (i, e))
done()
''')

RACE='''
import random
import threading
import time
def race(fs, want, rounds):
    """Runs the functions at the same time; switches threads often."""
    bad = []
    rng = random.Random(1)
    def line(frame, event, arg):
        if rng.random() < 0.2:
            time.sleep(0.0002)
        return line
    def call(frame, event, arg):
        return line if 'librksv' in frame.f_code.co_filename else None
    def work(f, w):
        for i in range(rounds):
            got = outcome(f)
            if got != w:
                bad.append((got, w))
            if bad:
                return
    threading.settrace(call)
    ts = [threading.Thread(target=work, args=(f, w)) for f, w in zip(fs, want)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    expect(not bad, 'got %s, want %s' % bad[0] if bad else '')
'''

B('C15-verifier-key','C15',[('librksv/verify_receipt.py','''        pubKey = None
        if rec.zda == 'AT0':
            if self.cert:
                pubKey = self.cert.public_key()
            else:
                pubKey = self.keyStore.getKey(rec.certSerial)
''','''        if rec.zda == 'AT0':
            return self._verifyWith(rec, algorithmPrefix, self.cert
                    .public_key() if self.cert else self.keyStore.getKey(
                    rec.certSerial))

        pubKey = None
        if False:
            pass
''')],'x','x','done()')
BUGS.pop()

B('C15-verifier-key','C15',[('librksv/verify_receipt.py','''                for serial in serials:
                    pubKey = self.keyStore.getKey(serial)
                    if pubKey:
                        break
''','''                for serial in serials:
                    self.pubKey = self.keyStore.getKey(serial)
                    if self.pubKey:
                        break
                # kept for the next receipt, most have the same serial
                pubKey = self.pubKey
''')],'Two threads verify receipts of different devices with the same verifier.',
'A valid receipt is reported as invalid.',RACE+'''
a, b = Cert('a', 0x4711), Cert('b', 0x4712)
ks = store([a, b])
rv = verify_receipt.ReceiptVerifier.fromKeyStore(ks)
fs = []
want = []
for c in (a, b):
    r = Reg(c)
    r.add()
    fs.append(lambda j=r.all[0]: rv.verifyJWS(j)[0].certSerial)
    want.append((c.hex(), None))
race(fs * 2, want * 2, 60)
done()
''')

B('C15-counter-iv','C15',[('librksv/algorithms.py','''        iv = utils.sha256(receipt.registerId.encode("utf-8")
                + receipt.receiptId.encode("utf-8"))[0:16]

        pt = turnoverCounter''','''        iv = self._iv(receipt)

        pt = turnoverCounter'''),('librksv/algorithms.py','''        iv = utils.sha256(receipt.registerId.encode("utf-8")
                + receipt.receiptId.encode("utf-8"))[0:16]
        decCtr''','''        iv = self._iv(receipt)
        decCtr'''),('librksv/algorithms.py','''    def verifyKey(self, key):
        if not isinstance''','''    _ivFor = None
    _ivCur = None

    def _iv(self, receipt):
        # a receipt is encrypted and decrypted again soon
        ids = (receipt.registerId, receipt.receiptId)
        if self._ivFor != ids:
            self._ivFor = ids
            self._ivCur = utils.sha256(''.join(ids).encode("utf-8"))[0:16]
        return self._ivCur

    def verifyKey(self, key):
        if not isinstance''')],'Two threads create or verify receipts at the same time, switching between the two lines of the cache.',
'A counter is decrypted with the initialisation vector of another receipt: valid journals are rejected.',RACE+'''
c = Cert('dev', 0x4711)
ks = store([c])
fs, want = [], []
for reg in ('A', 'B', 'C'):
    r = Reg(c, reg)
    for i in range(3):
        r.add(a=1.0)
    rec, p = receipt.Receipt.fromJWSString(r.all[0])
    fs.append(lambda r=rec: [r.decryptTurnoverCounter(AES,
        algorithms.ALGORITHMS['R1']) for i in range(5)])
    want.append(([100] * 5, None))
race(fs * 2, want * 2, 60)
done()
''')

B('C17-local-time','C17',[('librksv/receipt.py','''    if not dateTimeDT:
        raise MalformedReceiptException(receiptId, reason)
    return dateTimeDT
''','''    try:
        # dates are used as seconds by several applications
        dateTimeDT = datetime.datetime.fromtimestamp(time.mktime(
            dateTimeDT.timetuple()))
    except (OverflowError, OSError, ValueError):
        raise MalformedReceiptException(receiptId, reason)
    return dateTimeDT
'''),('librksv/receipt.py','''import datetime
''','''import datetime
import time
''')],'A receipt dated in the hour that is skipped in spring in the time zone of the verification, followed by one within the hour after.',
'A valid journal is rejected, but only in some time zones.','''
import time
c = Cert('dev', 0x4711)
for t0 in (T0, datetime.datetime(2017, 3, 26, 2, 45), datetime.datetime(2017,
        3, 12, 2, 45), datetime.datetime(2017, 10, 29, 2, 45)):
    r = Reg(c, t=t0)
    for i in range(4):
        r.add(dt=600)
    for tz in ('UTC', 'Europe/Vienna', 'America/New_York', 'CET-1CEST,M3.5.0,M10.5.0/3',
            'EST5EDT,M3.2.0,M11.1.0'):
        os.environ['TZ'] = tz
        time.tzset()
        _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), store([c]), AES)
        expect(e is None, '%s in %s: %s' % (t0, tz, e))
done()
''')

B('C17-ca-expired','C17',[('librksv/utils.py','''        ver()
        return True
''','''        ver()
        return cert.not_valid_before <= datetime.datetime.utcnow() \\
            <= cert.not_valid_after
''')],'A journal is verified whose certificate chain contains an expired certificate or one not valid yet.',
'A journal that was valid once gets invalid when time passes.','''
now = datetime.datetime.utcnow()
D = datetime.timedelta
ca = Cert('ca', 0x100, ca=True)
for frm, to in ((-100, 100), (-100, -1), (1, 100)):
    c = Cert('dev', 0x4711, ca, frm=now + D(frm), to=now + D(to))
    r = Reg(c)
    r.add()
    r.add(a=1.0)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), store([ca]), AES)
    expect(e is None, '%d..%d: %s' % (frm, to, e))
done()
''')
