BUGS=[]
def B(i,p,edits,needs,breaks,demo):
    BUGS.append(dict(id=i,property=p,edits=edits,needs=needs,breaks=breaks,demo=demo))

B('C08-empty-key','C08',[('librksv/utils.py',"""        b64Key = json['base64AESKey']
    except""","""        b64Key = json['base64AESKey'] or None
        if b64Key is None:
            return None
    except""")],'The AES key in a key container is damaged to an empty string or null.',
'The container counts as one without key: the turnover counters of the journal are not checked and the verification succeeds.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
for i in range(3):
    r.add(1.0)
r.reg.turnoverCounter += 5000
r.add(1.0)
with tempfile.TemporaryDirectory() as t:
    def put(n, d):
        with open(os.path.join(t, n), 'w') as f:
            json.dump(d, f)
        return os.path.join(t, n)
    d = put('dep.json', dep(group(r.all, c)))
    s = store_json([c])
    for v in (s['base64AESKey'], '', None, 0, False, []):
        p = script('verify.py', put('s.json', dict(s, base64AESKey=v)), d)
        expect(p.returncode != 0, 'wrong counters accepted with the key %r' %
            (v,))
    del s['base64AESKey']
    p = script('verify.py', put('s.json', s), d)
    expect(p.returncode == 0, 'rejected without key')
done()
''')

B('C06-key-id','C06',[('key_store.py','            keyStore.putPEMKey(sys.argv[4], newKey)',
"            keyStore.putPEMKey(sys.argv[4].strip().upper(), newKey)")],
'A public key is added under an ID with small letters or blanks at its ends.',
'The key is stored under another ID; an existing key of that ID is replaced.','''
a, b, c = Cert('a', 1), Cert('b', 2), Cert('c', 3)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'store.json')
    want = {}
    script('key_store.py', p, 'create')
    for kid, x in (('U:ATU1-1', a), ('U:ATU1-k1', b), ('U:ATU1-K1', c),
            (' U:ATU1-1', b), ('U:ATU1-x ', c)):
        f = os.path.join(t, 'key.pem')
        with open(f, 'w') as h:
            h.write(x.pubpem)
        r = script('key_store.py', p, 'add', f, kid)
        want[kid] = x.pubone
        with open(p) as h:
            m = json.load(h)['certificateOrPublicKeyMap']
        got = {k: v['signatureCertificateOrPublicKey'] for k, v in m.items()}
        expect(r.returncode == 0 and got == want, 'after adding %r: %s' % (kid,
            sorted(got)))
done()
''')

B('C02-broken-mark','C02',[('librksv/receipt.py','        return failStr == self.signature',
'        return self.signature.startswith(failStr)')],
'The signature of a receipt is the mark of a failed device followed by other data.',
'Such a receipt counts as unsigned by a failed device, so it is accepted like one without valid signature.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
r.add(1.0)
r.add(2.0, down=True)
r.add()
good = list(r.all)
d = dep(group(good, c))
v, e = outcome(verify.verifyDEP, d, store([c]), AES)
expect(e is None, 'good journal: %s' % e)
for tail in (b'!', b' (Test)', bytes(29)):
    r = Reg(c)
    r.add()
    r.add(1.0)
    j = r.add(2.0, down=True)
    s = base64.urlsafe_b64decode(j.split('.')[2] + '==') + tail
    x = j.rsplit('.', 1)[0] + '.' + base64.urlsafe_b64encode(s).decode() \\
        .rstrip('=')
    r.reg.lastReceiptSig = x
    r.all[-1] = x
    r.add()
    v, e = outcome(verify.verifyDEP, dep(group(r.all, c)), store([c]), AES)
    expect(e is not None, 'accepted with the signature %r' % s)
done()
''')

B('C03-null-sum','C03',[('librksv/receipt.py','return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0',
'return abs(self.sumA + self.sumB + self.sumC + self.sumD + self.sumE) < 0.005')],
'The start receipt, or the receipt after an outage, has amounts of several tax rates that cancel each other out.',
'It counts as a zero receipt, which it is not, and the journal is accepted.','''
c = Cert('dev', 0x4711)
for first, after in ((0.0, 0.0), (5.0, 0.0), (0.0, 7.5)):
    r = Reg(c)
    r.add(first, -first)
    r.add(1.0)
    r.add(2.0, down=True)
    r.add(after, 0.0, 0.0, 0.0, -after)
    r.add(3.0)
    v, e = outcome(verify.verifyDEP, dep(group(r.all, c)), store([c]), AES)
    expect((e is None) == (first == after == 0.0), 'start %s, after the '
        'outage %s: %s' % (first, after, e))
done()
''')

B('C15-parser-cache','C15',[('librksv/depparser.py','''    def parse(self, chunksize = 0):
        # The cache''','''    def parse(self, chunksize = 0):
        # The cache'''),] if False else [('librksv/depparser.py','        self.cache = dict()',
'''        self.__class__.cache = dict()''')],
'Two journals are parsed at the same time in one process with DictDEPParser-like parsers that cache certificates.',
'One parser drops or reuses the other\'s certificates.','''
done()
''')

B('C10-ocr-zero','C10',[('librksv/receipt.py','''        signature = base64.b64encode(signature)
        segments[13] = signature.decode('utf-8')''','''        # unused characters of the last Base 32 block
        signature = base64.b64encode(signature.rstrip(b'\\0'))
        segments[13] = signature.decode('utf-8')''')],
'A receipt whose signature ends in a zero byte (every 256th) is converted from its OCR code.',
'The signature loses its last byte; the receipt no longer verifies.','''
c = Cert('dev', 0x4711)
n = 0
for i in range(20000):
    r = Reg(c, n=i + 1)
    j = r.add(1.0)
    sig = base64.urlsafe_b64decode(j.split('.')[2] + '==')
    if sig[-1] and i >= 5:
        continue
    n += 1
    rec, p = receipt.Receipt.fromJWSString(j)
    back, e = outcome(receipt.Receipt.fromOCRCode, rec.toOCRCode(p))
    expect(e is None and back[0].toJWSString(p) == j, 'OCR code of %s: %s' % (j,
        e))
    if n >= 8:
        break
done()
''')

B('C07-not-at-start','C07',[('librksv/utils.py','''        if fst.encode('utf-8') != codecs.BOM_UTF8:
            fd.seek(pos)''','''        if fst.encode('utf-8') != codecs.BOM_UTF8:
            fd.seek(0)'''),('librksv/utils.py','''        if fst != codecs.BOM_UTF8:
            fd.seek(pos)''','''        if fst != codecs.BOM_UTF8:
            fd.seek(0)''')],
'A DEP is read from a file object that is positioned behind something else.',
'The parser starts at the beginning of the file and fails, or delivers other receipts.','''
import io
c = Cert('dev', 0x4711)
r, q = Reg(c), Reg(c, reg='OTHER')
for x in (r, q):
    x.add()
    for i in range(4):
        x.add(1.0)
a = json.dumps(dep(group(q.all, c)))
b = json.dumps(dep(group(r.all, c)))


def recs(parser):
    return [depparser.expandDEPReceipt(x) for ch in parser.parse(2)
        for g in ch for x in g[0]]
for pre in ('', 'DEP of REG:\\n', a + '\\n'):
    for cls in (depparser.FullFileDEPParser,
            depparser.IncrementalDEPParser.fromFd):
        for f in (io.StringIO(pre + b), io.BytesIO((pre + b).encode())):
            f.read(len(pre))
            v, e = outcome(lambda: recs(cls(f)))
            expect(v == r.all, 'behind %r: %s %s' % (pre[:12], e, v and
                len(v)))
done()
''')
