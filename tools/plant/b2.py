BUGS=[]
def B(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

B('C01-unsigned-training','C01',[('librksv/verification_state.py','''                last.isDummy() or last.isReversal()) and stl.isSignedBroken():
''','''                last.isDummy() or last.isReversal()) and (
                stl.isSignedBroken() and not stl.isDummy()):
''')],'A package that ends with the first signed receipt after an outage whose last unsigned receipt is a training receipt, and a missing restore receipt in the next package.',
'A journal without restore receipt is accepted if it is cut at an unlucky place.','''
c = Cert('dev', 0x4711)
ks = store([c])
for kind in ({}, {'rev': True}, {'dummy': True}):
    r = Reg(c)
    r.add()
    r.add(a=1.0, down=True, **kind)
    r.add(a=2.0)
    r.add(a=3.0)
    d = dep(group(r.all, c))
    _, want = outcome(verify.verifyDEP, d, ks, AES)
    expect(want is not None, 'one pass accepts')
    for n in (1, 2, 3, 4):
        _, got = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d),
            ks, AES, None, None, None, 4, n)
        expect(got == want, 'chunks of %d: %s, one pass %s' % (n, got, want))
done()
''')

B('C01-wait-all','C01',[('librksv/verify.py','''        if res is not None:
            outRStates, outUsedRecIds = zip(*res.get())
            usedRecIds.merge(outUsedRecIds)
            rState = outRStates[-1]
''','''        if res is not None:
            outRStates, outUsedRecIds = zip(*res.get())
            usedRecIds.merge(outUsedRecIds)
            if outRStates[-1].lastTurnoverCounter or not key:
                rState = outRStates[-1]
''')],'A verification in several rounds of packages with a key, where the turnover counter is exactly zero at the end of a round.',
'A correct journal is rejected (or a damaged one accepted) depending on the size of chunks.','''
c = Cert('dev', 0x4711)
ks = store([c])
r = Reg(c)
for a in (0.0, 5.0, -5.0, 0.0, 3.0, -3.0, 1.0, 2.0):
    r.add(a=a)
d = dep(group(r.all, c))
want = verify.verifyDEP(d, ks, AES)
for n in (1, 2, 3, 4, 5):
    for np in (1, 2, 3):
        s, e = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d), ks,
            AES, None, None, None, np, n)
        expect(e is None, '%d/%d: %s' % (n, np, e))
        expect(state_json(s) == state_json(want), '%d/%d: state' % (n, np))
done()
''')

B('C02-sub-ca','C02',[('librksv/verify.py','''        if not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(''','''        # issuers in the key store are trusted already
        known = prev is not cert and keyStore.getCert(
                key_store.numSerialToKeyId(c.serial_number))
        if not known and not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(''')],
'A journal whose chain names a self-made intermediate certificate below a certificate of the key store that did not sign it.',
'Anyone can make journals that are accepted by inserting an own intermediate authority below a trusted one.','''
ca = Cert('ca', 0x100, ca=True)
sub = Cert('sub', 0x101, ca, ca=True)
good = Cert('dev', 0x4711, sub)
esub = Cert('sub', 0x102, ca=True)
evil = Cert('dev', 0x4712, esub)
ks = store([ca])
for dev, chain, ok in ((good, [sub, ca], True), (evil, [esub, ca], False),
        (evil, [sub, ca], False), (evil, [esub], False), (good, [ca], False)):
    r = Reg(dev)
    r.add()
    r.add(a=1.0)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, dev, chain)), ks, AES)
    expect((e is None) == ok, 'chain of %d: %s' % (len(chain), e))
done()
''')

B('C02-chain-memo','C02',[('librksv/verify.py','''        if not utils.verifyCert(prev, c):
            raise''','''        # Journals have many groups with the same chain.
        pair = (prev.serial_number, prev.issuer, c.serial_number, c.subject)
        if pair not in _goodPairs and utils.verifyCert(prev, c):
            _goodPairs.add(pair)
        if pair not in _goodPairs:
            raise'''),('librksv/verify.py','''def verifyCert(cert, chain, keyStore):
''','''_goodPairs = set()

def verifyCert(cert, chain, keyStore):
''')],'A genuine journal is verified first, then one with forged certificates with the same names and serials, in the same process.',
'A forged journal is accepted once a genuine one of the same device was verified.','''
ca = Cert('ca', 0x100, ca=True)
dev = Cert('dev', 0x4711, ca)
fca = Cert('ca', 0x100, ca=True)
fake = Cert('dev', 0x4711, fca)
ks = store([ca])
for d, ok in ((fake, False), (dev, True), (fake, False), (dev, True)):
    r = Reg(d)
    r.add()
    r.add(a=1.0)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, d, [ca])), ks, AES)
    expect((e is None) == ok, '%s: %s' % (ok, e))
done()
''')

B('C03-counter-width','C03',[('librksv/verify.py','''                    if turnoverCounter != newC:
''','''                    # registers may use as few as five bytes
                    if (turnoverCounter - newC) & 0xFFFFFFFFFF:
''')],'A receipt whose turnover counter is wrong by a multiple of 2^40.',
'A wrong turnover counter is accepted.','''
c = Cert('dev', 0x4711)
ks = store([c])
for bad, ok in ((500, True), (501, False), (500 + (1 << 32), False),
        (500 + (1 << 40), False), (500 - (1 << 41), False)):
    r = Reg(c)
    r.add()
    r.add(a=5.0, override={'turnoverCounter': bad})
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES)
    expect(e == (None if ok else 'InvalidTurnoverCounterException'),
        '%d: %s' % (bad, e))
done()
''')

B('C03-restore-training','C03',[('librksv/verify.py','''                if prevObj.isSignedBroken():
                    cashRegisterState''','''                if prevObj.isSignedBroken() and not ro.isDummy():
                    cashRegisterState''')],
'A signed training receipt is the first receipt after an outage, then normal receipts follow without a restore receipt.',
'The missing zero receipt after an outage is not noticed.','''
c = Cert('dev', 0x4711)
ks = store([c])
for kind in ({}, {'rev': True}, {'dummy': True}):
    r = Reg(c)
    r.add()
    r.add(a=1.0, down=True)
    r.add(a=2.0, **kind)
    r.add(a=3.0)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES)
    expect(e == 'NoRestoreReceiptAfterSignatureSystemFailureException',
        '%s: %s' % (kind, e))
done()
''')

B('C03-register-case','C03',[('librksv/verify.py','''            if prevObj.registerId != ro.registerId:
''','''            if prevObj.registerId.strip() != ro.registerId.strip():
''')],'A receipt with a register ID that differs from that of its predecessor in white space at its ends only.',
'A change of the register ID is accepted.','''
c = Cert('dev', 0x4711)
ks = store([c])
for rid, ok in (('REG', True), ('reg', False), ('REG ', False), (' REG', False),
        ('REG2', False)):
    r = Reg(c)
    r.add()
    r.add(a=1.0)
    r.add(a=1.0, override={'registerId': rid})
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks)if 0 else \\
        outcome(verify.verifyDEP, dep(group(r.all, c)), ks, None)
    expect(e == (None if ok else 'ChangingRegisterIdException'),
        '%r: %s' % (rid, e))
done()
''')

B('C04-register-zero','C04',[('librksv/verification_state.py','''        if registerIdx is None:
            registerIdx = len(self.cashRegisters) - 1
        elif registerIdx < 0''','''        if not registerIdx:
            registerIdx = len(self.cashRegisters) - 1
        elif registerIdx < 0''')],
'Continuing the journal of the first register of a cluster after another register was added.',
'The state of the last register is overwritten with that of the first one.','''
c = Cert('dev', 0x4711)
KID = 'U:ATU12345678'
ks = store(keys=[(KID, c)])


def reg(last=None, n=1):
    return Reg(c, zda='AT0', last=last, n=n, serial=KID)

a = reg()
for i in range(4):
    a.add(a=float(i))
b = reg(a.all[0], 100)
for i in range(3):
    b.add(a=float(2 * i))
s = verify.verifyDEP(dep(group(a.all[:2])), ks, AES)
s = verify.verifyDEP(dep(group(b.all)), ks, AES, s)
s, e = outcome(verify.verifyDEP, dep(group(a.all[2:])), ks, AES, s, 0)
expect(e is None, 'second session: %s' % e)
w = verify.verifyDEP(dep(group(a.all)), ks, AES)
w = verify.verifyDEP(dep(group(b.all)), ks, AES, w)
expect(state_json(s) == state_json(w), 'state differs')
done()
''')

B('C04-saved-flag','C04',[('librksv/verification_state.py','''        regs = list()
        for cr in self.cashRegisters:
            regs.append(copy.copy(cr.__dict__))
''','''        regs = list()
        for cr in self.cashRegisters:
            reg = copy.copy(cr.__dict__)
            if cr.lastReceiptJWS == cr.startReceiptJWS:
                # nothing but the start receipt so far
                reg = copy.copy(CashRegisterState().__dict__)
                reg['startReceiptJWS'] = cr.startReceiptJWS
                reg['lastReceiptJWS'] = cr.lastReceiptJWS
                reg['chainNextTo'] = cr.chainNextTo
            regs.append(reg)
''')],'A saved state of a register whose start receipt is the last one and whose state was prepared with a counter other than zero (a counter set by the state tool).',
'The turnover counter set in a state is lost when the state is written, so the journal is rejected.','''
c = Cert('dev', 0x4711)
ks = store([c])
r = Reg(c)
r.reg.turnoverCounter = 12300
r.add()
r.add(a=1.0)
s = verification_state.ClusterState()
s.addNewCashRegister()
s.cashRegisters[0].lastTurnoverCounter = 12300
s = verify.verifyDEP(dep(group(r.all[:1], c)), ks, AES, s, 0)
s2 = verification_state.ClusterState.readStateFromJson(json.loads(json.dumps(
    s.writeStateToJson())))
expect([x.__dict__ for x in s.cashRegisters] == [x.__dict__ for x in
    s2.cashRegisters], 'state changed by writing')
_, e = outcome(verify.verifyDEP, dep(group(r.all[1:], c)), ks, AES, s2, 0)
expect(e is None, 'second session: %s' % e)
done()
''')

B('C04-id-key','C04',[('librksv/verification_state.py','''    def _dataExport(self):
        return list(self._usedRecIds)
''','''    def _dataExport(self):
        # numbers take up less space without leading zeros
        return list(set(i.lstrip('0') if len(i) > 8 and i.isdigit() else i
            for i in self._usedRecIds))
''')],'Receipt IDs of more than eight digits with leading zeros, and a state that is saved.',
'A used ID is not known any more in the next session (or an unused one is refused).','''
c = Cert('dev', 0x4711)
ks = store([c])
for fmt in ('%d', '%05d', '%012d'):
    r = Reg(c, fmt=fmt)
    for i in range(4):
        r.add(a=float(i))
    r.add(a=1.0, rid=fmt % 2)
    _, want = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES)
    s = verify.verifyDEP(dep(group(r.all[:3], c)), ks, AES)
    s = verification_state.ClusterState.readStateFromJson(json.loads(json.dumps(
        s.writeStateToJson())))
    _, got = outcome(verify.verifyDEP, dep(group(r.all[3:], c)), ks, AES, s, 0)
    expect(got == want, '%s: %s, whole: %s' % (fmt, got, want))
done()
''')

B('C05-cache-issuer','C05',[('librksv/verify.py','''        if not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    key_store.numSerialToKeyId(c.serial_number))

        prev = c
''','''        if not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    key_store.numSerialToKeyId(c.serial_number))

        if keyStore.getCert(key_store.numSerialToKeyId(c.serial_number)):
            # spares us the rest of the chain next time
            keyStore.putKey(key_store.numSerialToKeyId(prev.serial_number),
                    prev.public_key(), prev)

        prev = c
''')],'A journal with a forged certificate that has the serial of a trusted issuer and signed an own device certificate; the verification fails, the next one with the same key store accepts it.',
'A rejected journal leaves its own certificate in the key store as trusted.','''
ca = Cert('ca', 0x100, ca=True)
dev = Cert('dev', 0x4711, ca)
fca = Cert('ca', 0x100, ca=True)
fake = Cert('dev', 0x4712, fca)
ks = store([ca])
before = ks.writeStoreToJson(None)
r = Reg(fake)
r.add()
r.add(a=1.0)
d = dep(group(r.all, fake, [fca]))
for i in range(2):
    _, e = outcome(verify.verifyDEP, d, ks, AES)
    expect(e == 'CertificateSerialCollisionException', 'try %d: %s' % (i, e))
    expect(ks.writeStoreToJson(None) == before, 'key store changed')
done()
''')

B('C05-add-before','C05',[('librksv/verify.py','''    if not state:
        state = verification_state.ClusterState(usedRecIdsBackend)

    # Use the same''','''    if not state:
        state = verification_state.ClusterState(usedRecIdsBackend)
    if cashRegisterIdx is not None and cashRegisterIdx == len(
            state.cashRegisters) and cashRegisterIdx > 0:
        state.addNewCashRegister()

    # Use the same'''),('librksv/verify.py','''    outRStates, outUsedRecIds = zip(*res.get())
    usedRecIds.merge(outUsedRecIds)
    rState = outRStates[-1]

    if cashRegisterIdx''','''    outRStates, outUsedRecIds = zip(*res.get())
    usedRecIds.merge(outUsedRecIds)
    rState = outRStates[-1]

    if cashRegisterIdx''')],'x','x','x')
BUGS.pop()

B('C06-float-counter','C06',[('verification_state.py','''            sys.argv[3])].lastTurnoverCounter = int(sys.argv[4])
''','''            sys.argv[3])].lastTurnoverCounter = int(float(sys.argv[4]))
''')],'A turnover counter of more than 2^53 cents.',
'The state tool stores another counter than the one it was told to.','''
import shutil
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'state.json')
    expect(script('verification_state.py', f, 'create').returncode == 0, 'create')
    expect(script('verification_state.py', f, 'addCashRegister').returncode == 0,
        'add')
    for n in ('0', '-5', '123456789012', '9007199254740993'):
        p = script('verification_state.py', f, 'setLastTurnoverCounter', '0', n)
        got = json.load(open(f))['cashRegisters'][0]['lastTurnoverCounter']
        expect(p.returncode == 0 and got == int(n), '%s: %s' % (n, got))
finally:
    shutil.rmtree(d)
done()
''')

B('C06-key-case','C06',[('librksv/key_store.py','''        kDict = dict()
        for keyId, kt in self.keydict.items():
            cont = dict()
''','''        kDict = dict()
        for keyId, kt in self.keydict.items():
            cont = dict()
            if kt.cert:
                # certificates always go by their serial
                keyId = numSerialToKeyId(kt.cert.serial_number)
''')],'A key store with a certificate stored under another name than its serial, and any command that changes another entry.',
'The entry is renamed, or lost if its serial is in use by another certificate.','''
import shutil
c, c2, k = Cert('dev', 0x4711), Cert('dev2', 0x4712), Cert('key', 0x4713)
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'ks.json')
    j = store_json([c])
    j['certificateOrPublicKeyMap'] = {n: {'id': n, 'signatureDeviceType':
        'CERTIFICATE', 'signatureCertificateOrPublicKey': x.one} for n, x in
        (('4711', c), ('U:ATU1', c2), ('4711b', c))}
    json.dump(j, open(f, 'w'))
    pk = os.path.join(d, 'k.pem')
    open(pk, 'w').write(k.pubpem)
    p = script('key_store.py', f, 'add', pk, 'S:123456789')
    expect(p.returncode == 0, p.stderr)
    got = json.load(open(f))['certificateOrPublicKeyMap']
    expect(sorted(got) == ['4711', '4711b', 'S:123456789', 'U:ATU1'],
        sorted(got))
    for n in j['certificateOrPublicKeyMap']:
        expect(got[n] == j['certificateOrPublicKeyMap'][n], n)
finally:
    shutil.rmtree(d)
done()
''')

B('C07-rewind','C07',[('librksv/depparser.py','''        ofs = self.fd.tell()
        self.fd.seek(self.startpos)
        items''','''        ofs = self.fd.tell()
        self.fd.seek(0)
        items''')],'A DEP file with a byte order mark whose certificates come after the receipts, read in chunks.',
'The parser fails for a correct DEP.','''
import io
c, c2 = Cert('a', 0x4711), Cert('b', 0x4712)
r = Reg(c)
for i in range(5):
    r.add()
r2 = Reg(c2)
for i in range(4):
    r2.add()
gs = []
for x, y in ((r, c), (r2, c2)):
    gs.append({'Belege-kompakt': x.all, 'Signaturzertifikat': y.one,
        'Zertifizierungsstellen': []})
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'dep.json')
    for bom in ('', chr(0xFEFF)):
        open(f, 'w', encoding='utf-8').write(bom + json.dumps({'Belege-Gruppe':
            gs}))
        for n in (1, 2, 5, 100):
            with open(f, encoding='utf-8') as fd:
                ch, e = outcome(lambda: list(
                    depparser.IncrementalDEPParser.fromFd(fd).parse(n)))
            expect(e is None, 'chunks of %d, mark %r: %s' % (n, bom, e))
            got = [(rec.decode(), ce.serial_number) for x in ch for recs, ce, cs
                in x for rec in recs]
            expect(got == [(x, 0x4711) for x in r.all] + [(x, 0x4712) for x in
                r2.all], 'receipts')
finally:
    import shutil
    shutil.rmtree(d)
done()
''')

B('C07-cert-cache','C07',[('librksv/depparser.py','''        if chunksize == 0 or len(items) <= chunksize:
            self.cache[prefix] = items
''','''        # The lists of authorities mostly are the same everywhere.
        if len(items) > 1 and all(i == items[0] for i in items[1:-1]):
            items = [items[0]] * len(items)
        if chunksize == 0 or len(items) <= chunksize:
            self.cache[prefix] = items
''')],'A DEP with three or more groups of which only the last has another certificate, with certificates after the receipts, read in chunks.',
'Receipts are delivered with the certificate of another group.','''
cs = [Cert('a', 0x4711), Cert('b', 0x4712)]
d = tempfile.mkdtemp()
try:
    for pat in ('0', '01', '001', '010', '0101', '0110', '0001'):
        gs, want = [], []
        for i, p in enumerate(pat):
            c = cs[int(p)]
            r = Reg(c, n=10 * i)
            for k in range(3):
                r.add()
            gs.append({'Belege-kompakt': r.all, 'Signaturzertifikat': c.one,
                'Zertifizierungsstellen': []})
            want += [(x, c.serial) for x in r.all]
        f = os.path.join(d, 'dep.json')
        json.dump({'Belege-Gruppe': gs}, open(f, 'w'))
        for n in (1, 2, 4, 100):
            with open(f) as fd:
                ch = list(depparser.IncrementalDEPParser.fromFd(fd).parse(n))
            got = [(rec.decode(), ce.serial_number) for x in ch for recs, ce, _
                in x for rec in recs]
            expect(got == want, 'groups %s, chunks of %d' % (pat, n))
finally:
    import shutil
    shutil.rmtree(d)
done()
''')

B('C08-cut-off','C08',[('librksv/depparser.py','''            # The entire DEP is parsed, get the rest.
''','''        except ijson.common.IncompleteJSONError as e:
            # some registers forget to close the outermost braces
            if not isinstance(state, (DEPStateBGList, DEPStateRootMap)) or (
                    not got_something):
                raise DEPParseException(_('Malformed JSON: {}.').format(e))

        try:
            # The entire DEP is parsed, get the rest.
''')],'A DEP cut off between two groups, after at least one chunk was delivered.',
'A truncated DEP is silently accepted as complete.','''
import io
c = Cert('a', 0x4711)
r = Reg(c)
for i in range(6):
    r.add()
text = json.dumps({'Belege-Gruppe': [group(r.all[:3], c), group(r.all[3:], c)]})
for n in (0, 1, 2, 3, 100):
    _, e = outcome(lambda: list(depparser.IncrementalDEPParser.fromFd(
        io.StringIO(text)).parse(n)))
    expect(e is None, 'whole: %s' % e)
    for cut in range(0, len(text), 1 if n == 2 else 7):
        _, e = outcome(lambda: list(depparser.IncrementalDEPParser.fromFd(
            io.StringIO(text[:cut])).parse(n)))
        expect(e is not None, 'cut at %d of %d, chunks of %d: accepted' % (cut,
            len(text), n))
done()
''')

B('C08-flag-default','C08',[('librksv/verification_state.py','''        if 'needRestoreReceipt' not in d:
            raise MissingStateElementException('needRestoreReceipt', regidx)
''','''        if 'needRestoreReceipt' not in d and d.get('startReceiptJWS'):
            raise MissingStateElementException('needRestoreReceipt', regidx)
'''),('librksv/verification_state.py','''        ret.needRestoreReceipt = d['needRestoreReceipt']
''','''        ret.needRestoreReceipt = d.get('needRestoreReceipt', False)
''')],'A saved state without the restore flag in a register without start receipt (e.g. made from an arbitrary receipt).',
'A damaged state is silently accepted.','''
s = verification_state.ClusterState()
s.addNewCashRegister()
c = Cert('a', 0x4711)
r = Reg(c)
r.add()
r.add(a=1.0)
ro, p = receipt.Receipt.fromJWSString(r.all[1])
s2 = verification_state.ClusterState.fromArbitraryReceipt(ro, p, AES)
s3 = verify.verifyDEP(dep(group(r.all, c)), store([c]), AES)
for st in (s, s2, s3):
    j = json.loads(json.dumps(st.writeStateToJson()))
    for k in list(j['cashRegisters'][0]):
        j2 = json.loads(json.dumps(j))
        del j2['cashRegisters'][0][k]
        _, e = outcome(verification_state.ClusterState.readStateFromJson, j2)
        expect(e == 'MissingStateElementException', '%s: %s' % (k, e))
done()
''')
