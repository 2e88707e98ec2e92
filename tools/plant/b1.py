BUGS=[]
def B(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

B('C01-dup-nonadjacent','C01',[('librksv/verification_state.py','''        for rIds in usedReceiptIdsList:
            for rId in rIds._usedRecIds:
                self.check(rId)
                self.add(rId)
''','''        last = set()
        known = frozenset(self._usedRecIds)
        for rIds in usedReceiptIdsList:
            for rId in rIds._usedRecIds:
                if rId in known or rId in last:
                    raise DuplicateReceiptIdException(rId)
            last = rIds._usedRecIds
            self._usedRecIds |= last
''')],'A receipt ID used twice, with the two uses in work packages of the same batch that are not neighbours (at least three packages).',
'A journal that a sequential verification rejects is accepted when it is spread over three or more packages.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
for i in range(4):
    r.add(a=1.0)
r.add(a=1.0, rid='2')
r.add(a=1.0)
d = dep(group(r.all, c))
ks = store([c])
_, want = outcome(verify.verifyDEP, d, ks, AES)
expect(want == 'DuplicateReceiptIdException', 'one pass: %s' % want)
for n in (1, 2, 3, 4, 8):
    _, got = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d), ks,
        AES, None, None, None, n, 1)
    expect(got == want, '%d packages: %s' % (n, got))
done()
''')

B('C01-restore-carry','C01',[('librksv/verification_state.py','''        if not last.isSignedBroken() and stl and (not last.isNull() or
                last.isDummy() or last.isReversal()) and stl.isSignedBroken():
            self.needRestoreReceipt = True
        else:
            self.needRestoreReceipt = False
''','''        if last.isSignedBroken() or not stl:
            self.needRestoreReceipt = False
        else:
            restored = last.isNull() and not last.isDummy()
            self.needRestoreReceipt = stl.isSignedBroken() and not restored
''')],'The last receipt of a chunk is a reversal with zero amounts right after an unsigned receipt, and the restore receipt is missing in the next chunk.',
'A journal without restore receipt after an outage is accepted if a package ends at an unlucky place.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
r.add(a=1.0, down=True)
r.add(rev=True)
r.add(a=2.0)
d = dep(group(r.all, c))
ks = store([c])
_, want = outcome(verify.verifyDEP, d, ks, AES)
expect(want is not None, 'one pass accepts')
for n in (1, 2, 3, 4):
    _, got = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d), ks,
        AES, None, None, None, 4, n)
    expect(got == want, 'chunks of %d: %s, one pass %s' % (n, got, want))
done()
''')

B('C01-reversal-carry','C01',[('librksv/verification_state.py','''            if ro.isReversal():
                reversals.insert(0, ro)
''','''            if ro.isReversal() and ro.sumA + ro.sumB + ro.sumC > 0 - ro.sumD:
                reversals.insert(0, ro)
            elif ro.isReversal() and not reversals:
                reversals.append(ro)
''')],'Two or more negative reversal receipts in a row at the end of a package, followed by another package, with a key.',
'The turnover counter handed to the next package is wrong, so a correct journal is rejected when it is cut there.','''
c = Cert('dev', 0x4711)
r = Reg(c)
r.add()
r.add(a=100.0)
r.add(a=-10.0, rev=True)
r.add(e=-5.0, rev=True)
r.add(a=2.0)
d = dep(group(r.all, c))
ks = store([c])
_, want = outcome(verify.verifyDEP, d, ks, AES)
expect(want is None, 'one pass: %s' % want)
for n in (1, 2, 3, 4):
    _, got = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(d), ks,
        AES, None, None, None, 4, n)
    expect(got == want, 'chunks of %d: %s' % (n, got))
done()
''')

B('C02-issuer-fastpath','C02',[('librksv/verify.py','''        if not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(''','''        # issuers in the key store are trusted already
        trusted = keyStore.getCert(
                key_store.numSerialToKeyId(c.serial_number))
        if not trusted and not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(''')],
'A journal with a self-made certificate whose chain names a certificate of the key store that did not sign it.',
'Anyone can make journals that are accepted by attaching a trusted certificate as alleged issuer.','''
ca = Cert('ca', 0x100, ca=True)
sub = Cert('sub', 0x101, ca, ca=True)
good = Cert('dev', 0x4711, sub)
evil = Cert('dev', 0x4712)
ks = store([sub])
for dev, chain, ok in ((good, [sub], True), (good, [sub, ca], True),
        (evil, [sub], False), (evil, [sub, ca], False), (evil, [], False)):
    r = Reg(dev)
    r.add()
    r.add(a=1.0)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, dev, chain)), ks, AES)
    expect((e is None) == ok, 'chain of %d: %s' % (len(chain), e))
done()
''')

B('C02-same-serial','C02',[('librksv/verify.py','''        if ksCert:
            if utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
                raise CertificateSerialCollisionException(
                        key_store.numSerialToKeyId(prev.serial_number),
                        utils.certFingerprint(prev),
                        utils.certFingerprint(ksCert))
            return

        if not''','''        if ksCert and utils.certFingerprint(ksCert) == utils.certFingerprint(
                prev):
            return
        if ksCert and ksCert.subject != prev.subject:
            raise CertificateSerialCollisionException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    utils.certFingerprint(prev),
                    utils.certFingerprint(ksCert))
        if ksCert:
            return

        if not''')],
'A certificate with serial and subject of a trusted one but another key, in a group that also lists an issuer.',
'A journal signed with a foreign key is accepted.','''
ca = Cert('ca', 0x100, ca=True)
dev = Cert('dev', 0x4711, ca)
fake_ca = Cert('ca', 0x100, ca=True)
fake = Cert('dev', 0x4711, fake_ca)
for trust in ([dev], [ca]):
    ks = store(trust)
    for d, chain, ok in ((dev, [ca], True), (fake, [fake_ca], False),
            (fake, [ca], False)):
        r = Reg(d)
        r.add()
        r.add(a=1.0)
        _, e = outcome(verify.verifyDEP, dep(group(r.all, d, chain)), ks, AES)
        expect((e is None) == ok, '%s' % e)
done()
''')

B('C03-date-training','C03',[('librksv/verify.py','''            if prevObj.dateTime > ro.dateTime:
''','''            if not ro.isDummy() and prevObj.dateTime > ro.dateTime:
''')],'A training receipt dated before its predecessor.',
'A journal whose times run backwards at a training receipt is accepted.','''
c = Cert('dev', 0x4711)
ks = store([c])
for kind in ({}, {'dummy': True}, {'rev': True}, {'down': True}):
    r = Reg(c)
    r.add()
    r.add(a=1.0, dt=-3600)
    r.add(a=1.0, dt=7200, **kind)
    r.add()
    r.add()
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES)
    expect(e == 'DecreasingDateException', '%s: %s' % (kind, e))
done()
''')

B('C03-zero-counter','C03',[('librksv/verify.py','''                if not ro.isReversal():
                    turnoverCounter =''','''                if newC and not ro.isReversal():
                    turnoverCounter =''')],
'A receipt after which the turnover counter has to be exactly zero although there was turnover, and which has another counter.',
'A wrong turnover counter is accepted.','''
c = Cert('dev', 0x4711)
ks = store([c])
for bad in (0, 1, -500):
    r = Reg(c)
    r.add()
    r.add(a=5.0)
    r.add(a=-5.0, override={'turnoverCounter': bad})
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES)
    expect((e == 'InvalidTurnoverCounterException') == (bad != 0),
        '%d: %s' % (bad, e))
done()
''')

B('C04-register-zero','C04',[('librksv/verification_state.py','''        if registerIdx is None:
            registerIdx = len(self.cashRegisters) - 1
        elif registerIdx < 0''','''        if not registerIdx:
            registerIdx = len(self.cashRegisters) - 1
        elif registerIdx < 0''')],
'Continuing the journal of the first register of a cluster after another register was added.',
'The state of the last register is overwritten with that of the first one.','''
c = Cert('dev', 0x4711)
ks = store(keys=[('KEY', c)])


def reg(last=None, n=1):
    return Reg(c, zda='AT0', last=last, n=n, serial='KEY')

a = reg()
for i in range(4):
    a.add(a=float(i))
b = reg(a.all[0], 100)
for i in range(3):
    b.add(a=float(2 * i))
s = verify.verifyDEP(dep(group(a.all[:2])), ks, AES)
s = verify.verifyDEP(dep(group(b.all)), ks, AES, s)
s, e = outcome(verify.verifyDEP, dep(group(a.all[2:])), ks, AES, s, 0)
expect(e is None, 'second session: %s' % e)
w = verify.verifyDEP(dep(group(a.all)), ks, AES)
w = verify.verifyDEP(dep(group(b.all)), ks, AES, w)
expect(state_json(s) == state_json(w), 'state differs')
done()
''')

B('C05-shallow-ids','C05',[('librksv/verification_state.py','''                cashRegisters[registerIdx]), copy.deepcopy(
                        self.usedReceiptIds)''','''                cashRegisters[registerIdx]), copy.copy(
                        self.usedReceiptIds)''')],
'A verification that fails in a later batch of work packages, followed by another one with the same state.',
'Receipt IDs of the rejected journal stay in the state, so the repaired journal is rejected as well.','''
c = Cert('dev', 0x4711)
ks = store([c])
r = Reg(c)
r.add()
for i in range(6):
    r.add(a=1.0)
s = verify.verifyDEP(dep(group(r.all[:1], c)), ks, AES)
before = state_json(s)
bad = r.all[1:]
bad[4] = bad[4][:-8] + 'AAAAAAAA'
_, e = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(dep(group(bad,
    c))), ks, AES, s, 0, None, 1, 1)
expect(e == 'InvalidSignatureException', 'damaged journal: %s' % e)
expect(state_json(s) == before, 'state changed by a failed verification')
_, e = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(dep(group(
    r.all[1:], c))), ks, AES, s, 0, None, 1, 1)
expect(e is None, 'repaired journal: %s' % e)
done()
''')

B('C14-training-sum','C14',[('librksv/verification_state.py','''            if ro.isReversal():
                reversals.insert(0, ro)
''','''            if ro.isReversal() or (ro.isDummy() and i == 0):
                reversals.insert(0, ro)
''')],'A portion that begins with a training receipt with amounts and has no normal receipt.',
'The rebuilt state counts the training receipt as turnover.','''
c = Cert('dev', 0x4711)
ks = store([c])
r = Reg(c)
r.add()
r.add(a=3.0)
r.add(a=7.0, dummy=True)
r.add(a=-1.0, rev=True)
want = verify.verifyDEP(dep(group(r.all, c)), ks, AES).cashRegisters[0]
for n in (1, 2, 3, 4):
    s = verification_state.CashRegisterState()
    for i in range(0, len(r.all), n):
        s.updateFromDEPGroup([x.encode() for x in r.all[i:i + n]], AES)
    expect(s.__dict__ == want.__dict__, 'portions of %d: %s, verified: %s' % (n,
        s.lastTurnoverCounter, want.lastTurnoverCounter))
done()
''')

B('C16-long-numbers','C16',[('librksv/verification_state.py','''        return [ int(c) if i % 2 else c.lower()
''','''        return [ c.zfill(12) if i % 2 else c.lower()
''')],'Receipt IDs with numbers of more than twelve digits, of different lengths.',
'The natural order of IDs is wrong: used IDs are accepted again or new ones rejected.','''
B = verification_state.USED_RECEIPT_IDS_BACKENDS[
    'USED_RECEIPT_IDS_SORTED_NATURAL']
c = Cert('dev', 0x4711)
ks = store([c])
for ids, ok in ((['1', '9' * 12, '1' + '0' * 12], True),
        (['1', '9' * 13, '1' + '0' * 13], True),
        (['1', '1' + '0' * 13, '9' * 13], False)):
    r = Reg(c)
    for i in ids:
        r.add(rid=i)
    _, e = outcome(verify.verifyDEP, dep(group(r.all, c)), ks, AES,
        verification_state.ClusterState(B))
    expect((e is None) == ok, '%s: %s' % (ids, e))
done()
''')

B('C16-single-package','C16',[('librksv/verification_state.py','''            # we assume rIds._minId <= rIds._maxId
            self.check(rIds._minId)
''','''            # we assume rIds._minId <= rIds._maxId
            if rIds._minId != rIds._maxId or self._minId == self._maxId:
                self.check(rIds._minId)
''')],'The space-saving record of IDs and a work package of exactly one receipt whose ID was used before.',
'A used receipt ID is accepted again.','''
B = verification_state.USED_RECEIPT_IDS_BACKENDS[
    'USED_RECEIPT_IDS_SORTED_NATURAL']
c = Cert('dev', 0x4711)
ks = store([c])
r = Reg(c)
for i in range(5):
    r.add(a=0.0)
r.add(rid='3')
for n in (0, 1, 2, 5):
    _, e = outcome(verify.verifyParsedDEP, depparser.DictDEPParser(dep(group(
        r.all, c))), ks, AES, verification_state.ClusterState(B), None, None,
        2, n)
    expect(e == 'DuplicateReceiptIdException', 'chunks of %d: %s' % (n, e))
done()
''')
