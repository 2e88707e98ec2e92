BUGS=[]
def B(i,p,edits,needs,breaks,demo):
    BUGS.append(dict(id=i,property=p,edits=edits,needs=needs,breaks=breaks,demo=demo))
B('C09-empty-group','C09',[('librksv/depexport.py','''                    rec_tuples, cert, cert_list = next(self._outer._backing)
                    if self''','''                    rec_tuples, cert, cert_list = next(self._outer._backing)
                    rec_tuples = list(rec_tuples)
                    if not rec_tuples:
                        # nothing to reinsert
                        raise
                    if self''')],'Groups are merged by the library of which one is empty and the next one continues the group before it.',
'The receipts after the empty group are lost.','''
c = Cert('dev', 0x4711)
r = Reg(c)
for i in range(4):
    r.add(a=1.0 * i)
t = [receipt.Receipt.fromJWSString(j) for j in r.all]
for mid in ([], [([], c.cert, [])], [([], None, [])]):
    s = depexport.MergingDEPStream()
    for g in [(t[:2], c.cert, [])] + mid + [(t[2:], c.cert, [])]:
        s.append(*g)
    out = json.loads(''.join(depexport.JSONExporter(s).export()))
    got = [j for g in out['Belege-Gruppe'] for j in g['Belege-kompakt']]
    expect(got == r.all, '%d receipts of %d' % (len(got), len(r.all)))
done()
''')
