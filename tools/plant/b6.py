BUGS=[]
def B(i,p,edits,needs,breaks,demo):
    BUGS.append(dict(id=i,property=p,edits=edits,needs=needs,breaks=breaks,demo=demo))
B('C15-shared-parser','C15',[('librksv/depparser.py','''    def __getItems(self, prefix, chunksize):
''','''    cache = dict()

    def __getItems(self, prefix, chunksize):
'''),('librksv/depparser.py','        self.cache = dict()\n','        self.cache.clear()\n')],
'Two threads (or two generators) of one process parse two DEPs at the same time in chunks, in which the certificates stand behind the receipts.',
'One parser takes the certificates of the other DEP.','''
import io
ds = []
for k in range(2):
    c = Cert('dev %d' % k, 0x4711 + k)
    r = Reg(c, reg='R%d' % k)
    r.add()
    for i in range(5):
        r.add(1.0)
    g = group(r.all, c)
    g = {n: g[n] for n in ('Belege-kompakt', 'Zertifizierungsstellen',
        'Signaturzertifikat')}
    ds.append((c, r, json.dumps(dep(g))))


def start(k):
    return depparser.IncrementalDEPParser.fromFd(io.StringIO(ds[k][2]),
        True).parse(2)


def got(ch):
    return [[depparser.expandDEPReceipt(x) for x in rs] + [hex(
        cert.serial_number)] for rs, cert, chain in ch]
alone = [[got(ch) for ch in start(k)] for k in (0, 1)]
for pattern in ((0, 1) * 3, (0, 0, 1, 1, 0, 1), (1, 0, 0, 1, 1, 0)):
    gen = [start(0), start(1)]
    out = [[], []]
    for k in pattern:
        out[k].append(got(next(gen[k])))
    expect(out == alone, 'order %s' % (pattern,))
done()
''')
