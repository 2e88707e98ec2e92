BUGS=[]
def B(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

B('C21-demo-pipe','C21',[('demo.py','''    for s in exporter.export():
        print(s, end='')
    print()
''','''    try:
        for s in exporter.export():
            print(s, end='')
        print(flush=True)
    except IOError:
        # the reader has seen enough
        sys.stdout = open(os.devnull, 'w')
'''),('demo.py','''import datetime
import random
''','''import datetime
import os
import random
''')],'The output of demo.py cannot be written completely (full disk, closed pipe).',
'demo.py reports success although the demonstration journal is incomplete.','''
c = Cert('dev', 0x4711)
with tempfile.TemporaryDirectory() as t:
    for n, d in (('priv', c.privpem), ('cert', c.pem), ('aes',
            base64.b64encode(AES).decode())):
        with open(os.path.join(t, n), 'w') as f:
            f.write(d)
    for out, ok in (('/dev/null', True), ('/dev/full', False)):
        with open(out, 'w') as o:
            p = subprocess.run([sys.executable, os.path.join(REPO, 'demo.py'),
                os.path.join(t, 'priv'), os.path.join(t, 'cert'),
                os.path.join(t, 'aes'), '40'], stdout=o,
                stderr=subprocess.PIPE, cwd=REPO)
        expect((p.returncode == 0) == ok, '%s: %d' % (out, p.returncode))
done()
''')

B('C21-demo-unsigned','C21',[('demo.py','''                sumA, sumB, sumC, sumD, sumE, sigsystem, dummy, reversal)
        yield (receipt, 'R1')
''','''                sumA, sumB, sumC, sumD, sumE, sigsystem, dummy, reversal)
        if dummy and receipt.isSignedBroken():
            # trainings that nobody signed are of no use in a journal
            continue
        yield (receipt, 'R1')
''')],'demo.py with the remote signing service, which fails while a training receipt is signed.',
'The journal has fewer receipts than asked for and a gap in its chain.','''
import io, runpy, random, requests
from unittest import mock
c = Cert('dev', 0x4711)
fail = [False]

class Answer:
    def __init__(self, j):
        self.j, self.status_code = j, 200

    def json(self):
        return self.j

    def raise_for_status(self):
        pass


def get(url, **k):
    return Answer({'ZertifikatsseriennummerHex': c.hex(), 'alg': 'ES256',
        'zdaid': 'AT1'})


def post(url, json=None, **k):
    n[0] += 1
    if n[0] % 3 == 0 and fail[0]:
        raise requests.exceptions.ConnectionError('down')
    return Answer({'result': c.sig().sign(json['jws_payload'],
        algorithms.ALGORITHMS['R1'])})
with tempfile.TemporaryDirectory() as t:
    aes = os.path.join(t, 'aes')
    with open(aes, 'w') as f:
        f.write(base64.b64encode(AES).decode())
    for fail[0] in (False, True):
        n = [0]
        random.seed(7)
        out = io.StringIO()
        with mock.patch('requests.get', get), mock.patch('requests.post',
                post), mock.patch('sys.stdout', out), mock.patch('sys.argv',
                ['demo.py', aes, '60']):
            runpy.run_path('demo.py', run_name='__main__')
        d = json.loads(out.getvalue())
        expect(sum(len(g['Belege-kompakt']) for g in d['Belege-Gruppe']) == 60,
            'not 60 receipts, failing: %s' % fail[0])
done()
''')

B('C21-demo-id','C21',[('demo.py','''        receiptId = "%05d" % i
''','''        # registers usually number their receipts per day
        receiptId = datetime.datetime.now().strftime('%d%H%M%S%f')
''')],'The clock of demo.py is set back (or too coarse) while receipts are made.',
'Two receipts of the journal get the same ID.','''
import io, runpy
from unittest import mock
c = Cert('dev', 0x4711)
real = datetime.datetime
now = [real(2020, 5, 5, 12), datetime.timedelta(0)]


class Clock(real):
    @classmethod
    def now(cls, tz=None):
        now[0] += now[1]
        if now[0].minute > 30:
            now[0] = now[0].replace(minute=10, second=0, microsecond=0)
        return now[0]
with tempfile.TemporaryDirectory() as t:
    fs = []
    for n, d in (('priv', c.privpem), ('cert', c.pem), ('aes',
            base64.b64encode(AES).decode())):
        fs.append(os.path.join(t, n))
        with open(fs[-1], 'w') as f:
            f.write(d)
    for step in (1, 60, 0, 600):
        now[1] = datetime.timedelta(seconds=step)
        out = io.StringIO()
        with mock.patch('datetime.datetime', Clock), mock.patch('sys.stdout',
                out), mock.patch('sys.argv', ['demo.py'] + fs + ['30']):
            runpy.run_path('demo.py', run_name='__main__')
        ids = [receipt.Receipt.fromJWSString(j)[0].receiptId for j in
            json.loads(out.getvalue())['Belege-Gruppe'][0]['Belege-kompakt']]
        expect(len(ids) == 30 == len(set(ids)), 'IDs with steps of %d s: %s' %
            (step, ids))
done()
''')

B('C11-client-error','C11',[('librksv/sigsys.py','''            r.raise_for_status()
            result = r.json()['result']
''','''            if r.status_code >= 500:
                r.raise_for_status()
            result = r.json()['result']
''')],'The signing service refuses a request with an error status below 500 and a JSON body.',
'The register cannot issue receipts instead of issuing unsigned ones.','''
import requests
from unittest import mock
c = Cert('dev', 0x4711)
mode = [0]


class Answer(requests.Response):
    def __init__(self, status, j):
        super().__init__()
        self.status_code, self._content = status, json.dumps(j).encode()


def get(url, **k):
    return Answer(200, {'ZertifikatsseriennummerHex': c.hex(), 'alg': 'ES256',
        'zdaid': 'AT1'})


def post(url, json=None, **k):
    if mode[0]:
        return Answer(mode[0], {'message': 'no'})
    return Answer(200, {'result': c.sig().sign(json['jws_payload'],
        algorithms.ALGORITHMS['R1'])})
with mock.patch('requests.get', get), mock.patch('requests.post', post):
    s = sigsys.SignatureSystemATrustMobile('u', 'p')
    reg = cashreg.CashRegister('R', None, 0, AES)
    for i, mode[0] in enumerate((0, 500, 503, 0, 401, 404, 429, 0)):
        r, e = outcome(reg.receipt, 'R1', str(i), T0, 0.0, 0.0, 0.0, 0.0, 0.0,
            s)
        expect(e is None and r.isSignedBroken() == bool(mode[0]), '%d: %s' %
            (mode[0], e))
done()
''')

