"""C12: a receipt from a URL or a list is reported valid only if it is."""
import base64
import json
import re

import flask

from .. import case, core, deprender, forms, lib, model, script, simcrypto, \
    simfs, simio, simnet, world
from ..core import InvalidPlan, Violation
from librksv import url_receipt_helpers, verify_receipt

RUNS = {'quick': 11000, 'thorough': 150000}
FROZEN = ()
RULE = ('A run has genuine, altered, forged, unsigned and damaged receipts of '
    'one register, published by receipt_host.py, and checks lists of them '
    'with verify_receipt.py in one of five forms, or asks the library for '
    'single URLs, while the network fails and the server gives other, stale, '
    'altered, re-signed, partial or redirected answers and reading, writing '
    'or the process fails. Non-trivial: a list was checked to its end or a '
    'server was loaded.')
REAL = ['verify_receipt.py', 'receipt_host.py (Flask application)',
    'librksv.verify_receipt', 'librksv.url_receipt_helpers',
    'librksv.receipt', 'librksv.key_store', 'librksv.depparser',
    'requests (above the transport)']
STUB = ['network transport', 'HTTP server loop (requests reach the Flask '
    'application directly)', 'disk and standard streams', 'cash register '
    '(reference implementation)']
ASSUME = ['the receipt URL contains the hash as its last 11 character word or '
    'as its fragment', 'a request that fails may end the whole tool with an '
    'error']
SEARCH = ('lists of receipts, forms, sequences of network faults and wrong '
    'answers, damaged loads of the server, I/O errors and crashes')
ORACLE = ('the reference verifier on every single receipt and an '
    'independently computed table of hashes')
NOTE = ('Samples lists of up to 20 receipts; a violation it reports is real, '
    'silence is evidence over the explored runs, not proof.')
ANSWERS = ['other', 'stale', 'altered', 'sigflip', 'resigned', 'code-null',
    'code-list', 'code-empty', 'code-cut', 'redirect', 'as-jws', 'as-ocr',
    'unsigned', 'error-body']
NET = [f for f in simnet.FAULTS]
MUST_HIT = ['net:' + f for f in NET + ANSWERS] + ['list', 'single', 'in-jws',
    'in-qr', 'in-ocr', 'in-csv', 'in-url', 'host-dep', 'host-jws',
    'unknown-hash', 'truncated', 'EIO-read', 'crash-kill', 'EPIPE-stdout',
    'altered', 'forged', 'swapped', 'malformed', 'all-good', 'some-bad',
    'load-failed', 'api-url', 'url-valid', 'url-invalid', 'reloaded',
    'mangled', 'suffix', 'no-key', 'fragment', 'no-hash']


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20])
    j = world.gen_journal(rng, n)
    form = rng.choice(['jws', 'qr', 'ocr', 'csv', 'url', 'url', 'url', 'url'])
    bad = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        bad.append([rng.randrange(n), rng.choice(['altered', 'altered',
            'forged', 'swapped', 'malformed', 'blank', 'unsigned']),
            rng.randrange(10**6)])
    p = rng.choice([0, 0, 0.1, 0.4])
    net = [[i, rng.choice(ANSWERS + ANSWERS + NET)] for i in range(n)
        if rng.random() < p]
    return {'j': j, 'mode': rng.choice(['list', 'list', 'list', 'single',
        'api', 'host']), 'form': form, 'bad': bad, 'net': net,
        'trust': rng.choice(['all', 'leaf', 'leaf', 'leaf', 'none', 'some']),
        'load': rng.choice(['dep', 'dep', 'jws']),
        'layout': deprender.gen_layout(rng),
        'chunk': rng.choice([None, 1, 2, 3, 100]),
        'stream': simio.gen_stream_plan(rng, kinds=('text',)),
        'fault': rng.choice([None, None, None, None, 'EIO-read', 'EIO',
            'kill', 'truncated', 'EPIPE-stdout', 'ENOSPC-stdout', 'load-EIO',
            'load-truncated', 'load-kill', 'EACCES']),
        'at': rng.choice([rng.randrange(6), rng.randrange(40),
            rng.randrange(3000)]), 'a': rng.randrange(10**6),
        'prefix': rng.randrange(5), 'suffix': rng.choice([0, 0, 1, 2, 3, 4]),
        # hashes that are wrong in the link itself
        'mangle': [[rng.randrange(n), rng.randrange(10)] for _ in
            range(rng.choice([0, 0, 1, 3]))], 'asks': [rng.randrange(10**6) for _ in
            range(4)], 'reload': rng.random() < 0.2}


def alter(jws, how, a, recs, dev):
    """A bad receipt in the place of a genuine one."""
    h, p, s = jws.split('.')
    f = world.unb64u(p).decode().split('_')
    if how == 'altered':
        k = a % 5
        if k == 0:
            f[5 + a % 5] = '%d,%02d' % (a % 977 + 1, a % 100)
        elif k == 1:
            f[4] = '2031-01-01T00:00:%02d' % (a % 60)
        elif k == 2:
            f[3] = f[3] + 'x'
        elif k == 3:
            f[2] = 'Kasse-neu'
        else:
            f[12] = base64.b64encode(b'%08d' % (a % 10**8)).decode()
        return '.'.join([h, world.b64u('_'.join(f).encode()), s])
    if how == 'forged':
        f[5] = '%d,00' % (a % 9)
        return world.make_jws('_'.join(f), simkey(a))
    if how == 'swapped':
        o = recs[a % len(recs)].jws
        if a % 3 == 0:
            b = bytearray(world.unb64u(s))
            b[a % len(b)] ^= 1 << a % 8
            return '.'.join([h, p, world.b64u(bytes(b))])
        return '.'.join([h, p, o.split('.')[2]])
    if how == 'unsigned':
        return '.'.join([h, p, world.BROKEN_SIG])
    if how == 'malformed':
        k = a % 6
        if k == 0:
            f[5] = '1.50'
        elif k == 1:
            f[4] = '2017-13-01T00:00:00'
        elif k == 2:
            f[1] = 'R9-AT1'
        elif k == 3:
            f.pop(5)
        elif k == 4:
            f[11] = 'zz zz'
        else:
            f[1] = 'R1-at'
        return '.'.join([h, world.b64u('_'.join(f).encode()), s])
    return jws


def simkey(a):
    return 7 + a


def valid(jws, names):
    """Reference: is this receipt genuine and signed by a trusted key?"""
    try:
        r = model.parse(jws)
    except model.Bad:
        return False
    except (ValueError, IndexError):
        return False
    if r.broken:
        return False
    kids = {}
    for n in names:
        if n in world.FX['closed']:
            kids[world.FX['closed'][n]['kid']] = n
        elif n in world.FX['leaves']:
            kids[model.leaf_hex(n)] = n
    if r.zda == 'AT0':
        n = kids.get(r.serial)
    else:
        n = None
        for k in model.key_ids(r.serial):
            if k in kids:
                n = kids[k]
                break
    return n is not None and model.sig_ok(r, model.pub_of(n))


def render(form, jws):
    try:
        return forms.FORMS[form](jws)
    except Exception:
        raise InvalidPlan('cannot be rendered')


PREFIX = ['https://receipts.example/', 'http://h/r?x=1#', 'http://h/#',
    'https://abcdefghijk.example/r/', 'https://a.example/nohash?r=']


SUFFIX = ['', '/', '/pdf', '.html', '?v=2&lang=de']
TOKEN = re.compile('[^A-Za-z0-9_-]')


def url_token(url):
    """The hash a link is made for, read independently."""
    if '#' in url:
        return url.split('#', 1)[1]
    t = [x for x in TOKEN.split(url) if len(x) == 11]
    return t[-1] if t else None


def mangle(h, k, other):
    return [lambda: '', lambda: h[:8], lambda: h[:-1], lambda: h + '=',
        lambda: h + 'A', lambda: h.swapcase(), lambda: h[:1], lambda: other,
        lambda: h[1:] + h[:1], lambda: 'x' + h][k % 10]()


class Host:
    """receipt_host.py as a process; app: its Flask application."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.app = None

    def load(self, jwss, groups, certs, fault):
        plan, ctx = self.plan, self.ctx
        self.app = None
        how = plan['load']
        if how == 'dep':
            text = deprender.render(world.dep_dict(groups, certs),
                plan['layout'])
            if not plan['stream']['seek']:
                text = text.lstrip('\ufeff')
        else:
            text = '\n'.join(jwss) + '\n'
        data = text.encode('utf-8')
        started = []

        def run(app, *a, **kw):
            started.append(app)
            if first:
                early.append(app.test_client().get(first).status_code)
        early = []
        first = jwss and '/' + forms.url_hash(jwss[0])
        sp = dict(plan['stream'], kind='text')
        if sp.get('buf', 1) < 1:
            raise InvalidPlan('buffer')
        bad = False
        sp['eio'] = 1 + plan['at'] if fault == 'load-EIO' else None
        if fault == 'load-truncated' and how == 'dep':
            e = data.rstrip()
            data = e[:plan['at'] % len(e)].decode('utf-8', 'ignore').encode()
            bad = True
            ctx.fault('truncated')
        fl = [[1 + plan['at'] % 5, 'kill']] if fault == 'load-kill' else []
        hit0 = ctx.faults.get('EIO-read', 0)
        env = {}
        if plan['chunk'] is not None:
            env['RKSV_DEP_CHUNKSIZE'] = str(max(1, plan['chunk']))
        proc = simfs.Proc(simfs.Disk(), ctx, fl)
        stream = simio.open_stream(data, sp, ctx, lambda: proc.op('stdin'))
        res = script.run('receipt_host.py', [how], proc, ctx, environ=env,
            stdin_stream=stream, patches=[(flask.Flask, 'run', run)],
            keep_globals=True)
        bad = bad or ctx.faults.get('EIO-read', 0) > hit0 or res.crash
        ctx.log('host', how, res.rc, bool(bad), len(started))
        if bad:
            if started and not res.crash:
                raise Violation('serves-partial-load', 'the server started '
                    'although its journal could not be read (%s)' % fault)
            ctx.probe('load-failed')
            return False
        if res.rc != 0 or len(started) != 1:
            raise Violation('host-fails', '%r %d\n%s' % (res, len(started),
                res.tb[-600:]))
        if early and early[0] != 200:
            raise Violation('serves-too-early', 'the server runs without the '
                'receipts it was loaded with (status %s)' % early)
        self.app = started[0]
        self.keep = res.globals
        ctx.probe('host-' + how)
        return True

    def get(self, path, method='GET'):
        c = self.app.test_client()
        return c.open(path, method=method)


def run(plan, ctx):
    j = plan['j']
    if not case.rec_positions(j['ops']):
        raise InvalidPlan('no receipts')
    recs = world.RefRegister(j).run(j['ops'])
    certs = not j['closed'] and plan['a'] % 2 == 0
    jwss = [r.jws for r in recs]
    mode = plan['mode']
    form = plan['form'] if mode not in ('api', 'host') else 'url'
    if plan['trust'] == 'none':
        names = ['rootB']
        ctx.probe('no-key')
    elif plan['trust'] == 'some':
        names = case.store_names(j['devs'][:1], 'leaf')
    else:
        names = case.store_names(j['devs'], plan['trust'])
    host = Host(plan, ctx)
    fault = plan['fault'] if form == 'url' or (plan['fault'] or '')[:5] != \
        'load-' else None
    if form == 'url':
        gs = world.groups_of(recs) if certs else [{'grp': 0, 'dev':
            recs[0].dev, 'recs': jwss}]
        lf = fault if (fault or '')[:5] == 'load-' else None
        if not host.load(jwss, gs, certs, lf):
            host.load(jwss, gs, certs, None)
        table = {forms.url_hash(x): x for x in jwss}
        ask(plan, ctx, host, table)
        if plan['reload'] and len(jwss) > 1:
            # another journal: the old one is gone
            half = jwss[len(jwss) // 2:]
            host.load(half, [{'grp': 0, 'dev': recs[-1].dev, 'recs': half}],
                False, None)
            table = {forms.url_hash(x): x for x in half}
            ask(plan, ctx, host, table, [forms.url_hash(x) for x in jwss])
            ctx.probe('reloaded')
        ctx.nontrivial = True
        if mode == 'host':
            return
        jwss = list(table.values())
    # --- the list under test
    lst = list(jwss)
    for i, how, a in plan['bad']:
        if i >= len(lst) or form == 'url' or lst[i] != jwss[i]:
            continue
        if how == 'blank':
            lst[i] = None
            continue
        if how == 'malformed' and form not in ('jws', 'qr'):
            how = 'altered'
        if lst[i] is not None:
            lst[i] = alter(lst[i], how, a, recs, None)
            if how in MUST_HIT:
                ctx.probe(how)
    if form == 'csv' and not all(x is None or forms.csv_safe(x) for x in lst):
        form = 'qr'
    ctx.probe('in-' + form)
    if form == 'url':
        pre = PREFIX[plan['prefix'] % len(PREFIX)]
        if '#' in pre:
            ctx.probe('fragment')
        suf = '' if '#' in pre else SUFFIX[plan.get('suffix', 0) % 5]
        hs = [forms.url_hash(x) for x in lst]
        if '#' in pre:
            for i, k in plan.get('mangle', ()):
                i %= len(hs)
                m = mangle(hs[i], k, forms.url_hash(lst[(i + 1) % len(lst)]))
                if m != hs[i]:
                    hs[i] = m
                    ctx.fault('link-mangled')
                    ctx.probe('mangled')
        elif suf:
            ctx.probe('suffix')
        lines = [pre + h + suf for h in hs]
        if pre.endswith('?r='):
            lines = ['https://a.example/x/?no', ] + lines
            lst = [lst[0]] + lst
            ctx.probe('no-hash')
        net = Net(plan, ctx, host, lst, lines, jwss, pre)
        want = None
    else:
        lines = [render(form, x) if x is not None else '' for x in lst]
        want = [not (x is not None and valid(x, names)) for x in lst]
        net = None
    ctx.log('lines', form, len(lines), want and sum(want))
    store = json.dumps(world.store_json(names))
    if mode == 'api':
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(lib.keystore(names))
        for i, u in enumerate(lines):
            net.n = i
            with net:
                o = core.call(url_receipt_helpers.getAndVerifyReceiptURL, rv,
                    u)
            code = net.got.get(i)
            good = code is not None and genuine(code, u, lst[i], names)
            if o.ok and not good:
                raise Violation('reported-valid', '%s with the answer %r is '
                    'reported as valid' % (u, code))
            if not o.ok and good:
                raise Violation('reported-invalid', '%s: %r\n%s' % (u, o,
                    o.tb[-500:]))
            ctx.probe('url-valid' if good else 'url-invalid')
        ctx.probe('api-url')
        return
    if mode == 'single':
        i = plan['a'] % len(lines)
        lines, lst = [lines[i]], [lst[i]]
        if want is not None:
            want = [want[i]]
        else:
            net.lines, net.lst = lines, lst
    tool(plan, ctx, form, lines, lst, want, names, store, net, fault,
        mode == 'single')


def genuine(code, url, jws, names):
    """Whether the answer is the receipt the URL stands for."""
    try:
        f = code.split('_')
        sig = world.b64u(base64.b64decode(f[-1], validate=True))
        x = '.'.join([world.b64u(world.HEADER.encode()), world.b64u(
            '_'.join(f[:-1]).encode()), sig])
        h = forms.url_hash(x)
    except Exception:
        return False
    if url_token(url) != h:
        return False
    return valid(x, names)


class Net(simnet.SimNet):
    def __init__(self, plan, ctx, host, lst, lines, jwss, pre):
        super().__init__(ctx, self.serve, self.pick, self.wrong)
        self.plan, self.host, self.lst, self.lines = plan, host, lst, lines
        self.jwss, self.pre = jwss, pre
        self.got = {}
        self.prev = None
        self.base = 0
        self.redirected = False

    def index(self):
        return (self.n - 1) % len(self.lines)

    def pick(self, n, req):
        if self.redirected:
            self.n -= 1                   # the second half of a redirection
            return None
        self.i = self.index()
        self.got.pop(self.i, None)
        for k, f in self.plan['net']:
            if k == self.i:
                return f
        return None

    def serve(self, req):
        if self.redirected:
            self.redirected = False
            h = forms.url_hash(self.jwss[self.plan['a'] % len(self.jwss)])
        else:
            # the fragment is not sent: such a page knows its receipt itself
            h = forms.url_hash(self.lst[self.i]) if '#' in self.pre else \
                str(url_token(req.url))
        r = self.host.get('/' + h)
        if r.status_code == 200:
            self.got[self.i] = r.get_json()['code']
            self.last = self.got[self.i]
        return simnet.Answer(r.status_code, r.data)

    def send(self, *a, **kw):
        try:
            r = super().send(*a, **kw)
        except BaseException:
            self.got.pop(self.i, None)
            raise
        # whatever arrived in the end is what counts
        try:
            self.got[self.i] = r.json()['code'] if r.status_code < 300 \
                else None
        except Exception:
            self.got[self.i] = None
        self.prev = self.got[self.i] or self.prev
        return r

    def wrong(self, f, a):
        jws = self.lst[self.i]
        k = self.plan['a'] + self.i
        if f == 'redirect':
            self.redirected = True
            return simnet.Answer(302, b'', {'Location':
                'https://other.example/x'})
        if f == 'error-body':
            return simnet.Answer([404, 403, 500, 503][k % 4], {'code':
                forms.qr(jws)})
        code = {
            'other': lambda: forms.qr(self.jwss[k % len(self.jwss)]),
            'stale': lambda: self.prev,
            'altered': lambda: forms.qr(alter(jws, 'altered', k, [], None)),
            'sigflip': lambda: forms.qr(alter(jws, 'swapped', 3 * k,
                [_R(jws)], None)),
            'resigned': lambda: forms.qr(alter(jws, 'forged', k, [], None)),
            'code-null': lambda: None, 'code-list': lambda: [forms.qr(jws)],
            'code-empty': lambda: '',
            'code-cut': lambda: forms.qr(jws)[:-1 - k % 99],
            'as-jws': lambda: jws, 'as-ocr': lambda: forms.ocr(jws),
            'unsigned': lambda: forms.qr(alter(jws, 'unsigned', 0, [], None)),
        }[f]()
        return simnet.Answer(200, {'code': code})


class _R:
    def __init__(self, jws):
        self.jws = jws


def ask(plan, ctx, host, table, more=()):
    """The server answers known hashes with their receipt, others with 404."""
    for h, x in table.items():
        r = host.get('/' + h)
        if r.status_code != 200 or r.get_json() != {'code': forms.qr(x)}:
            raise Violation('wrong-answer', '%s: %s %r, expected %r' % (h,
                r.status_code, r.data, forms.qr(x)))
    asks = [h for h in more]
    keys = list(table)
    for a in plan['asks']:
        h = keys[a % len(keys)]
        asks += [h[:-1], h + 'A', h.swapcase(), h[1:] + h[0],
            '../' + h, h + '/', '', 'receipt_store', '%00' + h]
    for h in asks:
        if h in table:
            continue
        r = host.get('/' + h)
        if r.status_code == 200 and h.strip('./') not in table:
            raise Violation('unknown-hash-answered', '%r: %r' % (h, r.data))
        if r.status_code >= 500:
            raise Violation('server-error', '%r: %s' % (h, r.status_code))
        ctx.probe('unknown-hash')


def tool(plan, ctx, form, lines, lst, want, names, store, net, fault, single):
    disk = simfs.Disk()
    for attempt in (0, 1):
        f = fault if attempt == 0 else None
        fl, so = [], None
        if f in ('EIO', 'kill', 'EACCES'):
            fl = [[1 + plan['at'] % 20, f]]
        elif f in ('EPIPE-stdout', 'ENOSPC-stdout'):
            so = {'fail_after': plan['at'] % 200, 'err': f.split('-')[0]}
        st = store
        bad = False
        if f == 'truncated':
            st = store[:plan['at'] % len(store)]
            ctx.fault('truncated')
            bad = True
        disk.put('store.json', st)
        proc = simfs.Proc(disk, ctx, fl)
        sp = dict(plan['stream'], kind='text')
        sp['eio'] = 1 + plan['at'] % 60 if f == 'EIO-read' else None
        hit0 = ctx.faults.get('EIO-read', 0)
        if net:
            net.n = 0
            net.got = {}
            net.prev = None
            net.redirected = False
        args = [form, 'store.json'] + ([lines[0]] if single else [])
        res = script.run('verify_receipt.py', args, proc, ctx, stdout=so,
            stdin_stream=simio.open_stream(('\n'.join(lines) + '\n').encode(
            'utf-8'), sp, ctx), patches=net.patches() if net else ())
        bad = bad or ctx.faults.get('EIO-read', 0) > hit0
        ctx.log('tool', form, res.rc, res.crash, proc.injected)
        if res.rc != 0 or res.crash:
            neterr = net and any(v is None or not isinstance(v, str) for v in
                [net.got.get(k) for k in range(net.n)])
            if bad or proc.injected or res.crash:
                continue
            if neterr:
                # the tool may give up at the first broken answer
                judge(ctx, net, form, lines, lst, want, names, res, False)
                return
            raise Violation('command-fails', '%s: %r\n%s' % (args[0], res,
                res.tb[-700:]))
        if bad:
            raise Violation('incomplete-success', 'verify_receipt.py reports '
                'a result although its input failed (%s)' % f)
        judge(ctx, net, form, lines, lst, want, names, res, True)
        ctx.probe('single' if single else 'list')
        ctx.nontrivial = True
        return
    raise Violation('command-fails', 'fails again: %r' % res)


def judge(ctx, net, form, lines, lst, want, names, res, complete):
    if net:
        want = []
        for i, u in enumerate(lines):
            if i >= net.n and not complete:
                break
            c = net.got.get(i)
            want.append(not (isinstance(c, str) and genuine(c, u, lst[i],
                names)))
    out = res.text().split('\n')
    named = []
    for l in out:
        m = re.match(r'Line +(\d+): ', l)
        if m:
            named.append(int(m.group(1)))
    exp = [i for i, w in enumerate(want) if w]
    if not complete:
        # what was printed before the end must be true
        if [i for i in named if i not in exp]:
            raise Violation('wrong-report', 'reported as invalid: %s, invalid '
                'are %s' % (named, exp))
        return
    if named != exp:
        raise Violation('wrong-report', '%s list of %d: reported as invalid: '
            '%s, invalid are %s\n%s' % (form, len(lines), named, exp,
            res.text()[-900:]))
    m = re.match(r'(\d+) of (\d+) receipts', out[-2] if len(out) > 1 else '')
    if not m or (int(m.group(1)), int(m.group(2))) != (len(want) - len(exp),
            len(want)):
        raise Violation('wrong-count', '%r, expected %d of %d' % (out[-2:],
            len(want) - len(exp), len(want)))
    ctx.probe('some-bad' if exp else 'all-good')
