"""C10: conversion and extraction tools keep every receipt and certificate."""
import base64
import json

from .. import case, core, deprender, forms, lib, script, simfs, simio, \
    simnet, world
from ..core import InvalidPlan, Violation
from .c09 import content, cutoff

RUNS = {'quick': 20000, 'thorough': 300000}
FROZEN = ()
RULE = ('A run exports a journal and converts it to CSV and back with '
    'convert.py, turns its receipts from one of five printed forms into '
    'another with receipt.py (receipts named by URL come over the simulated '
    'network), or extracts its certificates with cert_extract.py, with random '
    'layouts, chunk sizes and read sizes; commands meet read and write '
    'errors, full disks, broken pipes, truncated input, network faults and '
    'kills and are repeated. Non-trivial: at least one command completed.')
REAL = ['convert.py', 'receipt.py', 'cert_extract.py', 'librksv.depexport',
    'librksv.depparser', 'librksv.receipt', 'librksv.url_receipt_helpers',
    'requests (above the transport)', 'ijson']
STUB = ['disk and standard streams', 'network transport and receipt server',
    'cash register (reference implementation)']
ASSUME = ['a group without receipts names no certificates of the journal (the '
    'parsers drop such groups)', 'IDs without the characters CSV uses as separators (the CSV form '
    'has no quoting)', 'a CSV or list that ends early at the end of a line is '
    'a complete shorter list']
SEARCH = ('journals, layouts, forms, chunk and read sizes, I/O errors, full '
    'disks, network faults, truncated inputs and crashes')
ORACLE = ('receipts in all forms rendered independently, and the certificates '
    'and chains of the journal read with a separate JSON parser')
NOTE = ('Samples journals of up to 25 receipts; a violation it reports is '
    'real, silence is evidence over the explored runs, not proof.')
MUST_HIT = ['json2csv', 'csv2json', 'receipt', 'extract', 'EIO-read',
    'EPIPE-stdout', 'ENOSPC-stdout', 'truncated', 'crash-kill', 'disk-full',
    'ENOSPC', 'retry-ok', 'chunked', 'in-url', 'in-csv', 'in-ocr', 'in-qr',
    'in-jws', 'out-url', 'out-csv', 'out-ocr', 'out-qr', 'out-jws',
    'many-certs', 'no-final-newline', 'crlf', 'late-certs', 'named',
    'blank-refused']
F = ['jws', 'qr', 'ocr', 'csv', 'url']


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 25])
    j = world.gen_journal(rng, n)
    return {
        'j': j, 'certs': not j['closed'] and rng.random() < 0.8,
        'tool': rng.choice(['csv', 'csv', 'receipt', 'receipt', 'extract',
            'extract']),
        'in': rng.choice(F), 'out': rng.choice(F),
        'layout': deprender.gen_layout(rng),
        'chunk': rng.choice([None, None, 1, 1, 2, 3, 7, 50]),
        'stream': simio.gen_stream_plan(rng, kinds=('text',)),
        'crlf': rng.random() < 0.2, 'nonl': rng.random() < 0.2,
        'fault': rng.choice([None, None, None, 'EIO-read', 'ENOSPC', 'EIO',
            'full', 'kill', 'truncated', 'EPIPE-stdout', 'ENOSPC-stdout',
            'EACCES', 'short', 'net']),
        'net': rng.choice(simnet.FAULTS[:4] + simnet.FAULTS[6:]),
        'at': rng.choice([rng.randrange(6), rng.randrange(40),
            rng.randrange(3000)]), 'which': rng.randrange(2),
        'b': rng.randrange(10**6),
        # certificates and authorities the groups name, if not their own
        'name': [[rng.randrange(-1, 6), [rng.randrange(8) for _ in range(
            rng.randrange(4))]] for _ in range(rng.randrange(1, 6))]
            if rng.random() < 0.5 else [],
        'blank': rng.choice([None] * 5 + [rng.randrange(1, 30)]),
    }


def command(plan, ctx, name, args, data, n, check, net=None, late=False,
        maybe=False):
    """Run a command, repeat it if an injected fault stopped it."""
    disk = simfs.Disk()
    for attempt in (0, 1):
        f = plan['fault'] if attempt == 0 and plan['which'] % 2 == n % 2 \
            else None
        fl, cap, so, bad = [], None, None, False
        d = data
        if f in ('EIO', 'ENOSPC', 'kill', 'short', 'EACCES'):
            fl = [[1 + plan['at'] % 60, f]]
        elif f == 'full':
            cap = plan['at'] * 5
        elif f in ('EPIPE-stdout', 'ENOSPC-stdout'):
            so = {'fail_after': plan['at'] * 7, 'err': f.split('-')[0]}
        elif f == 'truncated' and data.lstrip()[:1] in (b'{', b'\xef'):
            d = cutoff(data.decode('utf-8'), plan['at'])
            ctx.fault('truncated')
            bad = True
        if so is None and plan['b'] % 5 == 0:
            so = {'short': [100, 3000, 0]}
        proc = simfs.Proc(disk, ctx, fl, cap)
        sp = dict(plan['stream'], kind='text')
        if sp.get('buf', 1) < 1:
            raise InvalidPlan('buffer')
        sp['eio'] = 1 + plan['at'] if f == 'EIO-read' else None
        hit0 = ctx.faults.get('EIO-read', 0)
        net0 = sum(v for k, v in ctx.faults.items() if k[:4] == 'net:')
        env = {}
        if plan['chunk'] is not None:
            env['RKSV_DEP_CHUNKSIZE'] = str(max(1, plan['chunk']))
            ctx.probe('chunked')
        if net:
            net.fault_now = plan['net'] if f == 'net' else None
        res = script.run(name, args, proc, ctx, environ=env, stdout=so,
            stdin_stream=simio.open_stream(d, sp, ctx),
            patches=net.patches() if net else ())
        bad = bad or ctx.faults.get('EIO-read', 0) > hit0 or \
            sum(v for k, v in ctx.faults.items() if k[:4] == 'net:') > net0
        ctx.log(name, args, res.rc, res.crash, proc.injected, bad)
        if res.rc == 0 and not res.crash:
            if bad:
                raise Violation('incomplete-success', '%s %s reports success '
                    'although its input failed (%s)' % (name, args, f))
            check(res, disk)
            if attempt:
                ctx.probe('retry-ok')
            ctx.nontrivial = True
            return res
        if late and isinstance(res.exc, lib.depparser.DEPException):
            # certificates behind their receipts in a pipe read in chunks
            ctx.probe('late-certs-refused')
            return res
        if maybe and type(res.exc).__name__ == \
                'MalformedReceiptException':
            ctx.probe('blank-refused')
            return res
        if not (bad or proc.injected or res.crash):
            raise Violation('command-fails', '%s %s: %r\n%s' % (name, args,
                res, res.tb[-900:]))
    raise Violation('command-fails', '%s fails again: %r' % (name, res))


def lines_same(want, got, what):
    if want != got:
        for i in range(max(len(want), len(got))):
            a = want[i] if i < len(want) else None
            b = got[i] if i < len(got) else None
            if a != b:
                raise Violation('journal-changed', '%s: line %d of %d/%d\n'
                    'expected %r\ngot      %r' % (what, i, len(want), len(got),
                    a, b))


def run(plan, ctx):
    j = plan['j']
    if not case.rec_positions(j['ops']):
        raise InvalidPlan('no receipts')
    recs = [r for r in world.RefRegister(j).run(j['ops'])]
    certs = plan['certs']
    gs = world.groups_of(recs) if certs else [{'grp': 0, 'dev': recs[0].dev,
        'recs': [r.jws for r in recs]}]
    dd = world.dep_dict(gs, certs)
    if certs and plan['tool'] == 'extract':
        for k, (c, chain) in zip(range(50), plan['name']):
            if k >= len(dd['Belege-Gruppe']):
                # one receipt of the group before
                rs = dd['Belege-Gruppe'][-1]['Belege-kompakt']
                if len(rs) < 2:
                    break
                dd['Belege-Gruppe'].append({'Belege-kompakt': [rs.pop()]})
            g = dd['Belege-Gruppe'][k]
            g['Signaturzertifikat'] = LEAVES[c % len(LEAVES)] if c >= 0 else ''
            g['Zertifizierungsstellen'] = [CAS[x % len(CAS)] for x in chain]
            ctx.probe('named')
    text = deprender.render(dd, plan['layout'])
    if plan['layout'].get('bom') and not plan['stream']['seek']:
        # a byte order mark on a pipe is not supported by the library
        text = text.lstrip('\ufeff')
    tool = plan['tool']
    ctx.log('journal', len(recs), len(text))
    safe = all(forms.csv_safe(r.jws) for r in recs)
    if tool == 'csv' and not safe:
        tool = 'extract'
    if tool == 'csv':
        csv(plan, ctx, text, recs)
    elif tool == 'receipt':
        receipts(plan, ctx, recs, safe)
    else:
        extract(plan, ctx, text)


def blank(plan, t, first):
    """A blank line among the others: refused or skipped, but nothing may get
    lost."""
    ls = t.split('\n')
    b = plan['blank']
    if not b or first + b >= len(ls) - 1:
        return t, False
    ls.insert(first + b, '')
    return '\n'.join(ls), True


def csv(plan, ctx, text, recs):
    want = [forms.HEAD] + [forms.csv(r.jws) for r in recs]

    def check(res, disk):
        lines_same(want + [''], res.text().split('\n'), 'json2csv')
    res = command(plan, ctx, 'convert.py', ['json2csv'], text.encode('utf-8'),
        0, check)
    ctx.probe('json2csv')
    t = res.text()
    if plan['nonl']:
        t = t[:-1]
        ctx.probe('no-final-newline')
    t, maybe = blank(plan, t, 1)
    if plan['crlf']:
        t = t.replace('\n', '\r\n')
        ctx.probe('crlf')

    def check2(res, disk):
        c, groups = content(res.text(), 'csv2json')
        lines_same([r.jws for r in recs], [r for _, r in c], 'csv2json')
        if any(k != (b'', ()) for k, _ in groups):
            raise Violation('invented-certificate', str(groups))
    command(plan, ctx, 'convert.py', ['csv2json'], t.encode('utf-8'), 1,
        check2, maybe=maybe)
    ctx.probe('csv2json')


def receipts(plan, ctx, recs, safe):
    i, o = plan['in'], plan['out']
    if not safe:
        i, o = ('qr' if f == 'csv' else f for f in (i, o))
    # lines lose white space at their ends: not part of any of the forms
    net = None
    ins = [forms.FORMS[i](r.jws) for r in recs]
    if i == 'url':
        base = ['https://receipts.example/', 'http://h/r?x=1#',
            'https://h.example/abcdefghijk/'][plan['b'] % 3]
        ins = [base + h for h in ins]
        table = {u: forms.qr(r.jws) for u, r in zip(ins, recs)}
        order = list(ins)
        net = simnet.SimNet(ctx, None, None)
        net.fault_now = None
        net.at = plan['at'] % len(recs)

        def server(req):
            # an anchor is not sent: answer by position in that case
            u = req.url
            k = u if u in table else order[net.pos % len(order)] if \
                '#' in order[0] else None
            net.pos += 1
            return None if k is None else simnet.Answer(200, {'code':
                table[k]})

        def decide(n, req):
            return net.fault_now if n == net.at + 1 else None
        net.server, net.decide, net.pos = server, decide, 0
    data = '\n'.join(ins) + ('' if plan['nonl'] else '\n')
    data, maybe = (data, False) if i == 'url' else blank(plan, data, 0)
    if plan['crlf']:
        data = data.replace('\n', '\r\n')
        ctx.probe('crlf')
    if plan['nonl']:
        ctx.probe('no-final-newline')
    want = [forms.FORMS[o](r.jws) for r in recs]

    def check(res, disk):
        lines_same(want + [''], res.text().split('\n'), 'receipt.py %s %s' %
            (i, o))
    if net:
        # each attempt starts at the first line again
        old = net.patches

        def patches():
            net.n = net.pos = 0
            return old()
        net.patches = patches
    command(plan, ctx, 'receipt.py', [i, o], data.encode('utf-8'), 0, check,
        net, maybe=maybe)
    ctx.probe('receipt')
    ctx.probe('in-' + i)
    ctx.probe('out-' + o)


def extract(plan, ctx, text):
    want = {}
    for g in json.loads(text.lstrip('\ufeff'))['Belege-Gruppe']:
        if not g['Belege-kompakt']:
            continue
        for c in [g['Signaturzertifikat']] + g['Zertifizierungsstellen']:
            if c:
                want[serial_of(c)] = base64.b64decode(c)
    if len(want) > 2:
        ctx.probe('many-certs')
    o = plan['layout'].get('order') or [0]
    late = any(x % 6 not in (0, 2) for x in o)
    if late and want:
        ctx.probe('late-certs')
    out = ['certs', simfs.ROOT + '/out/c', simfs.ROOT + '/out'][plan['b'] % 3]

    def check(res, disk):
        got = {}
        for p, d in disk.files(simfs.full(out)).items():
            name = p.split('/')[-1]
            if not name.endswith('.crt'):
                raise Violation('stray-file', p)
            ls = d.decode('ascii').strip().split('\n')
            if ls[0] != '-----BEGIN CERTIFICATE-----' or \
                    ls[-1] != '-----END CERTIFICATE-----':
                raise Violation('certificate-broken', '%s: %r' % (p, d))
            got[name[:-4]] = base64.b64decode(''.join(ls[1:-1]))
        if sorted(got) != sorted(want):
            raise Violation('certificate-lost', 'journal has %s, extracted %s'
                % (sorted(want), sorted(got)))
        for k in want:
            if got[k] != want[k]:
                raise Violation('certificate-changed', k)
    command(plan, ctx, 'cert_extract.py', [out], text.encode('utf-8'), 0,
        check, late=late and plan['chunk'] is not None and
        not plan['stream']['seek'])
    ctx.probe('extract')


_serials = {}
LEAVES = [world.FX['leaves'][n]['cert'] for n in sorted(world.FX['leaves'])
    if n[0] == 'L']
CAS = [world.FX['cas'][n]['cert'] for n in sorted(world.FX['cas'])
    if n[:4] != 'evil']
for _t in ('leaves', 'cas'):
    for _n, _c in world.FX[_t].items():
        _serials[_c['cert']] = '%x' % _c['serial']


def serial_of(c):
    return _serials[c]
