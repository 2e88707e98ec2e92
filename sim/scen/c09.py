"""C09: splitting and merging keep the journal."""
import base64
import json

from .. import case, core, deprender, lib, script, simfs, simio, world
from ..core import InvalidPlan, Violation, call
from librksv import depexport, depparser

RUNS = {'quick': 9000, 'thorough': 100000}
FROZEN = ()
RULE = ('A run exports a journal as one or more documents in random layouts '
    'and takes them through a chain of 1-4 split.py, merge.py and library '
    'merge steps with random chunk sizes, through files or pipes with short '
    'reads; steps meet read and write errors, full disks, broken pipes, '
    'truncated input and kills and are then repeated. Non-trivial: at least '
    'one step completed.')
REAL = ['split.py', 'merge.py', 'librksv.depexport', 'librksv.depparser',
    'librksv.receipt', 'librksv.verify (verdict)', 'ijson', 'json']
STUB = ['disk, named pipes and standard streams', 'cash register (reference '
    'implementation)']
ASSUME = ['journals that arrive through a pipe name their certificates before '
    'their receipts, as the export of the library does (the library needs to '
    'seek otherwise)']
SEARCH = ('chains of split and merge with their chunk sizes, stream types, '
    'read sizes, I/O errors, full disks, truncated inputs and crashes')
ORACLE = ('the list of receipts with certificate and chain before the step, '
    'read with a separate JSON parser')
NOTE = ('Samples journals of up to 40 receipts; a violation it reports is '
    'real, silence is evidence over the explored runs, not proof.')
MUST_HIT = ['split', 'merge', 'nomerge', 'api', 'pipe', 'EIO', 'EIO-read',
    'ENOSPC', 'disk-full', 'EPIPE-stdout', 'ENOSPC-stdout', 'truncated',
    'crash-kill', 'retry-ok', 'many-groups', 'empty-group', 'chain', 'api-empty-group',
    'no-certs', 'certs-changed', 'chunked', 'broken-journal', 'good-journal', 'short']


CMODS = ['twin', 'twin', 'none', 'nochain', 'reversed', 'self', 'repeat',
    'other', 'eviltwin', 'short', 'prev', 'prev-chain']
TWIN = {'L0': 'E0', 'E0': 'L0', 'L1': 'R1', 'R1': 'E1', 'E1': 'L1', 'L2': 'E2',
    'E2': 'L2'}


def modify(gs, mods, ctx):
    """Groups that name other certificates than the ones of their device."""
    for i, how, a in mods:
        if not gs:
            return
        g = gs[i % len(gs)]
        p = gs[i % len(gs) - 1] if i % len(gs) else gs[-1]
        for x in (g, p):
            x.setdefault('cert', world.cert_of(x['dev']))
            x.setdefault('chain', [world.cert_of(c) for c in
                world.issuer_chain(x['dev'])])
        ch = list(g['chain'])
        if how == 'twin':
            g['cert'] = world.cert_of(TWIN.get(g['dev'], 'L9'))
        elif how == 'none':
            g['cert'] = ''
        elif how == 'nochain':
            ch = []
        elif how == 'reversed':
            ch = ch[::-1] if len(ch) > 1 else ch + [world.cert_of('rootB')]
        elif how == 'self':
            ch = [g['cert']] + ch if g['cert'] else ch
        elif how == 'repeat':
            ch = ch + ch[-1:]
        elif how == 'other':
            ch = [world.cert_of(['rootA', 'rootB', 'rootR', 'intA'][a % 4])
                for _ in ch or [0]]
        elif how == 'eviltwin':
            ch = [world.cert_of(c) for c in ('evilInt', 'evilRoot')][:max(1,
                len(ch))]
        elif how == 'short':
            ch = ch[:-1]
        elif how == 'prev':
            g['cert'] = p['cert']
        elif how == 'prev-chain':
            g['cert'], ch = p['cert'], list(p['chain'])
        g['chain'] = ch
        ctx.probe('certs-changed')


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 25, 40])
    j = world.gen_journal(rng, n)
    certs = not j['closed'] and rng.random() < 0.75
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 2])):
            case.add_fault(rng, j, ['lost', 'ctr', 'clock', 'dupid',
                'badchain', 'outage', 'init', 'lost', 'rename',
                'aes', 'forgedkey'])
    steps = []
    one = rng.random() < 0.4
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        k = 'split' if one and not i else \
            rng.choice(['split', 'split', 'merge', 'merge', 'api'])
        steps.append({
            'op': k, 'a': rng.randrange(10**6), 'b': rng.randrange(10**6),
            'n': rng.choice([1, 1, 2, 3, 5, 8, 100]),
            'chunk': rng.choice([None, 1, 1, 2, 3, 7, 50]),
            'nomerge': rng.random() < 0.35,
            'pretty': rng.random() < 0.5,
            'pipe': [rng.choice([1, 5, 64, 700, 4096]) for _ in range(3)]
                if rng.random() < 0.4 else None,
            'stream': simio.gen_stream_plan(rng, kinds=('text',)),
            'fault': rng.choice([None, None, None, 'EIO', 'EIO-read',
                'ENOSPC', 'full', 'kill', 'truncated', 'EPIPE-stdout',
                'ENOSPC-stdout', 'short', 'EACCES']),
            'at': rng.choice([rng.randrange(6), rng.randrange(40),
                rng.randrange(3000)]),
        })
    return {'j': j, 'certs': certs, 'steps': steps,
        'docs': [rng.choice([1, 2, 3, 10]) for _ in
            range(rng.choice([1, 1, 2, 4]))],
        'one': one,
        # the certificates groups name
        'cmods': [[rng.randrange(30), rng.choice(CMODS), rng.randrange(9)]
            for _ in range(rng.choice([0, 0, 1, 2, 4, 8]))],
        'layouts': [deprender.gen_layout(rng) for _ in range(2)]}


def content(text, what):
    """[(certificate, chain, receipt)], group sizes and keys."""
    try:
        d = json.loads(text)
    except ValueError as e:
        raise Violation('output-broken', '%s is not JSON: %s\n%s' % (what, e,
            text[-200:]))
    out, groups = [], []
    try:
        for g in d['Belege-Gruppe']:
            key = (der(g['Signaturzertifikat']), tuple(der(c) for c in
                g['Zertifizierungsstellen']))
            rs = g['Belege-kompakt']
            groups.append((key, len(rs)))
            out += [(key, r) for r in rs]
    except (KeyError, TypeError) as e:
        raise Violation('output-broken', '%s: %r\n%s' % (what, e, text[:300]))
    return out, groups


def der(c):
    return base64.b64decode(c) if c else b''


def same(want, got, what):
    if want == got:
        return
    for i in range(max(len(want), len(got))):
        a = want[i] if i < len(want) else None
        b = got[i] if i < len(got) else None
        if a != b:
            f = 'receipt' if not a or not b or a[1] != b[1] else 'certificate'
            raise Violation('journal-changed', '%s: %s %d of %d/%d differs\n'
                'before %r\nafter  %r' % (what, f, i, len(want), len(got),
                a and a[1][-60:], b and b[1][-60:]))


def cut(recs, sizes):
    out, i, n = [], 0, 0
    while i < len(recs):
        k = max(1, sizes[n % len(sizes)]) if sizes and n < len(sizes) - 1 \
            else len(recs)
        out.append(recs[i:i + k])
        i += k
        n += 1
    return out


def is_pipe_ok(lay):
    return all(o % 6 in (0, 2) for o in lay.get('order') or [0]) and \
        not lay.get('bom')


def run(plan, ctx):
    j = plan['j']
    if not case.rec_positions(j['ops']):
        raise InvalidPlan('no receipts')
    rg = world.RefRegister(j)
    recs = rg.run(j['ops'])
    certs = plan['certs']
    lays = plan['layouts'] or [{}]
    mixed = False
    docs = []                                    # (text, may be piped)
    parts = [recs] if plan['one'] else cut(recs, plan['docs'])
    for i, part in enumerate(parts):
        gs = world.groups_of(part) if certs else [{'grp': 0, 'dev':
            part[0].dev, 'recs': [r.jws for r in part]}]
        if certs:
            modify(gs, [(k + 5 * i, h, a) for k, h, a in
                plan.get('cmods', ())], ctx)
            mixed = mixed or any(g.get('cert') == '' for g in gs)
        lay = lays[i % len(lays)]
        docs.append((deprender.render(world.dep_dict(gs, certs), lay),
            is_pipe_ok(lay)))
        if lay.get('empty'):
            ctx.probe('empty-group')
        if len(gs) > 1:
            ctx.probe('many-groups')
    ctx.log('journal', len(recs), [len(t) for t, _ in docs])
    want = []
    for t, _ in docs:
        want += content(t.lstrip('\ufeff'), 'input')[0]
    if [r.jws for r in recs] != [w[1] for w in want]:
        raise core.HarnessError('rendered journal is wrong')
    if any(w[0][1] for w in want):
        ctx.probe('chain')
    if not certs:
        ctx.probe('no-certs')
    names = case.store_names(list(j['devs']) + [o[1] for o in j['ops']
        if o[0] == 'swapsys'], 'all')
    ks, key = lib.keystore(names), world.aes_key(j.get('key', 0))
    before = verdict(docs, ks, key)
    ctx.probe('good-journal' if before[0] == 'ok' else 'broken-journal')
    done = 0
    split_uncert = mixed
    for si, st in enumerate(plan['steps']):
        if st['op'] == 'split':
            i = st['a'] % len(docs)
            docs[i:i + 1] = [(t, True) for t in split(st, si, docs[i], ctx)]
        else:
            if len(docs) < 2:
                continue
            a = st['a'] % (len(docs) - 1)
            b = a + 2 + st['b'] % (len(docs) - a - 1)
            fn = merge if st['op'] == 'merge' else merge_api
            docs[a:b] = [(fn(st, si, docs[a:b], ctx), True)]
            if not certs and st['nomerge']:
                split_uncert = True
        done += 1
        got = []
        for t, _ in docs:
            got += content(t.lstrip('\ufeff'), 'output')[0]
        same(want, got, 'step %d (%s)' % (si, st['op']))
        ctx.log('step', si, st['op'], len(docs), len(got))
    ctx.nontrivial = done > 0
    if not split_uncert:
        # without certificates the format allows a single group only
        after = verdict(docs, ks, key)
        if after != before:
            raise Violation('verdict-changed', 'before %s\nafter  %s' % (
                before, after))


def verdict(docs, ks, key):
    """Outcome of verifying the documents one after another."""
    st = lib.new_state()
    for i, (t, _) in enumerate(docs):
        d = json.loads(t.lstrip('\ufeff'))
        if not any(g['Belege-kompakt'] for g in d['Belege-Gruppe']):
            continue
        o = call(lib.verify.verifyDEP, d, ks, key, st, None if i == 0 else 0)
        if not o.ok:
            return ('rejected', None)
        st = o.value
    return ('ok', lib.norm_state(st))


def faults_of(st, disk, attempt):
    f = st['fault'] if attempt == 0 else None
    fl, cap, out = [], None, None
    if f in ('EIO', 'ENOSPC', 'kill', 'short', 'EACCES'):
        fl = [[1 + st['at'], f]]
    elif f == 'full':
        cap = st['at'] * 7
    elif f in ('EPIPE-stdout', 'ENOSPC-stdout'):
        out = {'fail_after': st['at'] * 11, 'err': f.split('-')[0]}
    if out is None and st['b'] % 5 == 0:
        out = {'short': [100, 3000, 0]}
    return f, fl, cap, out


def cutoff(text, at):
    e = text.rstrip().encode('utf-8')
    n = at % max(1, len(e))
    return e[:n].decode('utf-8', 'ignore').encode('utf-8')


def split(st, si, doc, ctx):
    text, pipe_ok = doc
    n = max(1, st['n'])
    disk = simfs.Disk()
    out = ['pieces', simfs.ROOT + '/out/p', simfs.ROOT + '/out'][st['a'] % 3]
    for attempt in (0, 1):
        f, fl, cap, so = faults_of(st, disk, attempt)
        proc = simfs.Proc(disk, ctx, fl, cap)
        sp = dict(st['stream'], kind='text')
        if not pipe_ok:
            sp['seek'] = True
        if not sp['seek']:
            ctx.probe('pipe')
        data = text.encode('utf-8')
        bad = False
        if f == 'truncated':
            data = cutoff(text, st['at'])
            bad = True
            ctx.fault('truncated')
        sp['eio'] = 1 + st['at'] if f == 'EIO-read' else None
        if sp.get('buf', 1) < 1:
            raise InvalidPlan('buffer')
        hit0 = ctx.faults.get('EIO-read', 0)
        stream = simio.open_stream(data, sp, ctx)
        res = script.run('split.py', [str(n), out], proc, ctx,
            stdin_stream=stream, stdout=so)
        bad = bad or ctx.faults.get('EIO-read', 0) > hit0
        ctx.log('split', n, res.rc, res.crash, proc.injected)
        if res.rc == 0 and not res.crash:
            if bad:
                raise Violation('incomplete-success', 'split.py reports '
                    'success on %s' % f)
            pieces = collect(disk, out)
            got, w = [], content(text.lstrip('\ufeff'), 'in')[0]
            for k, p in enumerate(pieces):
                c, groups = content(p, 'piece %d' % k)
                if len(c) > n:
                    raise Violation('piece-too-big', 'piece %d has %d '
                        'receipts, at most %d wanted' % (k, len(c), n))
                got += c
            same(w, got, 'split.py %d' % n)
            ctx.probe('split')
            if attempt:
                ctx.probe('retry-ok')
            return pieces
        if not (bad or proc.injected or res.crash):
            raise Violation('command-fails', 'split.py %d: %r\n%s' % (n, res,
                res.tb[-900:]))
    raise Violation('command-fails', 'split.py fails again: %r' % res)


def collect(disk, out):
    files = disk.files(simfs.full(out))
    pieces = []
    for i in range(len(files)):
        p = simfs.full(out) + '/dep-export%d.json' % i
        if p not in files:
            raise Violation('piece-missing', 'piece %d of %s' % (i,
                sorted(files)))
        pieces.append(files[p].decode('utf-8'))
    return pieces


def merged_ok(st, text, docs, what, extra=False):
    w = []
    empties = False
    for t, _ in docs:
        c, g = content(t.lstrip('\ufeff'), 'in')
        w += c
        empties = empties or any(n == 0 for _, n in g)
    got, groups = content(text, what)
    same(w, got, what)
    if not st['nomerge'] and not empties:
        for a, b in zip(groups, groups[1:]):
            if a[0] == b[0]:
                raise Violation('not-merged', '%s: adjacent groups with the '
                    'same certificates' % what)


def merge(st, si, docs, ctx):
    disk = simfs.Disk()
    for attempt in (0, 1):
        f, fl, cap, so = faults_of(st, disk, attempt)
        bad = False
        args = ['nomerge'] if st['nomerge'] else []
        for k, (t, pok) in enumerate(docs):
            data = t.encode('utf-8')
            if f == 'truncated' and k == st['b'] % len(docs):
                data = cutoff(t, st['at'])
                ctx.fault('truncated')
                bad = True
            name = 'in%d.json' % k
            piped = st['pipe'] and pok and (st['a'] + k) % 2
            disk.put(name, data, list(st['pipe']) if piped else None)
            if piped:
                ctx.probe('pipe')
            args.append(name)
        proc = simfs.Proc(disk, ctx, fl)
        env = {}
        if st['chunk'] is not None:
            env['RKSV_DEP_CHUNKSIZE'] = str(max(1, st['chunk']))
            ctx.probe('chunked')
        res = script.run('merge.py', args, proc, ctx, environ=env, stdout=so)
        ctx.log('merge', args[0], res.rc, res.crash, proc.injected)
        if res.rc == 0 and not res.crash:
            if bad:
                raise Violation('incomplete-success', 'merge.py reports '
                    'success on a truncated input')
            merged_ok(st, res.text(), docs, 'output of merge.py')
            ctx.probe('nomerge' if st['nomerge'] else 'merge')
            if attempt:
                ctx.probe('retry-ok')
            return res.text()
        if not (bad or proc.injected or res.crash):
            raise Violation('command-fails', 'merge.py: %r\n%s' % (res,
                res.tb[-900:]))
    raise Violation('command-fails', 'merge.py fails again: %r' % res)


def merge_api(st, si, docs, ctx):
    """The library's stream interface, documents added step by step."""
    cls = depexport.DEPStream if st['nomerge'] else depexport.MergingDEPStream

    def groups(t):
        fd = simio.open_stream(t.encode('utf-8'), {'kind': 'buffered',
            'buf': 512}, ctx)
        p = depparser.IncrementalDEPParser.fromFd(fd, True)
        return depparser.receiptGroupAdapter(p.parse(st['chunk'] or 0))

    texts = [t for t, _ in docs]
    mode = st['b'] % 3
    if mode == 0:
        stream = cls.fromIterList([groups(t) for t in texts])
    elif mode == 1:
        stream = cls(groups(texts[0]))
        for t in texts[1:]:
            stream.extend(groups(t))
    else:
        stream = cls()
        first = None
        for t in texts:
            for rs, c, cs in groups(t):
                # a device that signed nothing in between
                first = first or (c, cs)
                if st['b'] % 5 == 4:
                    ctx.probe('api-empty-group')
                    stream.append([], *(first if st['a'] % 8 > 3 else (c, cs)))
                # documented: a list or a generator of receipts
                stream.append(list(rs) if st['a'] % 2 else iter(list(rs)), c,
                    cs)
    if st['a'] % 4 == 3:
        exp = depexport.DEPExporter(stream, list)
        exp.addExtra('note', 'x')
        text = json.dumps(exp.export())
    else:
        exp = depexport.JSONExporter(stream, st['pretty'])
        exp.addExtra('note', {'Belege-Gruppe': []})
        out = []
        for p in exp.export():
            out.append(p)
        text = ''.join(out)
    if 'note' not in json.loads(text):
        raise Violation('extra-lost', text[:200])
    merged_ok(st, text, docs, 'merged by the library')
    ctx.probe('api')
    return text
