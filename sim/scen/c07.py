"""C07: every parser delivers exactly the receipts of the DEP, whatever the
read sizes, chunk size and layout."""
import json

from cryptography.hazmat.primitives.serialization import Encoding

from .. import case, core, deprender, lib, simio, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 9000, 'thorough': 100000}
FROZEN = ()
RULE = ('A run renders one journal (1-40 receipts in 1-8 groups, empty groups, '
    'byte order mark, escapes, white space, unknown elements, any element '
    'order) and reads it with 3-6 parsers over simulated streams with seeded '
    'read sizes and chunk sizes, some twice or after an abandoned pass. '
    'Non-trivial: at least two receipts and one chunk size below their '
    'number.')
REAL = ['librksv.depparser', 'ijson (C backend)', 'librksv.utils']
STUB = ['files, pipes and sockets (simulated streams with seeded short reads)',
    'cash register (reference implementation)']
ASSUME = ['group elements have the names and types the format prescribes; keys '
    'of unknown elements contain no dots and are unique',
    'a pipe carries no byte order mark and names certificates before the '
    'receipts, as the stream parser documents']
SEARCH = ('read sizes of files, pipes and sockets, chunk sizes, element orders '
    'and layouts, abandoned and repeated passes')
ORACLE = 'the journal the text was rendered from'
NOTE = ('Samples layouts and read patterns; a violation it reports is real.')
MUST_HIT = ['short-reads', 'second-pass', 'abandoned-pass', 'lookahead',
    'stream', 'certless', 'dict', 'full', 'empty-groups', 'not-at-start']


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
    j = world.gen_journal(rng, n)
    cfgs = []
    for _ in range(rng.choice([3, 4, 6])):
        kind = rng.choice(['dict', 'full', 'file', 'file', 'file', 'stream',
            'stream', 'certless'])
        seek = kind in ('file', 'full') or kind == 'certless' and \
            rng.random() < 0.5
        cfgs.append({'kind': kind, 'chunk': rng.choice([0, 1, 1, 2, 3, 4, 5, 7,
            n - 1, n, n + 1, 1000]), 'nparts': rng.choice([1, 1, 2, 3, 7, 50]),
            'stream': simio.gen_stream_plan(rng, seek),
            'again': rng.choice([0, 0, 1, 2]), 'abandon': rng.randrange(4)})
        if rng.random() < 0.15:
            cfgs[-1]['stream']['skip'] = rng.choice(['x', '{"a":1}\n',
                '\u20ac\n' * 50])
    return {'j': j, 'layout': deprender.gen_layout(rng), 'cfgs': cfgs,
        'nocerts': rng.random() < 0.15, 'nest': rng.randrange(3)}


def der(c):
    return c.public_bytes(Encoding.DER)


_der = {}


def pem_der(one):
    if one == '':
        return None
    if one not in _der:
        import base64
        _der[one] = base64.b64decode(one)
    return _der[one]


def check_pass(chunks, want, cfg, maxchunks=None):
    """want: [(jws, cert der, [chain ders], group number)]"""
    i = 0
    nch = 0
    for ch in chunks:
        nch += 1
        if not ch:
            raise Violation('empty-chunk', '%s: a chunk without groups' % cfg)
        total = 0
        for recs, cert, chain in ch:
            gno = None
            for r in recs:
                if i >= len(want):
                    raise Violation('extra-receipt', '%s: more receipts than '
                        'the DEP has' % cfg)
                w = want[i]
                i += 1
                total += 1
                if r.decode('utf-8') != w[0]:
                    pos = [k for k, x in enumerate(want) if x[0] ==
                        r.decode('utf-8')]
                    raise Violation('wrong-receipt', '%s: receipt %d of the '
                        'DEP expected, delivered %s' % (cfg, i - 1,
                            pos[:3] or 'something else'))
                got = (der(cert) if cert is not None else None,
                    [der(c) for c in chain])
                ok = got[0] == w[1] and got[1] == w[2]
                if cfg['kind'] == 'certless':
                    ok = got[0] in (None, w[1]) and got[1] in ([], w[2])
                if not ok:
                    raise Violation('wrong-certificate', '%s: receipt %d '
                        'comes with another certificate or chain than its '
                        'group %d has' % (cfg, i - 1, w[3]))
                if gno is not None and gno != w[3]:
                    raise Violation('merged-groups', '%s: one tuple spans '
                        'groups %d and %d' % (cfg, gno, w[3]))
                gno = w[3]
        if cfg['chunk'] and total > cfg['chunk']:
            raise Violation('chunk-too-big', '%s: chunk of %d receipts' % (cfg,
                total))
    if i != len(want):
        raise Violation('lost-receipts', '%s: %d of %d receipts delivered' % (
            cfg, i, len(want)))
    if maxchunks is not None and nch > maxchunks:
        raise Violation('too-many-chunks', '%s: %d chunks' % (cfg, nch))


def run(plan, ctx):
    reg = world.RefRegister(plan['j'])
    recs = reg.run(plan['j']['ops'])
    if not recs:
        raise InvalidPlan('no receipts')
    dep = world.dep_dict(world.groups_of(recs), not plan['nocerts'])
    lay = plan['layout']
    want = []
    for gi, g in enumerate(dep['Belege-Gruppe']):
        for r in g['Belege-kompakt']:
            want.append((r, pem_der(g['Signaturzertifikat']),
                [pem_der(c) for c in g['Zertifizierungsstellen']], gi))
    if lay.get('empty'):
        ctx.probe('empty-groups')
    text = deprender.render(dep, lay)
    ctx.log(len(recs), len(dep['Belege-Gruppe']), len(text))
    for cfg in plan['cfgs']:
        if cfg['chunk'] < 0 or cfg['nparts'] < 1 or cfg['stream']['buf'] < 1:
            raise InvalidPlan('configuration')
        kind = cfg['kind']
        txt = text
        stream = cfg['stream']
        if kind == 'stream':
            l2 = dict(lay, bom=False, order=[(0, 2)[o % 2] for o in
                lay.get('order') or [0]])
            txt = deprender.render(dep, l2)
            stream = dict(stream, seek=False)
        elif kind in ('file', 'full'):
            stream = dict(stream, seek=True)
        elif kind == 'certless' and not stream.get('seek'):
            txt = deprender.render(dep, dict(lay, bom=False))
        elif kind == 'dict':
            pass
        o = call(lib.parser_for, 'file' if kind == 'stream' else kind, txt,
            stream, ctx, cfg['nparts'])
        if not o.ok:
            raise Violation('cannot-open', '%s: %r\n%s' % (cfg, o, o.tb))
        p = o.value
        ctx.probe(kind)
        if stream.get('skip') and kind != 'dict':
            ctx.probe('not-at-start')
        if kind == 'file' and type(p) is not lib.depparser.FileDEPParser:
            raise Violation('wrong-parser', '%r for a seekable file' % type(p))
        if 0 < cfg['chunk'] < len(recs) and len(recs) > 1:
            ctx.nontrivial = True
        if kind == 'file' and any(ORD[o % 6] for o in lay.get('order') or [0]) \
                and cfg['chunk']:
            ctx.probe('lookahead')
        mx = None
        if not cfg['chunk']:
            if kind in ('file', 'stream', 'certless'):
                mx = 1
            elif cfg['nparts'] > 1:
                mx = cfg['nparts']
        again = cfg['again'] if kind in ('dict', 'full', 'file') else 0
        ctx.log(kind, cfg['chunk'], again)

        def one():
            check_pass(p.parse(cfg['chunk']), want, cfg, mx)

        if again == 2:
            def part():
                for k, ch in enumerate(p.parse(cfg['chunk'])):
                    if k >= cfg['abandon']:
                        break
            o = call(part)
            if not o.ok:
                raise Violation('parse-failed', '%s: %r\n%s' % (cfg, o, o.tb))
            ctx.probe('abandoned-pass')
        for k in range(2 if again == 1 else 1):
            o = call(one)
            if not o.ok:
                raise Violation('parse-failed', '%s, pass %d: %r\n%s' % (cfg,
                    k + 1, o, o.tb[-1500:]))
            if k:
                ctx.probe('second-pass')


# element orders in which a certificate comes after the receipts
ORD = [2 != o.index(2) for o in deprender.ORDERS]
