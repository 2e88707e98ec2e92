"""C01: splitting a journal into chunks and spreading it over workers never
changes verdict or resulting state."""
import json

from .. import case, core, deprender, lib, model, simio, simpool, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 10000, 'thorough': 200000}
FROZEN = ('faultkinds', 'cfg')
RULE = ('A run verifies one generated journal (1-40 receipts, 0-2 faults, '
    'fresh, resumed, cluster or arbitrary-start state) sequentially in one '
    'pass and then 2-4 times through random combinations of parser, chunk '
    'size, package count, pool kind, worker count and task/result order. '
    'Non-trivial: at least three receipts and one configuration with more '
    'than one package.')
REAL = ['librksv.verify (sequential and packaged)', 'librksv.depparser (all '
    'parsers, ijson)', 'librksv.verification_state', 'librksv.verify_receipt',
    'librksv.receipt', 'pickling of tasks, results and errors']
STUB = ['multiprocessing.Pool / ThreadPool (simulated pool: seeded task and '
    'completion order, real pickling)', 'files (simulated streams with short '
    'reads)', 'cash register (reference implementation)']
ASSUME = ['a worker process is never killed outright: the real pool would '
    'wait for its task for ever, whatever this program does']
SEARCH = ('chunk sizes, work packages, worker counts, task and completion '
    'orders, short reads and injected register faults')
ORACLE = ('one sequential pass of the same code and the reference model of the '
    'rules')
NOTE = ('Samples journals of up to 40 receipts under simulated pools; a '
    'violation it reports is real, silence is evidence over the explored '
    'runs, not proof.')
MUST_HIT = ['pool-tasks', 'task-reordered', 'worker-exceptions', 'resumed',
    'arbitrary-start', 'multi-batch', 'thread-pool', 'no-pool', 'no-state', 'sent-late']


def gen_cfg(rng, n):
    parser = rng.choice(['dict', 'full', 'file', 'file', 'file', 'stream'])
    chunk = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, n, n + 1, max(1, n - 1),
        1000])
    pool = rng.choice(['none', 'process', 'process', 'process', 'thread'])
    return {
        'parser': parser, 'chunk': chunk, 'pool': pool,
        'nprocs': rng.choice([1, 2, 2, 3, 4, 8]),
        'nparts': rng.choice([1, 2, 3, 5]),
        'workers': rng.choice([1, 2, 3, 8]),
        'pchunk': rng.choice([None, None, None, 2, 100]),
        'sched': [rng.randrange(64) for _ in range(30)],
        'stream': simio.gen_stream_plan(rng, parser != 'stream'),
    }


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20] + ([40] if
        rng.random() < 0.15 else []))
    backend = rng.choice(['unique', 'unique', 'natural'])
    c = case.gen_case(rng, n, sorted_ids=backend == 'natural',
        cluster=0 if backend == 'natural' else None,
        faults=rng.choice([0, 0, 1, 1, 1, 2]))
    c['backend'] = backend
    c['start'] = rng.choice(['fresh', 'fresh', 'fresh', 'arb', 'arbstart'])
    lay = deprender.gen_layout(rng)
    cfgs = [gen_cfg(rng, n) for _ in range(rng.choice([2, 3, 4]))]
    return {'case': c, 'layout': lay, 'cfgs': cfgs,
        'nocert': rng.choice([0, 0, 0, 1, 2]) if rng.random() < 0.1 else 0,
        'nostate': rng.random() < 0.4}


def seq_verify(dep, ks, key, state, idx):
    return call(lib.verify.verifyDEP, json.loads(json.dumps(dep)), ks, key,
        state, idx)


def run(plan, ctx):
    cp = plan['case']
    c = case.Case(cp)
    for k in cp['faultkinds']:
        ctx.fault(k)
    ks = lib.keystore(c.store)
    state = lib.new_state(cp['backend'])
    mprev, used = None, set()
    for recs in c.prior:
        o = call(lib.verify.verifyDEP, c.dep(recs), ks, None, state)
        if not o.ok:
            ctx.log('prior rejected')
            return
        state = o.value
        mprev = recs[0].jws
        used |= {r.rid for r in recs}
    idx = None
    recs = c.recs
    st = model.RegState()
    start = cp.get('start', 'fresh')
    if start != 'fresh' and not c.prior and len(recs) > 1:
        # continue from a receipt without the history before it
        cut = max(1, min(len(recs) - 1, cp['seg'] or 1))
        o = call(lib.depparser.receipt.Receipt.fromJWSString, recs[cut].jws)
        if not o.ok:
            return
        rec, prefix = o.value
        if start == 'arbstart':
            if cut != 0:
                cut = 0
            o = call(lib.depparser.receipt.Receipt.fromJWSString, recs[0].jws)
            if not o.ok:
                return
            state = lib.verification_state.ClusterState \
                .fromArbitraryStartReceipt(o.value[0],
                    lib.backend(cp['backend']))
        else:
            key = c.key if cp['keymode'] != 'short' else None
            state = lib.verification_state.ClusterState.fromArbitraryReceipt(
                rec, prefix, key, lib.backend(cp['backend']))
        recs = recs[cut:]
        idx = 0
        ctx.probe('arbitrary-start')
        m0 = lib.norm_state(state)['cashRegisters'][0]
        st = model.RegState(m0['startReceiptJWS'], m0['lastReceiptJWS'],
            m0['lastTurnoverCounter'], m0['needRestoreReceipt'],
            m0['chainNextTo'])
    elif 0 < cp['seg'] < len(recs):
        o = seq_verify(c.dep(recs[:cp['seg']]), ks, c.key, state, None)
        if not o.ok:
            ctx.log('first session rejected')
            return
        state = o.value
        h, st, used = model.verify(c.model_groups(recs[:cp['seg']]), c.store,
            c.key, st, used, mprev, backend=cp['backend'])
        idx = len(c.prior)
        recs = recs[cp['seg']:]
        ctx.probe('resumed')
    base = json.dumps(state.writeStateToJson())
    dep = c.dep(recs)
    groups = c.model_groups(recs)
    nocert = False
    if plan.get('nocert') and len(dep['Belege-Gruppe']) > 1:
        bg = dep['Belege-Gruppe']
        for i in range(int(plan['nocert'])):
            g = bg[(len(recs) + i) % len(bg)]
            g['Signaturzertifikat'] = ''
            g['Zertifizierungsstellen'] = []
        nocert = True
    text = deprender.render(dep, plan['layout'])
    hits, _, _ = model.verify(groups, c.store, c.key, st, used, mprev,
        carry_on=True, backend=cp['backend'])
    allowed = set()
    for h in hits:
        allowed |= h.names
    if nocert:
        allowed |= {'NoCertificateGivenException', 'NoPublicKeyException',
            'InvalidSignatureException'}

    # a caller may leave the state out to begin with an empty one
    nostate = bool(plan.get('nostate')) and start == 'fresh' and \
        not c.prior and idx is None and cp['backend'] == 'unique'
    if nostate:
        ctx.probe('no-state')
    want = seq_verify(dep, ks, c.key, None if nostate else
        lib.state_from(json.loads(base)), idx)
    wstate = lib.norm_state(want.value) if want.ok else None
    ctx.log('sequential', len(recs), want.name)
    if want.ok and nocert:
        raise Violation('sequential-verdict', 'several groups, one of them '
            'without certificate, were accepted in one pass')
    if not nocert and want.ok != (not hits):
        raise Violation('sequential-verdict', 'model %r, verifier %r' % (
            hits[:2], want))

    for n, cfg in enumerate(plan['cfgs']):
        ctx.log('cfg', n, cfg['parser'], cfg['chunk'], cfg['pool'],
            cfg['nprocs'])
        dec = simpool.Decider(cfg['sched'], ctx, 'pool%d' % n)
        pool = None
        if cfg['pool'] != 'none':
            pool = simpool.SimPool(cfg['workers'], ctx=ctx, dec=dec,
                mode=cfg['pool'], chunk_override=cfg['pchunk'])
        if cfg['pool'] == 'thread':
            ctx.probe('thread-pool')
        if cfg['pool'] == 'none':
            ctx.probe('no-pool')
        on_read = pool.maybe_run if pool else None
        if cfg['nprocs'] < 1 or cfg['nparts'] < 1 or cfg['workers'] < 1 or \
                cfg['chunk'] < 0 or cfg['stream']['buf'] < 1:
            raise InvalidPlan('configuration')
        stream = dict(cfg['stream'], seek=cfg['parser'] != 'stream')
        lay = dict(plan['layout'])
        txt = text
        if cfg['parser'] == 'stream':
            # pipes: certificates must come before the receipts, and a byte
            # order mark cannot be skipped
            lay['order'] = [(0, 2)[o % 2] for o in lay.get('order') or [0]]
            lay['bom'] = False
            txt = deprender.render(dep, lay)
        parser = lib.parser_for('file' if cfg['parser'] == 'stream' else
            cfg['parser'], txt, stream, ctx, cfg['nparts'], on_read)
        got = call(lib.verify.verifyParsedDEP, parser, ks, c.key,
            None if nostate and n % 2 else lib.state_from(json.loads(base)),
            idx, pool, cfg['nprocs'], cfg['chunk'])
        ctx.log('result', got.name)
        if ctx.probes.get('pool-submits', 0) > 1:
            ctx.probe('multi-batch')
        if cfg['nprocs'] > 1 and cfg['chunk'] and cfg['chunk'] < len(recs) \
                and len(recs) > 2:
            ctx.nontrivial = True
        if nocert and got.ok != want.ok and 'NoCertificateGivenException' in (
                got.name, want.name) or nocert and got.name != want.name and \
                'NoCertificateGivenException' in (got.name, want.name):
            ctx.known('KF-NOCERT', 'verdict-differs', 'journal with several '
                'groups, one of them without certificate: sequential %s, '
                '%s chunk %d %s' % (want.name, cfg['parser'], cfg['chunk'],
                    got.name))
            if got.ok:
                # it explains an accepted journal only if the groups without
                # certificate were in chunks of their own
                stream['eio'] = None
                fresh = lib.parser_for('file' if cfg['parser'] == 'stream' else
                    cfg['parser'], txt, stream, core.Ctx(), cfg['nparts'])
                if any(len(ch) > 1 and any(not g[1] for g in ch)
                        for ch in fresh.parse(cfg['chunk'])):
                    raise Violation('verdict-differs', 'a chunk of several '
                        'groups, one of them without certificate, was '
                        'accepted; in one pass: %r' % want)
            continue
        if got.ok != want.ok:
            raise Violation('verdict-differs', 'one pass: %r; %s parser, chunk '
                '%s, %s packages, pool %s: %r\n%s' % (want, cfg['parser'],
                    cfg['chunk'], cfg['nprocs'], cfg['pool'], got, got.tb))
        if got.ok:
            g = lib.norm_state(got.value)
            if g != wstate:
                raise Violation('state-differs', 'one pass:\n%s\n%s parser, '
                    'chunk %s, %s packages, pool %s:\n%s' % (wstate,
                        cfg['parser'], cfg['chunk'], cfg['nprocs'],
                        cfg['pool'], g))
        else:
            if got.name not in allowed:
                raise Violation('error-differs', 'one pass: %r; chunked: %r; '
                    'rules broken: %s\n%s' % (want, got, sorted(allowed),
                        got.tb))
            if len(hits) == 1 and got.name == want.name and \
                    str(got.exc) != str(want.exc):
                raise Violation('error-text', 'one pass says %r, chunked says '
                    '%r' % (str(want.exc), str(got.exc)))
            if len(hits) == 1 and getattr(got.exc, 'receipt', None) != getattr(
                    want.exc, 'receipt', None) and got.name == want.name:
                raise Violation('error-receipt', 'one pass blames %r, chunked '
                    '%r' % (want.exc.receipt, got.exc.receipt))


def _history():
    j = {'closed': False, 'devs': ['L4'], 'reg': 'KASSE-1', 'tcs': 8,
        'key': 0, 't0': 0, 'ids': 0, 'id0': 0, 'sstyle': 0, 'zda': 0,
        'ops': [['null', 0], ['std', [100, 0, 0, 0, 0], 5], ['grp'],
            ['std', [200, 0, 0, 0, 0], 5]]}
    c = {'j': j, 'faultkinds': [], 'cluster': 0, 'certs': True,
        'trust': 'leaf', 'badtrust': None, 'seg': 0, 'keymode': 'right',
        'backend': 'unique', 'start': 'fresh'}
    cfg = {'parser': 'file', 'chunk': 1, 'pool': 'none', 'nprocs': 1,
        'nparts': 1, 'workers': 1, 'pchunk': None, 'sched': [],
        'stream': {'seek': True, 'kind': 'text', 'buf': 8192}}
    return {'case': c, 'nocert': True, 'cfgs': [cfg], 'layout': {'order': [0],
        'indent': 0, 'bom': False, 'esc': 0, 'extra': [], 'pad': 0,
        'empty': []}}


HISTORIES = [('group-without-certificate', _history())]
