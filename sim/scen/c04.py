"""C04: verifying journals in many program runs, each continuing from the saved
state, equals verifying each journal as a whole."""
import json

from .. import case, core, deprender, lib, model, script, simfs, simpool, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 9000, 'thorough': 100000}
FROZEN = ()
RULE = ('A run cuts the journals of 1-3 registers into segments and verifies '
    'them with verify.py in a random interleaving, each run continuing from '
    'the state the last successful one printed; runs are killed, lose their '
    'output, input or a worker, and are then repeated. Non-trivial: at least '
    'two sessions.')
REAL = ['verify.py', 'librksv.verify', 'librksv.verification_state',
    'librksv.depparser', 'librksv.key_store', 'verification_state.py (show)']
STUB = ['disk, pipes and standard streams', 'multiprocessing.Pool (simulated '
    'pool)', 'cash registers (reference implementation)']
ASSUME = ['the operator keeps the old state until a run ended with status 0']
SEARCH = ('segmentations, interleavings of registers, parallelism, crash '
    'points and failing files, pipes and workers')
ORACLE = ('the reference model and one whole verification of each journal')
NOTE = ('Samples clusters of up to three registers with up to 24 receipts '
    'each; a violation it reports is real, silence is evidence over the '
    'explored runs, not proof.')
MUST_HIT = ['crash-kill', 'interleaved', 'session-ok', 'session-rejected',
    'retried', 'continue', 'par', 'EPIPE-stdout', 'EIO', 'worker-failure',
    'whole-equal', 'cluster', 'natural', 'state-saved']
FAULTS = [None] * 5 + ['kill', 'kill', 'EIO', 'EACCES', 'stdout', 'stdout',
    'worker']


def gen(rng, tier):
    r = rng.choice([1, 1, 1, 2, 2, 3])
    backend = rng.choice(['unique', 'unique', 'natural']) if r == 1 else \
        'unique'
    closed = True if r > 1 else None
    js = []
    for k in range(r):
        j = world.gen_journal(rng, rng.choice([1, 2, 3, 4, 6, 8, 12, 24]),
            closed=closed, sorted_ids=backend == 'natural')
        if js:
            j['key'] = js[0]['key']
            if rng.random() < 0.9:
                j['reg'] = js[0]['reg']
                j['t0'] = js[-1]['t0'] + rng.choice([0, 0, 5, 86400])
            j['ids'] = js[0]['ids']
            j['id0'] = js[0]['id0'] + 1000 * k
        js.append(j)
    kinds = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        kinds.append(case.add_fault(rng, rng.choice(js)))
    certs = not js[0]['closed'] and rng.random() < 0.7
    ns = rng.choice([1, 2, 3, 5, 8, 12])
    return {
        'js': js, 'kinds': kinds, 'backend': backend, 'certs': certs,
        'trust': rng.choice(['leaf', 'mid', 'top', 'all']) if certs else
            rng.choice(['leaf', 'all']),
        'aes': rng.random() < 0.75,
        # register and number of receipts of each session, in order
        'sess': [{
            'reg': rng.randrange(r), 'n': rng.choice([1, 1, 2, 3, 5, 100]),
            'cont': rng.random() < 0.5,
            'par': rng.choice([None, None, None, 1, 2, 3]),
            'chunk': rng.choice([None, None, 0, 1, 2, 3, 7]),
            'json': rng.random() < 0.2,
            'fault': rng.choice(FAULTS), 'at': rng.randrange(10**6),
            'show': rng.random() < 0.15,
            'sched': [rng.randrange(16) for _ in range(8)],
            'layout': deprender.gen_layout(rng) if rng.random() < 0.4 else
                {'order': [0]},
        } for _ in range(ns)],
        # states of all kinds, e.g. prepared with the state tool
        'rt': [gen_state(rng) for _ in range(rng.choice([0, 1, 2]))],
    }


def gen_state(rng):
    jws = [None, '', 'a.b.c', 'x', 'y' * 300, 'e\u00e4\u20ac.\u00ff.', 0, 0, 1, 1]
    ids = [world.ID_STYLES[rng.randrange(len(world.ID_STYLES))](
        rng.randrange(200)) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
    return {
        'regs': [[rng.choice(jws), rng.choice(jws), rng.choice([0, 0, 1, -1,
            rng.randrange(-10**6, 10**6), 1 << 63, -(1 << 127), 10**15 + 1]),
            rng.random() < 0.5, rng.choice(jws + ['AAAAAAAAAAA='])]
            for _ in range(rng.choice([0, 1, 1, 2, 3]))],
        'ids': ids, 'backend': rng.choice(['unique', 'unique', 'natural']),
        'indent': rng.choice([None, 2]), 'cli': rng.random() < 0.3}


def check_state(s, plan, ctx):
    """A state is the same after it was written and read again."""
    rr = world.RefRegister(plan['js'][0])
    recs = rr.run(plan['js'][0]['ops'])
    st = lib.new_state(s['backend'])
    want = {'cashRegisters': [], 'usedReceiptIds': {
        'backendType': lib.BACKENDS[s['backend']]}}
    K = ['startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter',
        'needRestoreReceipt', 'chainNextTo']
    for vals in s['regs']:
        if len(vals) != 5:
            raise InvalidPlan('fields')
        vals = [recs[0 if v == 0 else -1].jws if i in (0, 1, 4) and
            isinstance(v, int) else v for i, v in enumerate(vals)]
        r = lib.verification_state.CashRegisterState()
        for k, v in zip(K, vals):
            setattr(r, k, v)
        st.cashRegisters.append(r)
        want['cashRegisters'].append(dict(zip(K, vals)))
    # receipts come in natural order if the space-saving record is used
    ids = sorted(set(s['ids']), key=model.natkey) \
        if s['backend'] == 'natural' else s['ids']
    for i in ids:
        st.usedReceiptIds.add(i)
    if s['backend'] == 'natural':
        want['usedReceiptIds']['backendData'] = {'minId': ids[0] if ids else
            None, 'maxId': ids[-1] if ids else None}
    else:
        want['usedReceiptIds']['backendData'] = sorted(set(ids))
        want['usedReceiptIds']['n'] = len(set(ids))
    for k in range(2):
        o = call(lambda: json.dumps(st.writeStateToJson(), indent=s['indent']))
        if not o.ok:
            raise Violation('state-not-written', '%r\n%s' % (o, o.tb))
        text = o.value
        if s['cli']:
            disk = simfs.Disk()
            disk.put('state.json', text)
            res = script.run('verification_state.py', ['state.json', 'show'],
                simfs.Proc(disk, ctx), ctx)
            if res.rc != 0:
                raise Violation('show', '%r\n%s' % (res, res.tb[-600:]))
            text = disk.get('state.json').decode()
        o = call(lambda: lib.verification_state.ClusterState
            .readStateFromJson(json.loads(text)))
        if not o.ok:
            raise Violation('state-unreadable', '%r\n%s' % (o, o.tb[-600:]))
        got = lib.norm_state(o.value)
        if got != want:
            raise Violation('state-changed-by-saving', 'saved  %s\nloaded %s'
                % (want, got))
        st = o.value
    ctx.probe('state-saved')


class Reg:
    pass


def groups(recs, certs):
    if not certs:
        return [{'grp': 0, 'dev': recs[0].dev, 'recs': [r.jws for r in recs]}]
    return world.groups_of(recs)


def mgroups(recs, certs):
    return [(g['dev'] if certs else None, g['recs'])
        for g in groups(recs, certs)]


def run(plan, ctx):
    for k in plan['kinds']:
        ctx.fault('register:' + k)
    regs, prev = [], None
    devs = []
    for s in plan.get('rt', ()):
        check_state(s, plan, ctx)
    for j in plan['js']:
        if not case.rec_positions(j['ops']):
            raise InvalidPlan('no receipts')
        g = Reg()
        rr = world.RefRegister(j, prev)
        g.recs = rr.run(j['ops'])
        g.pos, g.dead = 0, False
        prev = g.recs[0].jws
        devs += list(j['devs']) + [o[1] for o in j['ops'] if o[0] == 'swapsys']
        regs.append(g)
    if not regs:
        raise InvalidPlan('no registers')
    if plan['certs'] and any(d in world.FX['closed'] for d in devs):
        raise InvalidPlan('certificates of keys')
    if len(regs) > 1:
        ctx.probe('cluster')
    if plan['backend'] == 'natural':
        ctx.probe('natural')
    names = case.store_names(devs, plan['trust'])
    key = world.aes_key(plan['js'][0].get('key', 0)) if plan['aes'] else None
    disk = simfs.Disk()
    disk.put('ks.json', json.dumps(world.store_json(names,
        plan['js'][0].get('key', 0) if plan['aes'] else None)))
    ks = lib.keystore(names)

    state = lib.new_state(plan['backend']).writeStateToJson()
    if plan['backend'] == 'unique':
        res = script.run('verify.py', ['state'], simfs.Proc(disk, ctx), ctx)
        try:
            ok = res.rc == 0 and json.loads(res.text()) == state
        except ValueError:
            ok = False
        if not ok:
            raise Violation('initial-state', '%r %s' % (res, res.out))
    mregs, used = [], set()
    sessions, order = 0, []
    queue = [dict(s) for s in plan['sess']]
    # what is left is verified at the end
    for k in range(len(regs)):
        queue.append({'reg': k, 'n': 10**6, 'cont': True, 'par': None,
            'chunk': None, 'json': False, 'fault': None, 'at': 0,
            'show': False, 'sched': [], 'layout': {'order': [0]}})
    seg_ok = True
    for s in queue:
        k = s['reg'] % len(regs)
        # registers join the cluster one after the other
        k = min(k, len(mregs))
        g = regs[k]
        if g.dead or g.pos >= len(g.recs):
            continue
        if k and regs[k - 1].dead and k == len(mregs):
            continue
        recs = g.recs[g.pos:g.pos + max(1, s['n'])]
        idx = k if k < len(mregs) else None
        st0 = mregs[k] if idx is not None else model.RegState()
        mprev = mregs[k - 1].start if k else None
        hits, st, used2 = model.verify(mgroups(recs, plan['certs']), names,
            key, st0, used, mprev, backend=plan['backend'])
        dep = world.dep_dict(groups(recs, plan['certs']), plan['certs'])
        disk.put('dep.json', deprender.render(dep, s['layout']))
        args = ['state']
        if idx is not None:
            if s['cont'] and idx == len(mregs) - 1:
                args.append('continue')
                ctx.probe('continue')
            else:
                args.append(str(idx))
        elif s['cont']:
            args.append(str(k))
        if s['par'] is not None:
            args += ['par', str(max(1, s['par']))]
            ctx.probe('par')
        if s['chunk'] is not None:
            args += ['chunksize', str(s['chunk'])]
        if s['json']:
            args.append('json')
        args += ['ks.json', 'dep.json']
        sessions += 1
        order.append(k)
        for attempt in (0, 1):
            fault = s['fault'] if attempt == 0 else None
            fl, so, fail_at = [], None, ()
            if fault in ('kill', 'EIO', 'EACCES'):
                # the operations of a session: three or so, plus its output
                fl = [(1 + s['at'] % 6, fault)]
            elif fault == 'stdout':
                so = {'fail_after': s['at'] % 3000,
                    'err': ['EPIPE', 'ENOSPC', 'EIO'][s['at'] % 3]}
            elif fault == 'worker':
                fail_at = (1 + s['at'] % 3,)
            proc = simfs.Proc(disk, ctx, fl)
            dec = simpool.Decider(s['sched'], ctx)
            before_wf = ctx.faults.get('worker-failure', 0)

            def pool(n=None, *a, **kw):
                return simpool.SimPool(n, *a, ctx=ctx, dec=dec, mode='process',
                    fail_at=fail_at, **kw)
            res = script.run('verify.py', args, proc, ctx,
                stdin=json.dumps(state, indent=2).encode(), stdout=so,
                pool=pool)
            injected = bool(proc.injected) or res.crash or \
                ctx.faults.get('worker-failure', 0) > before_wf
            ctx.log(sessions, k, len(recs), args[1:-2], res.rc, res.crash,
                type(res.exc).__name__, bool(hits))
            ctx.steps += len(recs)
            what = 'session %d (register %d, receipts %d-%d, %s)' % (sessions,
                k, g.pos, g.pos + len(recs) - 1, ' '.join(args))
            if res.rc == 0:
                if 'Verification successful' not in res.err:
                    raise Violation('no-verdict', what)
                break
            if 'Verification successful' in res.err and not injected:
                raise Violation('mixed-verdict', '%s: %r' % (what, res))
            if not injected:
                break
            ctx.probe('retried')
        if res.rc == 0:
            if hits:
                raise Violation('accepted-bad', '%s breaks a rule: %r' % (what,
                    hits[0]))
            try:
                new = json.loads(res.text())
                loaded = lib.state_from(new)
            except Exception as e:
                raise Violation('state-unreadable', '%s printed a state that '
                    'cannot be read: %r: %r' % (what, e, res.out[-300:]))
            n = lib.norm_state(loaded)
            w = [x.json() for x in mregs]
            if idx is None:
                w.append(st.json())
            else:
                w[k] = st.json()
            if n['cashRegisters'] != w:
                raise Violation('wrong-state', '%s\nexpected %s\ngot      %s'
                    % (what, w, n['cashRegisters']))
            check_ids(n, used2, plan, what)
            if idx is None:
                mregs.append(st)
            else:
                mregs[k] = st
            used, state = used2, new
            g.pos += len(recs)
            ctx.probe('session-ok')
        else:
            if not hits:
                raise Violation('rejected-good', '%s: %r\n%s' % (what, res,
                    res.tb[-700:]))
            name = type(res.exc).__name__
            if name not in set().union(*[h.names for h in model.verify(
                    mgroups(recs, plan['certs']), names, key, st0, used, mprev,
                    carry_on=True, backend=plan['backend'])[0]]):
                raise Violation('wrong-rule', '%s: %r\n%s' % (what, res,
                    res.tb[-700:]))
            if res.out:
                raise Violation('state-after-rejection', '%s printed %r' % (
                    what, res.out[:200]))
            g.dead = True
            seg_ok = False
            ctx.probe('session-rejected')
        if s['show']:
            # other tools may read and rewrite the saved state
            disk.put('state.json', json.dumps(state))
            res = script.run('verification_state.py', ['state.json', 'show'],
                simfs.Proc(disk, ctx), ctx)
            if res.rc != 0:
                raise Violation('show', repr(res))
            try:
                state = json.loads(disk.get('state.json').decode())
            except (ValueError, AttributeError) as e:
                raise Violation('show', 'destroyed the state: %r' % e)
    ctx.nontrivial = sessions > 1
    if sorted(order) != order:
        ctx.probe('interleaved')

    # --- the same journals, each as a whole
    wstate = lib.new_state(plan['backend'])
    wused = set()
    for k, g in enumerate(regs):
        if k and not wstate.cashRegisters:
            return
        if k > len(wstate.cashRegisters):
            return
        o = call(lib.verify.verifyDEP, world.dep_dict(groups(g.recs,
            plan['certs']), plan['certs']), ks, key, wstate)
        if o.ok == g.dead:
            # an ID clash between two registers is blamed on the later one
            if not o.ok and type(o.exc).__name__ == \
                    'DuplicateReceiptIdException' or not seg_ok:
                return
            raise Violation('verdict-differs', 'register %d: sessions %s, '
                'whole: %r' % (k, 'rejected' if g.dead else 'accepted', o))
        if not o.ok:
            return
        wstate = o.value
    if lib.norm_state(wstate) != lib.norm_state(lib.state_from(state)):
        raise Violation('state-differs', 'sessions:\n%s\nwhole:\n%s' % (
            lib.norm_state(lib.state_from(state)), lib.norm_state(wstate)))
    ctx.probe('whole-equal')


def check_ids(n, used, plan, what):
    d = n['usedReceiptIds']['backendData']
    if plan['backend'] == 'unique':
        if d != sorted(used):
            raise Violation('wrong-ids', '%s: saved receipt IDs differ' % what)
    else:
        ks = sorted(used, key=model.natkey)
        if d != {'minId': ks[0], 'maxId': ks[-1]}:
            raise Violation('wrong-ids', '%s: %s, expected %s..%s' % (what, d,
                ks[0], ks[-1]))
