"""C03: the verdict on a register's journal equals the regulation's rules, over
histories of device outages, restarts from stale memory, clock jumps, corrupted
counters, key and device changes."""
import copy

from .. import case, core, lib, model, world
from ..core import Violation, call

RUNS = {'quick': 30000, 'thorough': 400000}
FROZEN = ('faultkinds',)
RULE = ('A run simulates one register (or the last one of a cluster) over 1-40 '
    'receipts with 0-3 faults of device, clock, memory or operator, exports '
    'the journal in 1-2 verification sessions and compares verdict, first '
    'offending receipt and final state with the reference model. Non-trivial: '
    'at least two receipts and one fault or a device outage.')
REAL = ['librksv.verify', 'librksv.verify_receipt', 'librksv.receipt',
    'librksv.algorithms', 'librksv.verification_state', 'librksv.key_store',
    'librksv.depparser (DictDEPParser)', 'librksv.utils', 'PyJWT',
    'cryptography (signature verification)']
STUB = ['cash register and signature device (independent reference '
    'implementation with simulated clock, memory and outages)']
ASSUME = ['amounts stay below 10^10 EUR per receipt (the library computes '
    'with floats)', 'SHA-256, ECDSA and AES of the installed cryptography '
    'library are correct']
SEARCH = ('register histories with device outages, stale-memory restarts, '
    'clock jumps, corrupted counters, key and device changes and malformed '
    'receipts')
ORACLE = 'an independent executable reference model of the RKSV rules'
NOTE = ('Samples histories of up to 40 receipts; a violation it reports is '
    'real, silence is evidence over the explored runs, not proof.')
MUST_HIT = ['accepted', 'rejected', 'outage-restored', 'lenient-restore',
    'cluster', 'two-sessions', 'accepted-after-loss']


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 20] + ([40] if
        rng.random() < 0.2 else []))
    c = case.gen_case(rng, n)
    if rng.random() < 0.1:
        c['faultkinds'].append(case.add_fault(rng, c['j']))
    if rng.random() < 0.12:
        # a part of the journal is lost; the operator edits the state
        c['lost'] = {'n': rng.choice([0, 1, 1, 2, 3, 5]),
            'last': rng.choice(['keep', 'keep', 'none', 'lost']),
            'nxt': rng.choice(['right'] * 5 + ['wrong', 'none', 'none']),
            'counter': rng.choice(['right'] * 5 + ['keep', 'zero']),
            'need': rng.choice(['keep', 'keep', True, False])}
    return c


def edit_state(lost, c, a, state, st, ridx):
    """The state after the operator's edit, and the model's."""
    k = min(a + lost['n'], len(c.recs) - 1)
    gone = c.recs[k - 1] if k else None
    st = st.copy()
    if lost['last'] == 'none':
        st.last = None
    elif lost['last'] == 'lost' and gone:
        try:
            model.parse(gone.jws)
            st.last = gone.jws
        except model.Bad:
            pass
    if lost['nxt'] == 'right' and gone:
        st.nxt = world.chain_value(gone.jws, c.reg.reg)
    elif lost['nxt'] == 'wrong':
        st.nxt = 'AAAAAAAAAAA='
    if lost['counter'] == 'right':
        st.counter = gone.counter if gone else 0
    elif lost['counter'] == 'zero':
        st.counter = 0
    if lost['need'] != 'keep':
        st.need = lost['need']
    js = state.writeStateToJson()
    while len(js['cashRegisters']) <= ridx:
        js['cashRegisters'].append({})
    js['cashRegisters'][ridx] = st.json()
    return k, lib.state_from(js), st


def check_exc(exc, f, ctx):
    """The exception must be one of the violated rules and name the first
    offending receipt."""
    name = type(exc).__name__
    if name not in f.names:
        raise Violation('wrong-rule', 'the first receipt that breaks a rule '
            'is %r, but the verifier says %s: %s' % (f, name, exc),
            got=name)
    ref = getattr(exc, 'receipt', None)
    if ref is not None and ref not in (f.rid, f.jws) and f.rid is not None:
        raise Violation('wrong-receipt', 'rule %s is broken first by %r but '
            'the verifier blames %r' % (name, f, ref))


def run(plan, ctx):
    c = case.Case(plan)
    for k in plan['faultkinds']:
        ctx.fault(k)
    ops = plan['j']['ops']
    ctx.time(sum(r.t for r in c.recs[-1:]) - plan['j'].get('t0', 0))
    ctx.log(''.join(o[0][0] for o in ops), plan['keymode'], plan['certs'],
        plan['j']['tcs'], sum(sum(r.cents) for r in c.recs))
    ks = lib.keystore(c.store)
    state = lib.new_state(plan['backend'])
    st = model.RegState()
    used = set()

    # earlier registers of the cluster
    mprev = None
    for recs in c.prior:
        ctx.probe('cluster')
        o = call(lib.verify.verifyDEP, c.dep(recs), ks, None, state)
        h, pst, used = model.verify(c.model_groups(recs), c.store, None,
            model.RegState(), used, mprev)
        mprev = pst.start
        if h and o.ok or not h and not o.ok:
            raise Violation('cluster-setup', 'prior register: model %r, '
                'verifier %r' % (h, o))
        if not o.ok:
            ctx.log('prior rejected', o.name)
            return
        state = o.value
    ridx = len(c.prior)
    seg = plan['seg']
    cuts = [0] + ([seg] if 0 < seg < len(c.recs) else []) + [len(c.recs)]
    if len(cuts) == 3:
        ctx.probe('two-sessions')
    ops_down = any(o[0] == 'down' for o in ops)
    ctx.nontrivial = len(c.recs) > 1 and (bool(plan['faultkinds']) or ops_down)
    lost = plan.get('lost')
    for s, (a, b) in enumerate(zip(cuts, cuts[1:])):
        edited = bool(lost and b == len(c.recs))
        if edited:
            a, state, st = edit_state(lost, c, a, state, st, ridx)
            ctx.fault('lost-part')
        recs = c.recs[a:b]
        # the original numbering of groups restarts in each export
        h, st2, used2 = model.verify(c.model_groups(recs), c.store, c.key, st,
            used, mprev)
        o = call(lib.verify.verifyDEP, c.dep(recs), ks, c.key, state,
            ridx if s or edited else None)
        ctx.steps += len(recs)
        ctx.log('session', s, len(recs), o.name, sorted(h[0].names) if h
            else 'clean')
        if h:
            ctx.probe('rejected')
            for n in h[0].names:
                ctx.probe('rule:' + n)
            if o.ok:
                raise Violation('accepted-bad', 'a journal that breaks a rule '
                    'was accepted: %r' % h[0])
            if not isinstance(o.exc, lib.verify.utils.RKSVException):
                raise Violation('undocumented-error', '%r for %r\n%s' % (o,
                    h[0], o.tb))
            check_exc(o.exc, h[0], ctx)
            return
        if not o.ok:
            raise Violation('rejected-good', 'a journal that keeps all rules '
                'was rejected: %r\n%s' % (o, o.tb[-600:]))
        ctx.probe('accepted')
        if edited:
            ctx.probe('accepted-after-loss')
        state, st, used = o.value, st2, used2
        got = lib.norm_state(state)
        if len(got['cashRegisters']) != ridx + 1:
            raise Violation('wrong-state', 'state holds %d registers, '
                'expected %d' % (len(got['cashRegisters']), ridx + 1))
        g, w = got['cashRegisters'][ridx], st.json()
        for k in w:
            if g[k] != w[k]:
                raise Violation('wrong-state', '%s is %r, expected %r' % (k,
                    g[k], w[k]))
        if got['usedReceiptIds']['backendData'] != sorted(used):
            raise Violation('wrong-ids', 'used ids differ from the journal')
    # reach probes
    if ops_down:
        ctx.probe('outage-restored' if not st.need else 'lenient-restore')
    if st.need or any(True for a, b in zip(c.recs, c.recs[1:])
            if not a.signed and b.signed and sum(map(abs, b.cents))):
        ctx.probe('lenient-restore')
