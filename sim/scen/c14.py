"""C14: a verification state that was lost is rebuilt from the journal, with or
without the cash register's key, by the library or by verification_state.py."""
import base64
import json

from .. import case, core, forms, lib, model, script, simfs, simnet, world
from ..core import InvalidPlan, Violation, call
from librksv import depparser, receipt as lreceipt, verification_state as vs

RUNS = {'quick': 9000, 'thorough': 100000}
FROZEN = ()
RULE = ('A run lets registers produce legal journals, loses the verification '
    'state at a random receipt, rebuilds it from the journal in random '
    'portions with the library or with verification_state.py (whose runs may '
    'be killed or fail and are repeated), or from a single receipt, and then '
    'continues verification. Non-trivial: the rebuilt state is not empty.')
REAL = ['librksv.verification_state', 'verification_state.py',
    'librksv.depparser', 'librksv.receipt', 'librksv.url_receipt_helpers',
    'requests (above the transport)', 'librksv.verify']
STUB = ['disk and standard streams', 'network transport and receipt server',
    'cash registers (reference implementation)']
ASSUME = ['after a killed run the operator starts again from a copy of the '
    'state file']
SEARCH = ('histories, points of loss, portions and chunk sizes of the rebuild, '
    'crash points and file errors during it')
ORACLE = 'a full verification of the same receipts and the reference model'
NOTE = ('Samples journals of up to 40 receipts; a violation it reports is '
    'real, silence is evidence over the explored runs, not proof.')
MUST_HIT = ['empty-portion', 'rebuilt-api', 'rebuilt-cli', 'from-receipt', 'from-start',
    'crash-kill', 'EIO', 'need-restore', 'down-at-loss', 'rev-tail',
    'all-rev-portion', 'no-key', 'cluster', 'url', 'ocr', 'csv', 'qr',
    'cli-from-receipt', 'continued', 'chunked']
FORMS = ['jws', 'qr', 'ocr', 'csv', 'url']


def gen(rng, tier):
    cluster = rng.choice([0, 0, 0, 1, 2])
    j = world.gen_journal(rng, rng.choice([1, 2, 3, 5, 8, 12, 20, 40]),
        closed=True if cluster else None)
    # training and cancelled receipts of zero are no zero receipts
    if rng.random() < 0.4:
        for o in j['ops']:
            if o[0] in ('dummy', 'rev') and rng.random() < 0.4:
                o[1] = [0] * 5
    # most losses happen around outages and cancelled receipts
    pos, up, was, n = [], True, True, 0
    for o in j['ops']:
        if o[0] in ('up', 'down'):
            up = o[0] == 'up'
        elif o[0] in ('std', 'null', 'dummy', 'rev'):
            n += 1
            if up != was or o[0] in ('rev', 'dummy'):
                pos.append(n - 1)
            was = up
    cut = rng.choice(pos) if pos and rng.random() < 0.6 else \
        rng.randrange(10**6)
    return {
        'j': j, 'cluster': cluster, 'aes': rng.random() < 0.7,
        'certs': not j['closed'] and rng.random() < 0.5,
        'cut': cut,
        'mode': rng.choice(['api', 'api', 'cli', 'rec', 'rec', 'recli',
            'start']),
        'parts': [rng.choice([1, 1, 2, 3, 7, 100]) for _ in
            range(rng.choice([1, 2, 4]))],
        'chunk': rng.choice([None, 1, 2, 3, 5]),
        'form': rng.choice(FORMS), 'host': rng.random() < 0.5,
        'fault': rng.choice([None, None, 'kill', 'EIO', 'EACCES', 'ENOSPC']),
        'at': rng.randrange(10**6), 'which': rng.randrange(10**6),
        'rest': [rng.choice([1, 1, 2, 3, 100]) for _ in
            range(rng.choice([1, 2, 3]))],
        'fresh': rng.random() < 0.5,
    }


def make_groups(recs, certs):
    if not certs:
        return [{'grp': 0, 'dev': recs[0].dev, 'recs': [r.jws for r in recs]}]
    return world.groups_of(recs)


def dep_of(recs, certs):
    return world.dep_dict(make_groups(recs, certs), certs)


def cut_parts(recs, parts):
    out, i, n = [], 0, 0
    while i < len(recs):
        k = max(1, parts[n % len(parts)]) if parts else len(recs)
        out.append(recs[i:i + k])
        i += k
        n += 1
    return out


def full(recs, prior, certs, ks, key):
    """State after verifying the prior registers' journals and recs."""
    st = lib.new_state()
    for p in prior:
        st = lib.verify.verifyDEP(dep_of(p, certs), ks, key, st)
    if recs:
        st = lib.verify.verifyDEP(dep_of(recs, certs), ks, key, st)
    return st


def run_cli(disk, ctx, args, plan, n, net=None):
    """One command; an injected fault is followed by a repetition from the
    copy of the state file."""
    old = disk.get('state.json') if 'state.json' in disk.files() else None
    faulty = plan['fault'] and n == plan['which'] % 4
    for attempt in (0, 1):
        fl = [(1 + plan['at'] % 12, plan['fault'])] if faulty and attempt == 0 \
            else []
        proc = simfs.Proc(disk, ctx, fl)
        env = {}
        if plan['chunk'] is not None:
            env['RKSV_DEP_CHUNKSIZE'] = str(max(1, plan['chunk']))
            ctx.probe('chunked')
        res = script.run('verification_state.py', ['state.json'] + args, proc,
            ctx, environ=env, patches=net.patches() if net else ())
        ctx.log('cli', args[:2], res.rc, res.crash, bool(proc.injected))
        if res.rc == 0 and not res.crash:
            return res
        if not (proc.injected or res.crash):
            raise Violation('command-fails', '%s: %r\n%s' % (args, res,
                res.tb[-900:]))
        if old is not None:
            disk.put('state.json', old)
    raise Violation('command-fails', '%s fails again: %r' % (args, res))


def run(plan, ctx):
    j = plan['j']
    if not case.rec_positions(j['ops']):
        raise InvalidPlan('no receipts')
    if plan['certs'] and any(d in world.FX['closed'] for d in j['devs']):
        raise InvalidPlan('certificates of keys')
    prior, prev = [], None
    for k in range(plan['cluster']):
        pj = dict(j, ids=5, id0=1000 * (k + 1), ops=[['null', 0]] +
            [['std', [100 + k, 0, 0, 0, 0], 5]] * (k % 2))
        pj['t0'] = 0
        rg = world.RefRegister(pj, prev)
        prior.append(rg.run(pj['ops']))
        prev = prior[-1][0].jws
    if prior:
        ctx.probe('cluster')
    rg = world.RefRegister(j, prev)
    recs = rg.run(j['ops'])
    names = case.store_names(j['devs'], 'leaf')
    ks = lib.keystore(names)
    key = world.aes_key(j.get('key', 0)) if plan['aes'] else None
    if key is None:
        ctx.probe('no-key')
    hits = model.verify([(g['dev'] if plan['certs'] else None, g['recs'])
        for g in make_groups(recs, plan['certs'])], names, key,
        model.RegState(), set(), prev)[0]
    if hits:
        raise InvalidPlan('not a legal journal')
    certs = plan['certs']
    mode = plan['mode']
    n = len(recs)
    if mode in ('api', 'cli'):
        k = plan['cut'] % n + 1
        st = rebuild(plan, ctx, recs[:k], prior, key, certs)
        want = full(recs[:k], prior, certs, ks, key)
        last = want.cashRegisters[-1]
        ctx.log('lost after', k, last.needRestoreReceipt,
            last.lastTurnoverCounter)
        if last.needRestoreReceipt:
            ctx.probe('need-restore')
        if not recs[k - 1].signed:
            ctx.probe('down-at-loss')
        if recs[k - 1].kind == 'rev':
            ctx.probe('rev-tail')
        a = json.loads(json.dumps([r.__dict__ for r in st.cashRegisters]))
        b = json.loads(json.dumps([r.__dict__ for r in want.cashRegisters]))
        ctx.nontrivial = True
        if a != b:
            raise Violation('rebuilt-state-differs', 'after receipt %d of %d '
                '(%s)\nrebuilt  %s\nverified %s' % (k, n, mode, a, b))
        ctx.probe('rebuilt-' + mode)
        rest, idx = recs[k:], len(prior)
    else:
        start = mode == 'start'
        p = 0 if start else plan['cut'] % n
        st, key = from_receipt(plan, ctx, recs[p], key, start)
        rest, idx = recs[p:], 0
        ctx.log('from', p, recs[p].kind, recs[p].signed, key is not None)
        ctx.nontrivial = p > 0 or start
        ctx.probe('from-start' if start else 'from-receipt')
    # --- verification goes on with the rebuilt state
    done = 0
    upd = lib.state_from(json.loads(json.dumps(st.writeStateToJson())))
    for part in cut_parts(rest, plan['rest']):
        part = list(part)
        if mode not in ('api', 'cli') and not plan['fresh']:
            st = lib.state_from(json.loads(json.dumps(
                st.writeStateToJson())))
        o = call(lib.verify.verifyDEP, dep_of(part, certs), ks, key, st, idx)
        if not o.ok:
            raise Violation('rest-rejected', '%s: state created at receipt %d '
                'rejects receipts %d-%d: %r\n%s' % (mode, n - len(rest),
                n - len(rest) + done, n - len(rest) + done + len(part) - 1, o,
                o.tb[-600:]))
        st = o.value
        done += len(part)
        ctx.steps += len(part)
        upto = n - len(rest) + done
        want = full(recs[:upto], prior, certs, ks, key)
        w, g = want.cashRegisters[-1], st.cashRegisters[idx]
        fields = ['lastReceiptJWS', 'lastTurnoverCounter', 'chainNextTo']
        if mode in ('api', 'cli', 'start'):
            fields.append('startReceiptJWS')
        if mode in ('api', 'cli') or done > 1:
            # a single receipt does not tell what came before it
            fields.append('needRestoreReceipt')
        for f in fields:
            if getattr(w, f) != getattr(g, f):
                raise Violation('continued-state-differs', '%s: %s after '
                    'receipt %d is %r, should be %r' % (mode, f, upto,
                    getattr(g, f), getattr(w, f)))
        # bringing the state up to date without verifying is the same
        upd.cashRegisters[idx].updateFromDEPGroup(
            [depparser.shrinkDEPReceipt(r.jws) for r in part], key)
        if upd.cashRegisters[idx].__dict__ != g.__dict__:
            raise Violation('updated-state-differs', '%s, after receipt %d\n'
                'updated  %s\nverified %s' % (mode, upto,
                upd.cashRegisters[idx].__dict__, g.__dict__))
        ids = {r.rid for r in rest[:done]}
        got = set(lib.norm_state(st)['usedReceiptIds']['backendData'])
        if got != ids:
            raise Violation('wrong-ids', '%s: used IDs %s, should be %s' % (
                mode, sorted(got), sorted(ids)))
        ctx.probe('continued')


def rebuild(plan, ctx, recs, prior, key, certs):
    if plan['mode'] == 'api':
        st = lib.new_state()
        for rs in prior + [recs]:
            st.addNewCashRegister()
            reg = st.cashRegisters[-1]
            for i, part in enumerate(cut_parts(rs, plan['parts'])):
                if all(r.kind == 'rev' for r in part):
                    ctx.probe('all-rev-portion')
                group = [depparser.shrinkDEPReceipt(r.jws) for r in part]
                if (plan['at'] + i) % 7 == 0:
                    # nothing new since the last time
                    reg.updateFromDEPGroup([], key)
                    reg = st.cashRegisters[-1] = \
                        vs.CashRegisterState.fromDEPGroup(reg, [], key)
                    ctx.probe('empty-portion')
                if plan['fresh']:
                    new = vs.CashRegisterState.fromDEPGroup(reg, group, key)
                    reg = st.cashRegisters[-1] = new
                else:
                    reg.updateFromDEPGroup(group, key)
                if i % 3 == plan['at'] % 3:
                    st = lib.state_from(st.writeStateToJson())
                    reg = st.cashRegisters[-1]
        return st
    disk = simfs.Disk()
    if key:
        disk.put('key', base64.b64encode(key) + b'\n' * (plan['at'] % 2))
    cmds = [['create']]
    for k, rs in enumerate(prior + [recs]):
        cmds.append(['addCashRegister'])
        for i, part in enumerate(cut_parts(rs, plan['parts'])):
            f = 'dep%d-%d.json' % (k, i)
            disk.put(f, json.dumps(dep_of(part, certs)))
            cmds.append(['updateCashRegister', str(k), f] +
                (['key'] if key else []))
    for i, c in enumerate(cmds):
        run_cli(disk, ctx, c, plan, i)
    return lib.state_from(json.loads(disk.get('state.json').decode()))


def from_receipt(plan, ctx, rec, key, start):
    form = plan['form']
    if form == 'csv' and not forms.csv_safe(rec.jws):
        form = 'qr'
    s = forms.FORMS[form](rec.jws)
    ctx.probe(form)
    net = None
    if form == 'url':
        s = 'https://receipts.example/%s' % s
        net = simnet.SimNet(ctx, lambda r: simnet.Answer(200,
            {'code': forms.qr(rec.jws)}) if r.url == s else None,
            lambda n, r: None)
    # the counter is not known from other receipts
    ret = key
    if key is not None and rec.kind != 'std' and not start:
        ret = None
    if plan['mode'] == 'recli' or start and plan['host']:
        disk = simfs.Disk()
        if key:
            disk.put('key', base64.b64encode(key))
        run_cli(disk, ctx, ['fromArbitraryStartReceipt' if start else
            'fromArbitraryReceipt', form, s] +
            (['key'] if key and not start else []), plan, 0, net)
        ctx.probe('cli-from-receipt')
        return lib.state_from(json.loads(disk.get('state.json').decode())), ret
    if form == 'url':
        from librksv.url_receipt_helpers import getBasicCodeFromURL
        with net:
            s, form = getBasicCodeFromURL(s), 'qr'
    r, prefix = {'jws': lreceipt.Receipt.fromJWSString,
        'qr': lreceipt.Receipt.fromBasicCode,
        'ocr': lreceipt.Receipt.fromOCRCode,
        'csv': lreceipt.Receipt.fromCSV}[form](s)
    if start:
        return vs.ClusterState.fromArbitraryStartReceipt(r), ret
    return vs.ClusterState.fromArbitraryReceipt(r, prefix, key), ret
