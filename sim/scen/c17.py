"""C17: verdicts and states do not depend on the clock, time zone, hash seed or
random source of the machine that verifies."""
import atexit
import json
import os
import random
import subprocess
import sys

from .. import env, simclock

simclock.install()

from .. import case, core, lib, model, script, simfs, simio, simpool, world  # noqa
from ..core import HarnessError, InvalidPlan, Violation, call  # noqa

RUNS = {'quick': 4500, 'thorough': 60000}
FROZEN = ()
RULE = ('A run verifies a journal (legal or with register faults, with '
    'receipts around changes to and from summer time and certificates that '
    'are expired or not yet valid) under several clocks that start anywhere '
    'and jump in both directions while the verification reads its input and '
    'runs its tasks, in several time zones and with several random sources, '
    'and in other interpreters with other hash seeds. Non-trivial: all.')
REAL = ['librksv (verification, parsing, state)', 'verify.py']
STUB = ['system clock', 'byte streams, disk', 'worker pool',
    'cash registers (reference implementation)']
ASSUME = ['the C library knows the zones given as POSIX TZ strings']
SEARCH = 'clock starts and jumps, time zones, hash seeds, random seeds'
ORACLE = ('the reference model, which reads no clock, and equality of all '
    'verdicts and states')
NOTE = ('Samples journals of up to 20 receipts; the zones are 8 POSIX rules; '
    'a violation it reports is real, silence is evidence over the explored '
    'runs, not proof.')
MUST_HIT = ['clock-jump', 'clock-step', 'accepted', 'rejected', 'other-hash',
    'expired-cert', 'future-cert', 'script', 'dst', 'zone:CET-1CEST,M3.5.0,'
    'M10.5.0/3']
ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX12', 'YYY-14',
    'NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01', 'EST5EDT,M3.2.0,M11.1.0',
    'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30']
STARTS = [0, 1, 1420070400 - 86400, 1483228800, 1491004800, 1540692000,
    2147483647, 2240611200 + 10**8, 4102444800, 915148800, 1521939600]


def gen(rng, tier):
    c = case.gen_case(rng, rng.choice([1, 2, 4, 6, 10, 20]),
        faults=rng.choice([0, 0, 1, 1, 2]))
    j = c['j']
    if not j['closed'] and rng.random() < 0.4:
        j['devs'] = [rng.choice(['L6', 'L7'])] + j['devs'][1:]
        if rng.random() < 0.5:
            c['certs'] = True
    dst = rng.random() < 0.5
    if dst:
        # nights in which clocks change, in small steps
        j['t0'] = rng.choice([d - 5400 for d in dst_times()])
        for o in j['ops']:
            if o[0] in ('std', 'dummy', 'rev'):
                o[2] = rng.choice([0, 60, 600, 1500])
            elif o[0] == 'null':
                o[1] = rng.choice([0, 60, 600, 1500])
    return {'case': c, 'dst': dst, 'seed': rng.randrange(1000), 'envs': [{
        't': rng.choice(STARTS) + rng.randrange(-10**6, 10**6),
        'steps': [rng.choice([0, 1, 1, -1, 3600, -3600, 86400 * 400,
            -86400 * 400, 10**9, -10**9]) for _ in range(rng.choice([1, 3,
                6]))],
        'tz': rng.choice(ZONES), 'seed': rng.randrange(10**6),
        'how': rng.choice(['direct', 'parsed', 'parsed', 'script']),
        'chunk': rng.choice([0, 1, 2, 3]), 'nprocs': rng.choice([1, 2, 3]),
        'sched': [rng.randrange(16) for _ in range(8)],
        'stream': simio.gen_stream_plan(rng, True),
    } for _ in range(rng.choice([2, 3]))]}


def dst_times():
    import datetime as d
    out = []
    for y in (2017, 2018, 2019):
        for m, n in ((3, -1), (10, -1), (3, 2), (11, 1), (4, 1)):
            days = [x for x in range(1, 32 if m in (3, 10) else 31)
                if d.date(y, m, x).weekday() == 6]
            day = days[n] if n < 0 else days[n - 1]
            t = (d.datetime(y, m, day, 2, 0) - world.EPOCH).total_seconds()
            if t > 0:
                out.append(int(t))
    return out


def build(plan):
    c = case.Case(plan['case'])
    if c.certs and any(d in world.FX['closed'] for d in c.devs):
        c.certs = False
    return c


def summary(o):
    if o.ok:
        return ['ok', lib.norm_state(o.value)]
    return [o.name, None]


def prepare(c):
    ks = lib.keystore(c.store)
    state, mprev, used = lib.new_state(), None, set()
    for recs in c.prior:
        o = call(lib.verify.verifyDEP, c.dep(recs), ks, None, state)
        if not o.ok:
            return None
        state = o.value
        mprev = recs[0].jws
        used |= {r.rid for r in recs}
    return ks, json.dumps(state.writeStateToJson()), mprev, used


def verify_with(c, ks, base, e, ctx, clock):
    dep = c.dep(c.recs)
    st = lib.state_from(json.loads(base))
    if e['how'] == 'direct':
        return summary(call(lib.verify.verifyDEP, dep, ks, c.key, st, None))
    if e['how'] == 'parsed':
        dec = simpool.Decider(e['sched'], ctx)
        pool = simpool.SimPool(2, ctx=ctx, dec=dec, mode='process')

        def on_read():
            if clock:
                clock.tick()
            pool.maybe_run()
        p = lib.parser_for('file', json.dumps(dep), dict(e['stream'],
            seek=True), ctx, 1, on_read)
        return summary(call(lib.verify.verifyParsedDEP, p, ks, c.key, st, None,
            pool, max(1, e['nprocs']), max(0, e['chunk'])))
    disk = simfs.Disk()
    import base64
    store = world.store_json(c.store)
    if c.key is not None:
        store['base64AESKey'] = base64.b64encode(c.key).decode()
    disk.put('ks.json', json.dumps(store))
    disk.put('dep.json', json.dumps(dep))
    res = script.run('verify.py', ['state', str(len(st.cashRegisters)),
        'ks.json', 'dep.json'], simfs.Proc(disk, ctx), ctx,
        stdin=base.encode())
    ctx.probe('script')
    if res.rc == 0:
        return ['ok', lib.norm_state(lib.state_from(json.loads(res.text())))]
    return [type(res.exc).__name__, None]


PLAIN = {'how': 'direct', 'sched': [], 'stream': {}, 'chunk': 0, 'nprocs': 1}

# ------------------------------------------------- interpreters of other seeds
_children = {}


def child():
    """Verifies what it is told on standard input."""
    env.setup()
    for line in sys.stdin:
        plan = json.loads(line)
        try:
            c = build(plan)
            p = prepare(c)
            out = None
            if p:
                out = []
                for e in [PLAIN] + [x for x in plan['envs'] if x['how'] ==
                        'parsed']:
                    out.append(verify_with(c, p[0], p[1], e, core.Ctx(), None))
        except InvalidPlan:
            out = 'invalid'
        print(json.dumps(out), flush=True)


def ask(seed, plan):
    if seed not in _children:
        e = dict(os.environ)
        e.update(PYTHONHASHSEED=str(seed), TZ=ZONES[seed % len(ZONES)])
        _children[seed] = subprocess.Popen([sys.executable, '-c',
            'from sim.scen import c17; c17.child()'], cwd=env.VERIF, env=e,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        if len(_children) == 1:
            atexit.register(lambda: [p.kill() for p in _children.values()])
    p = _children[seed]
    p.stdin.write(json.dumps(plan) + '\n')
    p.stdin.flush()
    r = p.stdout.readline()
    if not r:
        raise HarnessError('child interpreter died')
    return json.loads(r)


def run(plan, ctx):
    c = build(plan)
    for k in plan['case']['faultkinds']:
        ctx.fault('register:' + k)
    if plan['dst']:
        ctx.probe('dst')
    p = prepare(c)
    if p is None:
        return
    ks, base, mprev, used = p
    if 'L6' in c.devs:
        ctx.probe('expired-cert')
    if 'L7' in c.devs:
        ctx.probe('future-cert')
    want = verify_with(c, ks, base, PLAIN, ctx, None)
    h = model.verify(c.model_groups(c.recs), c.store, c.key, model.RegState(),
        used, mprev)[0]
    allowed = set()
    for f in model.verify(c.model_groups(c.recs), c.store, c.key,
            model.RegState(), used, mprev, carry_on=True)[0]:
        allowed |= f.names
    if (want[0] == 'ok') == bool(h):
        raise Violation('verdict', 'model %r, verifier %s' % (h[:1], want[0]))
    ctx.probe('accepted' if want[0] == 'ok' else 'rejected')
    ctx.nontrivial = True
    ctx.log(want[0], len(c.recs))
    for e in plan['envs']:
        with simclock.zone(e['tz']), simclock.Clock(e['t'], e['steps'], ctx) \
                as clock:
            random.seed(e['seed'])
            ctx.probe('zone:' + e['tz'])
            got = verify_with(c, ks, base, e, ctx, clock)
            ctx.time(abs(clock.t - e['t']))
            if clock.reads:
                ctx.probe('clock-read')
        ctx.log(e['how'], e['tz'], e['t'], got[0])
        if got[0] != want[0] and (e['how'] == 'direct' or got[0] not in
                allowed) or got[1] != want[1]:
            raise Violation('verdict-differs', 'plain: %s; clock at %d, steps '
                '%s, zone %s (%s): %s' % (want, e['t'], e['steps'], e['tz'],
                    e['how'], got))
    for seed in (1, 4243):
        if (plan['seed'] + seed) % 3:
            continue
        out = ask(seed, plan)
        ctx.probe('other-hash')
        if out is None or out == 'invalid':
            raise Violation('verdict-differs', 'hash seed %d: earlier '
                'registers rejected' % seed)
        for got, e in zip(out, [PLAIN] + [x for x in plan['envs'] if
                x['how'] == 'parsed']):
            if got[0] != want[0] and (e['how'] == 'direct' or got[0] not in
                    allowed) or got[1] != json.loads(json.dumps(want[1])):
                raise Violation('verdict-differs', 'hash seed 0: %s; hash seed '
                    '%d, zone %s: %s' % (want, seed, ZONES[seed % len(ZONES)],
                        got))
