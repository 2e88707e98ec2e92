"""C16: receipt IDs are used once in a cluster, over all registers, sessions,
chunks and workers, for both records of used IDs."""
import hashlib
import json

from .. import core, deprender, lib, model, simio, simpool, world
from ..core import InvalidPlan, Violation, call

RUNS = {'quick': 12000, 'thorough': 150000}
FROZEN = ()
RULE = ('A run lets 1-3 registers number their receipts from a shared, '
    'colliding pool of IDs (faulty numbering, restored backups, foreign '
    'numbering schemes), and verifies their journals in random sessions, '
    'chunks, packages and worker schedules with saved and reloaded states. '
    'Non-trivial: more than one session or package.')
REAL = ['librksv.verification_state', 'librksv.verify', 'librksv.depparser']
STUB = ['worker pool (simulated schedule and failures)', 'byte streams',
    'cash registers (reference implementation)']
ASSUME = ['receipt IDs contain no "_" (they cannot in RKSV)']
SEARCH = ('ID histories of several registers, session cuts, chunk sizes, '
    'packages and worker schedules')
ORACLE = 'a set of IDs (unique), the greatest ID so far in natural order ' \
    '(sorted), both written independently'
NOTE = ('Samples clusters of up to three registers with up to 20 receipts '
    'each; a violation it reports is real, silence is evidence over the '
    'explored runs, not proof.')
MUST_HIT = ['dup-rejected', 'dup-other-register', 'dup-other-session',
    'dup-same-chunk', 'dup-other-package', 'accepted', 'natural',
    'natural-rejected', 'equal-after-lower', 'process-pool', 'thread-pool',
    'worker-failure', 'retried', 'reloaded', 'all-distinct-cluster']

def _mix(n):
    """Odd IDs: text and numbers of all lengths in any order."""
    h = hashlib.md5(b'id%d' % n).digest()
    out = ''
    for i in range(1 + h[0] % 4):
        out += ('', 'A', 'a', '-', '/', 'Zz', '\u00e9', '.')[h[2 * i + 1] % 8]
        out += ('7', '07', '10', '9' * 12, '1' + '0' * 12, '9' * 16, '8' * 31,
            '00012', str(n), '')[h[2 * i + 2] % 10]
    return out or 'x'


POOLS = [
    _mix,
    lambda n: '%d' % 3 ** (n % 60),
    lambda n: 'B-%d/%d' % (7 ** (n % 19), n),
    lambda n: ('A%d-1', 'A9-%d', 'A%d', 'a-%d')[n % 4] % (n // 4),
    lambda n: '%d' % n,
    lambda n: '%03d' % n,
    lambda n: 'R%d' % n,
    lambda n: ('r%d' if n % 2 else 'R%d') % (n // 2),
    lambda n: ('%d', '0%d', '00%d')[n % 3] % (n // 3),
    lambda n: '%dA%d' % (n // 4, n % 4),
    lambda n: '2017-%02d-%d' % (n // 5, n % 5),
    lambda n: ('\u00e4%d', '\u00c4%d', 'a%d', 'z%d')[n % 4] % (n // 4),
    lambda n: ('\u00b2%d', '\u0663%d', '\uff11%d', '%d')[n % 4] % (n // 4),
    lambda n: ' ' * (n % 3) + 'x' + '.' * (n // 3),
    lambda n: '%d' % (10 ** 18 + n),
    lambda n: hex(n * 7919 % 65536),
    lambda n: ('a', 'A', '', 'b')[n % 4] + '%d/' % (n // 4),
]


def gen(rng, tier):
    r = rng.choice([1, 1, 2, 3])
    backend = rng.choice(['unique', 'natural'])
    per = [rng.choice([1, 2, 3, 5, 8, 13, 20]) for _ in range(r)]
    pool = rng.randrange(len(POOLS))
    n = rng.randrange(3)
    ids, flat, k = [], [], rng.randrange(20)
    for q in per:
        l = []
        for _ in range(q):
            k += rng.choice([1, 1, 1, 1, 2, 5])
            l.append(k)
            flat.append(k)
        ids.append(l)
    # numbering faults
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        a = rng.randrange(r)
        i = rng.randrange(len(ids[a]))
        m = rng.randrange(4)
        if m == 0:
            ids[a][i] = rng.choice(flat)
        elif m == 1:
            ids[a][i] = max(0, ids[a][i] - rng.choice([1, 2, 9]))
        elif m == 2 and i:
            ids[a][i], ids[a][i - 1] = ids[a][i - 1], ids[a][i]
        else:
            ids[a][i] += rng.choice([1, 7])
    return {
        'backend': backend, 'pool': pool, 'ids': ids,
        'dev': rng.randrange(6), 'key': rng.randrange(100),
        'fresh': rng.randrange(4),
        'sess': [{
            'reg': rng.randrange(r), 'n': rng.choice([1, 2, 3, 5, 8, 100]),
            'chunk': rng.choice([0, 1, 2, 3, 5]),
            'nprocs': rng.choice([1, 2, 3, 4]), 'workers': rng.choice([1, 2,
                3]),
            'pool': rng.choice(['none', 'process', 'process', 'thread']),
            'pchunk': rng.choice([None, 1, 2]),
            'fail': rng.choice([0] * 6 + [1, 2]),
            'parser': rng.choice(['dict', 'file', 'full', 'direct']),
            'reload': rng.random() < 0.5,
            'stream': simio.gen_stream_plan(rng, True),
            'sched': [rng.randrange(16) for _ in range(12)],
            'lay': deprender.gen_layout(rng) if rng.random() < 0.3 else
                {'order': [0]},
        } for _ in range(rng.choice([1, 2, 4, 7]))],
    }


def build(plan):
    regs, prev = [], None
    f = POOLS[plan['pool'] % len(POOLS)]
    dev = world.CLOSED_KEYS[plan['dev'] % len(world.CLOSED_KEYS)]
    for k, ids in enumerate(plan['ids']):
        if not ids:
            raise InvalidPlan('empty register')
        ops = []
        for i, n in enumerate(ids):
            ops.append(['setid', f(abs(n))])
            ops.append(['null', 0] if i == 0 else
                ['std', [100 + i, 0, 0, 0, 0], 1])
            if (n + i) % 7 == 6:
                ops.append(['grp'])
        rg = world.RefRegister({'closed': True, 'devs': [dev], 'reg':
            'REG', 'key': plan['key'], 'tcs': 8, 'ops': ops}, prev)
        rg.run(ops)
        prev = rg.recs[0].jws
        regs.append(rg.recs)
    return regs, dev


class Natural:
    def __init__(self):
        self.hi = self.lo = None

    def ok(self, rid):
        return self.hi is None or model.natkey(self.hi) < model.natkey(rid)

    def add(self, rid):
        self.hi = rid
        if self.lo is None:
            self.lo = rid

    def data(self):
        return {'minId': self.lo, 'maxId': self.hi}

    def copy(self):
        n = Natural()
        n.hi, n.lo = self.hi, self.lo
        return n


class Unique:
    def __init__(self, s=()):
        self.s = set(s)

    def ok(self, rid):
        return rid not in self.s

    def add(self, rid):
        self.s.add(rid)

    def data(self):
        return sorted(self.s)

    def copy(self):
        return Unique(self.s)


def groups(recs):
    out = []
    for r in recs:
        if not out or out[-1][0] != r.grp:
            out.append((r.grp, []))
        out[-1][1].append(r.jws)
    return {'Belege-Gruppe': [{'Signaturzertifikat': '',
        'Zertifizierungsstellen': [], 'Belege-kompakt': [j for r in recs
            for j in [r.jws]]}]}


def run(plan, ctx):
    regs, dev = build(plan)
    if not regs:
        raise InvalidPlan('no registers')
    natural = plan['backend'] == 'natural'
    ids = Natural() if natural else Unique()
    ks = lib.keystore([dev])
    key = world.aes_key(plan['key'])
    # a state can also start without the cash registers' IDs known
    state = lib.new_state(plan['backend'])
    if natural:
        ctx.probe('natural')
    pos, started = [0] * len(regs), 0
    owner = {}
    queue = list(plan['sess']) + [dict(reg=k, n=10**6, chunk=0, nprocs=1,
        workers=1, pool='none', pchunk=None, fail=0, parser='dict',
        reload=True, stream={}, sched=[], lay={'order': [0]})
        for k in range(len(regs))]
    dead = set()
    nsess = 0
    for s in queue:
        k = min(s['reg'] % len(regs), started)
        if k in dead or k and k - 1 in dead and k == started or \
                pos[k] >= len(regs[k]):
            continue
        recs = regs[k][pos[k]:pos[k] + max(1, s['n'])]
        trial, bad, at = ids.copy(), set(), None
        seen, lo = {}, None
        for i, r in enumerate(recs):
            if not trial.ok(r.rid):
                bad.add(r.rid)
                if at is None:
                    at = i
                    if natural:
                        ctx.probe('natural-rejected')
                        if r.rid not in owner and r.rid not in seen:
                            ctx.probe('equal-after-lower')
                    elif r.rid in seen:
                        if s['chunk'] and i // s['chunk'] == seen[r.rid] // \
                                s['chunk'] or not s['chunk']:
                            ctx.probe('dup-same-chunk')
                        else:
                            ctx.probe('dup-other-package')
                    elif owner[r.rid] == k:
                        ctx.probe('dup-other-session')
                    else:
                        ctx.probe('dup-other-register')
            trial.add(r.rid)
            seen.setdefault(r.rid, i)
        nsess += 1
        if nsess > 1 or s['chunk'] and len(recs) > s['chunk'] or \
                s['nprocs'] > 1:
            ctx.nontrivial = True
        if s['reload']:
            state = lib.state_from(json.loads(json.dumps(
                state.writeStateToJson())))
            ctx.probe('reloaded')
        dep = groups(recs)
        text = deprender.render(dep, s['lay'])
        idx = k if k < started else None
        before = lib.norm_state(state)
        for attempt in (0, 1):
            dec = simpool.Decider(s['sched'], ctx, 's%d' % nsess)
            pool = None
            fail = (s['fail'],) if s['fail'] and attempt == 0 else ()
            if s['pool'] != 'none':
                pool = simpool.SimPool(max(1, s['workers']), ctx=ctx, dec=dec,
                    mode=s['pool'], chunk_override=s['pchunk'], fail_at=fail)
                ctx.probe(s['pool'] + '-pool')
            wf = ctx.faults.get('worker-failure', 0)
            if s['parser'] == 'direct':
                o = call(lib.verify.verifyDEP, dep, ks, key, state, idx)
            else:
                p = lib.parser_for(s['parser'], text, dict(s['stream'],
                    seek=True), ctx, max(1, s['nprocs']), pool.maybe_run if
                    pool else None)
                o = call(lib.verify.verifyParsedDEP, p, ks, key, state, idx,
                    pool, max(1, s['nprocs']), max(0, s['chunk']))
            hit = ctx.faults.get('worker-failure', 0) > wf
            ctx.log(nsess, k, len(recs), at, o.name)
            ctx.steps += len(recs)
            if not hit or o.ok:
                break
            if not isinstance(o.exc, MemoryError) and not bad:
                raise Violation('worker-failure-misreported', repr(o))
            ctx.probe('retried')
        what = 'session %d (register %d, IDs %s..., %s record, %s)' % (nsess,
            k, [r.rid for r in recs][:20], plan['backend'], {a: s[a] for a in
                ('chunk', 'nprocs', 'pool', 'parser')})
        if o.ok:
            if bad:
                raise Violation('used-id-accepted', '%s: ID %r was used '
                    'before' % (what, recs[at].rid))
            ids = trial
            for r in recs:
                owner.setdefault(r.rid, k)
            state = o.value
            got = lib.norm_state(state)['usedReceiptIds']['backendData']
            if got != ids.data():
                raise Violation('wrong-record', '%s: record of IDs %s, should '
                    'be %s' % (what, got, ids.data()))
            pos[k] += len(recs)
            started = max(started, k + 1)
            ctx.probe('accepted')
            if k and not natural:
                ctx.probe('all-distinct-cluster')
        else:
            if not bad:
                raise Violation('unused-id-rejected', '%s: %r\n%s' % (what, o,
                    o.tb[-500:]))
            if o.name != 'DuplicateReceiptIdException' and not hit:
                raise Violation('wrong-error', '%s: %r\n%s' % (what, o,
                    o.tb[-500:]))
            rid = getattr(o.exc, 'receipt', None)
            if not natural and not hit and rid not in bad:
                raise Violation('wrong-id-blamed', '%s: blames %r, used '
                    'before: %s' % (what, rid, sorted(bad)))
            if natural and not hit and rid not in [r.rid for r in recs]:
                raise Violation('wrong-id-blamed', '%s: blames %r' % (what,
                    rid))
            if lib.norm_state(state) != before:
                raise Violation('state-changed', what)
            dead.add(k)
            ctx.probe('dup-rejected')
