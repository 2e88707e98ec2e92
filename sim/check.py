"""Entry point of every check.

  python -m sim.check C01                 run the check (VERIF_SEED, VERIF_TIER)
  python -m sim.check --replay FILE       replay a violation
  python -m sim.check --worker ...        (internal)
  python -m sim.check --digests C01 N     print one event-log digest per run
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'sim.check'] + sys.argv[1:])

from . import env, core  # noqa: E402

env.setup()

KNOWN_FILE = os.path.join(env.VERIF, 'known_findings.json')
NWORKERS = int(os.environ.get('SIM_WORKERS', '8'))
CPU_LIMIT = 60
WALL_LIMIT = 120        # a run that blocks for so long will not go on
QUICK_CAP = 100         # wall cap per quick check, never reached normally
THOROUGH_CAP = 780


def scenario(prop):
    return importlib.import_module('sim.scen.' + prop.lower())


def open_findings(prop):
    with open(KNOWN_FILE) as f:
        return [k for k in json.load(f)['findings']
            if k['property'] == prop and k['status'] == 'open']


def _on_alarm(sig, frame):
    raise core.Hang('used more than %d s of CPU' % CPU_LIMIT
        if sig == signal.SIGVTALRM else 'blocks')


def run_one(scn, plan, known):
    """One simulated run. Returns (ctx, Violation or None)."""
    ctx = core.Ctx(known)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        scn.run(json.loads(json.dumps(plan)), ctx)
        return ctx, None
    except core.Violation as v:
        ctx.log('VIOLATION', v.kind)
        return ctx, v
    except core.Hang as e:
        return ctx, core.Violation('no-termination', 'a run %s' % e)
    except (core.HarnessError, core.InvalidPlan, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        files = [os.path.realpath(t.filename) for t in tb]
        repo = os.path.realpath(env.REPO) + os.sep
        if any(f.startswith(repo) for f in files) and not \
                core.innermost_is_sim(e):
            return ctx, core.Violation(
                'unexpected-exception:' + type(e).__name__,
                traceback.format_exc()[-1500:])
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def forked(scn, plans, known):
    """Run the plans one after another in a new copy of this process, in which
    nothing ran yet. Returns what the last one gave: {'kind', 'msg', 'events',
    'known', ...}, or None if it could not be run."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for p in plans[:-1]:
                try:
                    run_one(scn, p, known)
                except core.InvalidPlan:
                    pass
            ctx, v = run_one(scn, plans[-1], known)
            out = json.dumps({'kind': v.kind if v else None,
                'msg': v.message if v else None, 'events': ctx.events,
                'faults': ctx.faults, 'probes': ctx.probes,
                'known': ctx.known_hits})
        except BaseException:
            out = json.dumps({'error': traceback.format_exc()})
        try:
            with os.fdopen(w, 'w') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    try:
        out = json.loads(out)
    except ValueError:
        return None
    return out


def gen_plan(scn, prop, tier, seed, i):
    return scn.gen(core.rng_for(prop, seed, i), tier)


def worker(argv):
    prop, tier, seed, k, n, total, cap, out = argv
    k, n, total, cap = int(k), int(n), int(total), float(cap)
    scn = scenario(prop)
    known = [f['id'] for f in open_findings(prop)]
    t0 = time.time()
    res = {'runs': 0, 'faults': {}, 'probes': {}, 'sim_s': 0, 'steps': 0,
        'known': {}, 'violation': None, 'error': None, 'capped': False,
        'invalid': 0}
    sigs, scheds, samples = set(), set(), []
    i = k
    while i < total:
        if time.time() - t0 > cap:
            res['capped'] = True
            break
        try:
            plan = gen_plan(scn, prop, tier, seed, i)
            ctx, v = run_one(scn, plan, known)
        except core.InvalidPlan:
            # e.g. a counter that outgrew its size: not a run
            res['invalid'] += 1
            if res['invalid'] > 20 and res['invalid'] > res['runs']:
                res['error'] = 'run %d: invalid plans\n%s' % (i,
                    traceback.format_exc())
                break
            i += n
            continue
        except BaseException:
            res['error'] = 'run %d: %s' % (i, traceback.format_exc())
            break
        res['runs'] += 1
        for d, s in ((res['faults'], ctx.faults), (res['probes'], ctx.probes),
                (res['known'], ctx.known_hits)):
            for a, b in s.items():
                d[a] = d.get(a, 0) + b
        res['sim_s'] += ctx.sim_s
        res['steps'] += ctx.steps
        if ctx.nontrivial:
            sigs.add(ctx.digest())
        if ctx.sched:
            scheds.add(ctx.sched_digest())
        if len(samples) < 2 and ctx.nontrivial:
            samples.append({'run': i, 'plan': plan, 'log': ctx.events[:60]})
        if v is not None:
            res['violation'] = {'run': i, 'kind': v.kind, 'msg': v.message,
                'plan': plan}
            break
        i += n
    res['sigs'] = sorted(sigs)
    res['scheds'] = sorted(scheds)
    res['samples'] = samples
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)


def digests(argv):
    prop, n, k, step = argv[0], int(argv[1]), int(argv[2]), int(argv[3])
    seed = os.environ.get('VERIF_SEED', '1')
    scn = scenario(prop)
    known = [f['id'] for f in open_findings(prop)]
    for i in range(k, n, step):
        try:
            ctx, v = run_one(scn, gen_plan(scn, prop, 'quick', seed, i), known)
        except core.InvalidPlan:
            continue
        print(prop, i, ctx.digest(), v.kind if v else 'ok')


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scn = scenario(r['property'])
    known = [] if r.get('ignore_known') else [f['id'] for f in
        open_findings(r['property'])]
    for p in r.get('before', []):
        try:
            run_one(scn, p, known)
        except core.InvalidPlan:
            pass
    ctx, v = run_one(scn, r['plan'], known)
    for e in ctx.events:
        print('  ' + e)
    if v is None:
        print('REPLAY: no violation')
        return 0
    print('REPLAY: %s: %s' % (v.kind, v.message))
    print('REPLAY: event log ' + ('as recorded' if ctx.events == r.get('trace')
        else 'differs from the recorded one'))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1 if v.kind == r['kind'] else 3


def minimise(scn, before, plan, kind, known, secs):
    """Shrink the list of plans run before (empty for almost everything) and
    the plan, each candidate in a process of its own."""
    t0 = time.time()
    count = [0]

    def broken(plans):
        count[0] += 1
        o = forked(scn, plans, known)
        return bool(o) and o.get('kind') == kind

    size = (len(before) + 1) // 2
    while before and size and time.time() - t0 < secs:
        i = 0
        while i < len(before) and time.time() - t0 < secs:
            cand = before[:i] + before[i + size:]
            if broken(cand + [plan]):
                before = cand
            else:
                i += size
        size //= 2
    p = core.shrink(plan, lambda p: broken(before + [p]),
        lambda: time.time() - t0 < secs and count[0] < 3000,
        getattr(scn, 'FROZEN', ()))
    return before, p, count[0]


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    print('check %s tier=%s VERIF_SEED=%s' % (prop, tier, seed))
    scn = scenario(prop)
    total = scn.RUNS[tier]
    cap = QUICK_CAP if tier == 'quick' else THOROUGH_CAP
    if 'SIM_RUNS' in os.environ:
        total = int(os.environ['SIM_RUNS'])
    if 'SIM_CAP' in os.environ:
        cap = float(os.environ['SIM_CAP'])
    findings = open_findings(prop)
    known = [f['id'] for f in findings]
    shown = []
    early = None

    # fixed histories: regressions of repaired defects and known findings
    fixed = getattr(scn, 'HISTORIES', [])
    agg_fixed = []
    for name, plan in fixed:
        o = forked(scn, [plan], known)
        if not o or 'error' in o:
            print('HARNESS ERROR in history %s\n%s' % (name, (o or {}).get(
                'error')))
            return 2
        agg_fixed.append(o)
        if o['kind'] is not None:
            early = {'run': 'history:' + name, 'kind': o['kind'],
                'msg': o['msg'], 'plan': plan}
            break
        for fid in o['known']:
            if fid not in shown:
                shown.append(fid)

    results = []
    if early is None:
        procs = []
        with tempfile.TemporaryDirectory(prefix='rksvsim') as tmp:
            nw = max(1, min(NWORKERS, total))
            for k in range(nw):
                out = os.path.join(tmp, 'w%d.json' % k)
                procs.append((subprocess.Popen([sys.executable, '-m',
                    'sim.check', '--worker', prop, tier, seed, str(k), str(nw),
                    str(total), str(cap), out], cwd=env.VERIF), out))
            for p, out in procs:
                p.wait()
                try:
                    with open(out) as f:
                        results.append(json.load(f))
                except (OSError, ValueError):
                    results.append({'error': 'worker died with status %s' %
                        p.returncode, 'violation': None, 'runs': 0})

    vios = [r['violation'] for r in results if r.get('violation')]
    vio = early or (min(vios, key=lambda v: v['run']) if vios else None)
    errs = [r['error'] for r in results if r.get('error')]

    agg = {'faults': {}, 'probes': {}, 'known': {}}
    for r in results + agg_fixed:
        for key in agg:
            for a, b in r.get(key, {}).items():
                agg[key][a] = agg[key].get(a, 0) + b
    runs = sum(r['runs'] for r in results) + len(agg_fixed)
    sigs, scheds, samples = set(), set(), []
    for r in results:
        sigs.update(r.get('sigs', []))
        scheds.update(r.get('scheds', []))
        samples += r.get('samples', [])
    wall = time.time() - t0
    for fid in sorted(agg['known']):
        if fid not in shown:
            shown.append(fid)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(sigs),
        'rule': scn.RULE,
        'samples': samples[:2],
        'runs_per_hour': int(runs * 3600 / max(wall, 0.1)),
        'seed_rule': 'one seed per run: run i draws everything from '
            'Random("%s:%s:i"); runs_per_hour is therefore also seeds per '
            'hour' % (prop, seed),
        'simulated_seconds': sum(r.get('sim_s', 0) for r in results),
        'steps': sum(r.get('steps', 0) for r in results),
        'faults_injected': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'distinct_schedules': len(scheds),
        'distinct_measure': 'distinct_nontrivial counts distinct event-log '
            'digests of non-trivial runs; distinct_schedules counts distinct '
            'sequences of scheduling decisions',
        'known_findings_met': agg['known'],
        'fixed_histories': [n for n, _ in fixed],
        'real_components': scn.REAL,
        'stubbed_components': scn.STUB,
        'discarded_plans': sum(r.get('invalid', 0) for r in results),
        'capped_by_wall_clock': any(r.get('capped') for r in results),
        'workers': len(results),
    }
    evidence = {'property': prop, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': int(seed), 'level': 'exploration',
        'coverage': cov, 'assumptions': getattr(scn, 'ASSUME', []),
        'wall_s': round(wall, 2), 'violations': 0}

    def write():
        os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)

    if vio is not None:
        evidence['violations'] = 1
        print('violation in run %s: %s: %s' % (vio['run'], vio['kind'],
            vio['msg']))
        secs = 60 if vio['kind'] != 'no-termination' else 0
        before = []
        o = forked(scn, [vio['plan']], known)
        if (not o or o.get('kind') != vio['kind']) and early is None:
            # only after what the same process did before
            i, before = vio['run'] % nw, []
            while i < vio['run']:
                try:
                    before.append(gen_plan(scn, prop, tier, seed, i))
                except core.InvalidPlan:
                    pass
                i += nw
            print('needs earlier runs in the same process (%d)' % len(before))
        before, plan, tries = minimise(scn, before, vio['plan'], vio['kind'],
            known, secs)
        rdir = os.path.join(env.VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, seed,
            str(vio['run']).replace(':', '_').replace('/', '_')))
        chosen, exact = None, False
        for p in (plan, vio['plan']):
            o = forked(scn, before + [p], known)
            if not o or 'error' in o:
                continue
            kept = open(path).read() if chosen is not None else None
            with open(path, 'w') as f:
                json.dump({'property': prop, 'kind': vio['kind'],
                    'seed': seed, 'run': vio['run'],
                    'message': o['msg'] or '?', 'before': before,
                    'plan': p, 'trace': o['events'],
                    'shrink_attempts': tries}, f, indent=1)
            again = subprocess.run([sys.executable, '-m', 'sim.check',
                '--replay', path], cwd=env.VERIF, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL)
            if again.returncode == 1:
                chosen = p
                exact = b'event log as recorded' in again.stdout
                if exact:
                    break
            elif kept is not None:
                with open(path, 'w') as f:
                    f.write(kept)
        write()
        if chosen is None:
            print('HARNESS: violation did not replay in a fresh process')
            return 2
        print('minimised with %d executions; replay with: '
            'python -m sim.check --replay %s' % (tries, path))
        print('replayed in a new process: same violation, %s' % (
            'same event log' if exact else 'another event log (the code under '
            'test does something the simulator does not decide)'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        print('HARNESS ERROR')
        for e in errs[:2]:
            print(e)
        return 2
    # a probe stuck at zero means the workload lost its reach
    missing = [p for p in getattr(scn, 'MUST_HIT', ())
        if not agg['probes'].get(p) and not agg['faults'].get(p)]
    cov['must_hit_missing'] = missing
    write()
    for f in findings:
        if f['id'] in shown:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            print('note: listed finding %s was not met in this run' % f['id'])
    print('%d runs, %d distinct non-trivial, %d schedules, %d kinds of fault, '
        '%.1f s%s' % (runs, len(sigs), len(scheds), len(agg['faults']), wall,
        (' (MISSING PROBES: %s)' % missing) if missing else ''))
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == '--worker':
        worker(a[1:])
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a[0] == '--digests':
        digests(a[1:])
        sys.exit(0)
    sys.exit(main(a[0]))
