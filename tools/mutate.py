"""Mutation testing of the checks themselves: small changes of the code under
test, each tried against the scenarios anchored in its file. For development;
no check uses it.

  mutate.py list FILE...             number and describe the changes
  mutate.py run OUT FILE[:LINE]...   try them, write one line per change to OUT
"""
import ast
import copy
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PROPS = {
    'librksv/verify.py': 'C03 C02 C01 C05 C04 C13 C15 C08 C17 C16',
    'librksv/verification_state.py': 'C14 C03 C16 C04 C06 C08 C05 C01 C13',
    'librksv/receipt.py': 'C03 C08 C10 C12 C11 C02 C14',
    'librksv/verify_receipt.py': 'C12 C03 C02 C15 C01 C13 C08',
    'librksv/depparser.py': 'C07 C08 C09 C10 C05 C01 C03 C13',
    'librksv/depexport.py': 'C09 C10 C15',
    'librksv/cashreg.py': 'C11 C15', 'librksv/sigsys.py': 'C11 C15',
    'librksv/key_store.py': 'C02 C08 C06 C05 C03 C13',
    'librksv/utils.py': 'C03 C08 C06 C02 C10 C11 C07 C05 C12 C13 C17',
    'librksv/algorithms.py': 'C11 C03 C08 C02 C12 C15',
    'librksv/url_receipt_helpers.py': 'C12 C10 C14 C13',
    'rktool.py': 'C13', 'verify.py': 'C05 C06 C04 C01 C03',
    'verification_state.py': 'C06 C14 C04', 'key_store.py': 'C06 C02',
    'convert.py': 'C10', 'cert_extract.py': 'C10', 'receipt.py': 'C10',
    'split.py': 'C09', 'merge.py': 'C09', 'receipt_host.py': 'C12',
    'run_test.py': 'C21', 'librksv/run_test.py': 'C21', 'demo.py': 'C21',
    'verify_receipt.py': 'C12', 'img_decode.py': 'C13',
}
FLIP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
    ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
    ast.Div: ast.Mult}


def sites(tree):
    """Yields (node, description, function that changes the node in place)."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and (n.name.endswith('I') or
                n.name.endswith('Exception')):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('_', 'print', 'usage', 'displayError'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def f(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield n, 'negate', f
            if not isinstance(n, ast.While):
                def f(m):
                    m.test = ast.Constant(True)
                yield n, 'always', f
            def f(m):
                m.test = ast.Constant(False)
            yield n, 'never', f
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield n, 'and/or', f
            for i in range(len(n.values)):
                def f(m, i=i):
                    del m.values[i]
                yield n, 'drop operand %d' % i, f
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in FLIP and t not in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
                def f(m, t=t):
                    m.ops[0] = FLIP[t]()
                yield n, 'compare', f
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in ARITH:
            if not (isinstance(n, ast.BinOp) and any(isinstance(x,
                    ast.Constant) and isinstance(x.value, (str, bytes))
                    for x in (n.left, n.right))):
                def f(m):
                    m.op = ARITH[type(m.op)]()
                yield n, 'arithmetic', f
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                def f(m):
                    m.value = not m.value
                yield n, 'bool', f
            elif isinstance(n.value, int):
                for d in (1, -1):
                    def f(m, d=d):
                        m.value += d
                    yield n, 'const %+d' % d, f
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                def f(m, i=i):
                    del m.type.elts[i]
                yield n, 'except without %s' % ast.unparse(n.type.elts[i]), f
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            def f(m):
                m.type = ast.Name('Exception', ast.Load())
            yield n, 'except all', f
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value,
                        ast.Constant):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                        ast.Raise, ast.Continue, ast.Break, ast.Return,
                        ast.Delete)):
                    def f(m, field=field, i=i):
                        getattr(m, field)[i] = ast.Pass()
                    yield s, 'delete', (n, f)
                if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) \
                        and isinstance(b[i + 1], (ast.Expr, ast.Assign)):
                    def f(m, field=field, i=i):
                        x = getattr(m, field)
                        x[i], x[i + 1] = x[i + 1], x[i]
                    yield s, 'swap with next', (n, f)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    for i, n in enumerate(ast.walk(tree)):
        n.num = i
    out, seen = [], {ast.unparse(tree)}
    for n, what, f in sites(tree):
        host = n
        if isinstance(f, tuple):
            host, f = f
        t = copy.deepcopy(tree)
        m = next(x for x in ast.walk(t) if x.num == host.num)
        try:
            f(m)
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, path, 'exec')
        except Exception:
            continue
        if new in seen:
            continue
        seen.add(new)
        out.append((getattr(n, 'lineno', 0), what, ast.unparse(n).split(
            '\n')[0][:90], new))
    return out


def attempt(props, secs):
    """In a process of its own with RKSV_REPO set: does any run report a
    violation?"""
    sys.path.insert(0, VERIF)
    from sim import check, core
    log = []
    for prop in props:
        try:
            scn = check.scenario(prop)
        except Exception as e:
            print('KILLED %s import %r' % (prop, e))
            return
        known = [f['id'] for f in check.open_findings(prop)]
        for name, plan in getattr(scn, 'HISTORIES', []):
            o = check.forked(scn, [plan], known)
            if not o or o.get('kind'):
                print('KILLED %s history %s %s' % (prop, name, (o or {}).get(
                    'kind')))
                return
        t0, i = time.time(), 0
        while time.time() - t0 < secs:
            try:
                plan = check.gen_plan(scn, prop, 'quick', 'mut', i)
                ctx, v = check.run_one(scn, plan, known)
            except core.InvalidPlan:
                i += 1
                continue
            except BaseException as e:
                log.append('%s run %d harness %r' % (prop, i, e))
                break
            if v is not None:
                print('KILLED %s run %d %s' % (prop, i, v.kind))
                return
            i += 1
    print('SURVIVED ' + ' '.join(log))


def job(a):
    n, path, line, what, old, new, props, secs = a
    d = os.environ.get('MUT_DIR', '/tmp/mut') + '/w%d' % (multiprocessing.current_process()._identity[0])
    if not os.path.exists(d):
        shutil.copytree(REPO, d, symlinks=True)
    f = os.path.join(d, path)
    open(f, 'w').write(new)
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'try',
            ','.join(props), str(secs)], cwd=VERIF, env=dict(os.environ,
            RKSV_REPO=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'),
            capture_output=True, text=True, timeout=60 + len(props) * secs * 3)
        o = [x for x in r.stdout.splitlines() if x[:6] in ('KILLED', 'SURVIV')]
        res = o[-1] if o else 'ERROR %s' % r.stderr[-300:].replace('\n', '|')
    except subprocess.TimeoutExpired:
        res = 'KILLED timeout'
    shutil.copy(os.path.join(REPO, path), f)
    return '%s:%d [%d] %s: %s => %s' % (path, line, n, what, old, res)


def main():
    if sys.argv[1] == 'try':
        return attempt(sys.argv[2].split(','), float(sys.argv[3]))
    if sys.argv[1] == 'list':
        for p in sys.argv[2:]:
            ms = mutants(p)
            print(p, len(ms))
            for i, (l, w, o, _) in enumerate(ms):
                print('  %d line %d %s: %s' % (i, l, w, o))
        return
    secs = float(os.environ.get('MUT_SECS', '5'))
    jobs = []
    for p in sys.argv[3:]:
        p, _, nums = p.partition('#')
        nums = set(map(int, nums.split(','))) if nums else None
        for i, (l, w, o, new) in enumerate(mutants(p)):
            if nums is None or i in nums:
                jobs.append((i, p, l, w, o, new, os.environ.get('MUT_PROPS',
                    PROPS[p]).split(), secs))
    print(len(jobs), 'changes')
    with multiprocessing.Pool(int(os.environ.get('MUT_WORKERS', '8'))) as pool, \
            open(sys.argv[2], 'a') as out:
        for r in pool.imap_unordered(job, jobs):
            out.write(r + '\n')
            out.flush()


main()
