"""setup_cmd: nothing has to be built; proves that the real library can be
imported, the fixtures are readable and one simulated run is repeatable."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'sim.setup'])

from . import check  # noqa: E402


def main():
    scn = check.scenario('C03')
    for i in range(5):
        plan = check.gen_plan(scn, 'C03', 'quick', '1', i)
        a = check.run_one(scn, plan, [])[0].digest()
        b = check.run_one(scn, plan, [])[0].digest()
        if a != b:
            print('run %d is not repeatable' % i)
            return 1
    print('simulator ready')
    return 0


sys.exit(main())
