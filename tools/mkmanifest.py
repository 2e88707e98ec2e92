"""Writes MANIFEST.json from properties.jsonl and the scenarios that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'

NA = {
    'C18': 'A pure function of one string: no schedule, clock, I/O, fault or '
        'second party for a simulation to control. (Every scenario that runs '
        'receipts through files, CSV, the GUI or the URL tools still uses it.)',
    'C19': 'A pure function of one string: no schedule, clock, I/O, fault or '
        'second party for a simulation to control.',
    'C20': 'A pure function of counter, key and size: no schedule, clock, I/O, '
        'fault or second party for a simulation to control.',
}
TECH = ('deterministic simulation with fault injection: seeded search over %s, '
    'checked against %s')


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    for p in props:
        pid = p['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
            continue
        path = os.path.join(HERE, 'sim', 'scen', pid.lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': pid, 'reason': 'no check built yet'})
            continue
        m = importlib.import_module('sim.scen.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': '%s -m sim.check %s' % (PY, pid),
            'thorough_cmd': 'VERIF_TIER=thorough %s -m sim.check %s' % (PY,
                pid),
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH % (m.SEARCH, m.ORACLE),
            'level': 'exploration',
            'level_note': '%s Stubbed: %s. Assumes: %s.' % (
                m.NOTE, '; '.join(m.STUB),
                '; '.join(m.ASSUME) or 'nothing further'),
        })
    out = {'version': 1,
        'setup_cmd': '%s -m sim.setup' % PY,
        'checks': checks, 'not_applicable': na,
        'notes': 'No hooks in /repo: every seam is an injected object or a '
            'module attribute replaced by the simulator at run time. '
            'Known findings and repaired defects: known_findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    os.environ.setdefault('PYTHONHASHSEED', '0')
    main()
