"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ('A function of its arguments only: no time, concurrency, I/O, crash or history for a simulator to vary; '
        'input generation alone would be property-based testing, not simulation.')
NOTES = {
    'C01': 'Seeded histories of real runs logged and read back.',
    'C02': 'Seeded crash points, disk errors, torn writes and interleavings of up to three logging processes.',
}
COMMON = ('Seeded search: deterministic simulation of the real code on a scratch file system; every run is repeatable '
          'from its seed and every alarm is re-run, minimised and confirmed before it is reported. No claim about '
          'histories, schedules or fault placements not drawn. Trusts the simulator and the reference model of the '
          'check; a crash is a process kill (completed system calls are durable).')
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/sim/props/%s.py' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 sim/main.py check %s --tier quick' % i,
                       'thorough_cmd': 'python3 sim/main.py check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with seeded schedules and fault injection, checked '
                                    'against a reference model', 'level': 'exploration', 'level_note': COMMON})
    elif i >= 'C20':
        na.append({'property': i, 'reason': PURE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: all nondeterminism is put behind seams by the simulator from outside.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
