#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
import meta
PY = '/opt/venv-pypy/bin/python'
NA = {
    'N01': 'Pure function of one specification string, evaluated at import: no schedule, '
           'time, I/O, fault or history for a simulator to vary. (The words it produces are '
           'exercised indirectly by D03.)',
    'N02': 'Pure conversions of one argument: nothing for a simulator to vary.',
    'N03': 'Pure integer functions of their arguments: nothing for a simulator to vary.',
    'N04': 'Pure function of one value: nothing for a simulator to vary.',
}
NOTE = {
    'P': 'Seeded repetition of the same work, 8 or 40 rounds; not exhaustive.',
    'E': 'Seeded search against an independent reference model; not exhaustive.',
    'F': 'Seeded fault sequences, differential against an undisturbed machine; '
         'faults at backend accesses, interrupts at statement boundaries.',
    'I': 'Seeded interleavings and interrupts at statement granularity; not exhaustive.',
    'M': 'Seeded histories against a byte/register model; not exhaustive.',
    'D': 'Seeded histories against an independent decoder and text model; not exhaustive.',
    'C': 'Seeded console sessions against a model of the documented commands; '
         'interrupts at statement granularity; not exhaustive.',
}
TECH = {
    'P': 'deterministic simulation with fault injection: repeated rounds, statements and reachable data compared',
    'E': 'deterministic simulation with fault injection, refinement against a reference model',
    'F': 'deterministic simulation with fault injection, differential against an undisturbed run',
    'I': 'deterministic simulation with seeded interleavings and interrupts',
    'M': 'deterministic simulation with fault injection against a small model',
    'D': 'deterministic simulation with fault injection against a reference decoder',
    'C': 'deterministic simulation of console sessions with fault injection',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in meta.PROPS:
        checks.append({'property': p, 'quick_cmd': '%s check.py %s' % (PY, p),
                       'thorough_cmd': '%s check.py %s --thorough' % (PY, p),
                       'technique': TECH[p[0]], 'level': 'exploration',
                       'level_note': NOTE[p[0]]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the simulator works on an instrumented scratch copy of '
              'the working tree and on the public seams (CpuModel.delegate, stdin/stdout, '
              'argv, file).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
