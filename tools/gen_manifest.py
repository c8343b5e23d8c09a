#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks

PURE = 'exhaustive explicit-state enumeration of inputs and operation histories on the real code against a reference model'
SCHED = 'stateless model checking of the real code: exhaustive exploration of schedules and MPI behaviours under a controlled scheduler within a deviation bound, with happens-before race detection'
NOTE_PURE = 'Exhaustive within the stated bounds on the real code compiled from /repo; values outside the bounds are not covered. Trusted: the reference model in the harness, the in-process MPI/Umpire stand-ins where used.'
NOTE_SCHED = ('Every execution within the bounds (shapes, grids, base schedules, completion modes, number of deviations) is run on the real code compiled from /repo; '
              'the race detector extends each race-free execution to all schedules with the same happens-before order. '
              'Trusted: the in-process replacements of pika, MPI and Umpire in rt/ (bound to the originals by the conformance runs described in DESIGN.md) and the numerical reference in the harness.')
NA = {
    'P38': 'No GPU, CUDA or HIP is present: GPU code cannot be compiled or executed here, and a hand-written model of it could not be bound to the code.',
}

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='Checks build from /repo\'s working tree into /verif/build (content-addressed cache, safe to delete). See DESIGN.md. Genuine defects found: known_findings.txt.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        pure = checks.CHECKS[i].flags is checks.PURE
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s quick' % i, thorough_cmd='python3 checks/run.py %s thorough' % i,
                                technique=PURE if pure else SCHED, level='model_checking', level_note=NOTE_PURE if pure else NOTE_SCHED))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'No check yet: under construction.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
