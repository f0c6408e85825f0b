#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
NA = {
 'C02': 'which saved quantities one dirty mark stands for, and in which order they are requested, is a protocol of the reading side that a summary of single functions does not bound; that a changed input raises the mark of everything computed from it is decided by C01',
 'C20': 'the place of a saved value is a string assembled at run time from counters and names along the call path, so that pairing saves with restores needs values of strings and loop counters that no static argument in reach bounds',
 'C22': 'base and derivative parts are computed in shared work arrays at addresses depending on counts, which a flow analysis of the objects in reach merges: it reports flows that do not exist, so no sound and quiet check could be built',
 'C23': 'that a quantity is used correctly everywhere it matters needs the values; the part that is data flow (outputs written, inputs read for each solver and source) is decided by C16 and C07',
 'C30': 'quantifies over floating-point results of whole simulations; no static argument in reach bounds them',
 'C31': 'numerical agreement of different algorithms; not decidable from the source by static analysis',
 'C32': 'numerical identity between hand-written linearized code and derivatives of the base code; only its data-flow part is decided (C22, C23)',
 'C33': 'numerical identity of adjoint and tangent-linear code; only its structural part is decided (C20)',
 'C34': 'numerical symmetry of results; no static argument in reach',
 'C35': 'numerical accuracy of quadrature and expansions; no static argument in reach',
}
exec(open(os.path.join(HERE, 'tools', 'techniques.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')) and p in TECH:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'technique': TECH[p], 'level': 'other', 'level_note': NOTE[p]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks compile the current tree of /repo to LLVM IR with clang and analyse it; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
