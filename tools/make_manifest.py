#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has explorations in spec/runs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/spec')
import runs as R
NOTES = getattr(R, 'NOTES', {})
NA = getattr(R, 'NA', {})
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in R.P and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 run_check.py %s quick' % i, thorough_cmd='python3 run_check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique='explicit-state model checking of the compiled library on a simulated adversarial MPI',
            level='model_checking', level_note=NOTES.get(i, '') + (' ' if i in NOTES else '') + 'Exhaustive within the stated bounds (see DESIGN.md and the evidence file); trusts the simulated MPI.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 mc/build.py base', hooks=dict(guard='none', enable='no hooks: the library is compiled unmodified against mc/mpi.h', source_commits=[]),
         checks=checks, not_applicable=na, notes='See DESIGN.md. fix: commits in /repo repair genuine defects, listed in known_findings.json.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
