#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'sim')); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS: continue
    checks.append(dict(property=i,
        quick_cmd='VERIF_TIER=quick python3 check.py run ' + i,
        thorough_cmd='VERIF_TIER=thorough python3 check.py run ' + i,
        technique='deterministic simulation with fault injection: seeded search over operation histories and fault sequences in one process, judged against an executable reference model',
        level='exploration',
        level_note='Sampling of seeded simulated runs of the real code, each exactly repeatable from its seed and its replay file; ' + PROPS[i].get('note', PROPS[i]['state']) + '. Trusts the reference model, AddressSanitizer for memory errors, and that callbacks keep their documented contract apart from injected faults.'))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'not claimed: no check built for it yet')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3 check.py build', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every seam is an interface the code already has (template callbacks, streams, clock(), operator new). All /repo commits are fix: commits.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
