#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py"""
import json
from specs import PROPS, NA, BOUNDS
checks = []
for p, s in sorted(PROPS.items()):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': 'symbolic execution of the compiled code (LLVM IR) with SMT (z3), counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': s.get('note') or ('bounded: ' + BOUNDS.get(p, ('see DESIGN.md', ''))[0]),
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 build.py h_sp h_ix h_or',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in PROPS],
}, open('MANIFEST.json', 'w'), indent=1)
