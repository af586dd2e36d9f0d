#!/usr/bin/env python3
"""Rewrites MANIFEST.json from govc/vc/config.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'govc'))
from vc.config import PROPS, NOTE, ASSUME
checks = []
for p, c in sorted(PROPS.items()):
    proved, bounded = NOTE[p]
    tech = ('contract-based deductive verification: go/ssa symbolic execution against contracts, obligations discharged by z3/cvc5'
            if c['suites'] else 'bounded stand-in for contracts not yet discharged: model-based exploration of the real code')
    if c['suites'] and c['level'] != 'proof':
        tech += '; bounded model-based stand-in for the part not proved'
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p,
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
                   'technique': tech, 'level': c['level'],
                   'level_note': 'Proved: %s. Bounded only: %s. Assumes: %s.' % (proved, bounded, '; '.join(ASSUME(p)))})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: contracts live in /verif/contracts, harnesses are laid over with go test -overlay.'},
          open('MANIFEST.json', 'w'), indent=1)
