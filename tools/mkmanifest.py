#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TWIN = {'C11': ' Differences are attributed by re-running the history without the observations.',
        'C12': ' Differences are attributed by re-running the history of the one query alone, with copies built anew.',
        'C23': ' Differences are attributed by re-running the history with fresh arguments.'}
checks = []
for p in props:
    i = p['id']
    mc = os.path.exists(os.path.join(here, 'spec', 'MC_%s.tla' % i))
    checks.append({
        'property': i,
        'quick_cmd': 'python3 harness/check.py --prop %s --tier quick' % i,
        'thorough_cmd': 'python3 harness/check.py --prop %s --tier thorough' % i,
        'technique': ('TLA+ specification; TLC checks the property on it exhaustively within small bounds, its behaviours are replayed '
                      'on the real code, and recorded executions of the real code are validated against it' if mc else
                      'TLA+ specification; recorded executions of the real code are validated against it with TLC'),
        'level': 'model_checking',
        'level_note': ('Exhaustive on the specification within the bounds of MC_%s.tla; the real code is bound to it by replaying every '
                       'behaviour TLC finds and by validating random histories (seeded) with Trace.tla. Not a proof for the code: histories '
                       'beyond the bounds are sampled. Trusts TLC, the dialect lexer Lex.tla and the recording harness.%s'
                       % (i, TWIN.get(i, ''))),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 harness/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'See DESIGN.md. No hooks are needed: the library is driven through its public API.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
