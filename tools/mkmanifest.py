#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/index.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'contracts'))
from index import PROPS
checks = []
for p, c in sorted(PROPS.items()):
    th = c['theories']
    ch = dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p)
    if th:
        ch['technique'] = 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run; theories: %s' % ', '.join(th)
        ch['level'] = 'proof'
        ch['level_note'] = ('Every obligation of the listed theories is discharged by Verus/Z3 on the text extracted from the current tree; no bound. '
                            + c.get('note', '') + ' Trusted: the extractor rewriting listed in DESIGN.md, vstd, the axioms listed in DESIGN.md (evidence: trusted_base), Verus, Z3. '
                            'A bounded comparison of the real code with a reference meaning only looks for failing inputs.').replace('  ', ' ')
    else:
        ch['technique'] = 'bounded stand-in: comparison of the real code with an independent reference meaning'
        ch['level'] = 'exploration'
        ch['level_note'] = 'Bounded: random and structured cases within a time limit; contracts for this property are not written yet.'
    checks.append(ch)
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
