#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NOTE = json.load(open(H + '/tools/claims.json'))
checks = []
for p in props:
    if p in NOTE['claims']:
        checks.append(dict(property=p, quick_cmd='python3-vt run.py %s quick' % p,
                           thorough_cmd='VERIF_TIER=thorough python3-vt run.py %s thorough' % p,
                           technique='contract-based deductive verification of the real code (contracts over the '
                                     'clang AST of the current tree, obligations discharged by z3/cvc5)',
                           level=NOTE['claims'][p].get('level', 'proof'), level_note=NOTE['claims'][p]['note']))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q vf harness run.py', checks=checks,
         not_applicable=[dict(property=p, reason=NOTE['na'].get(p, 'contracts not written yet'))
                         for p in props if p not in NOTE['claims']],
         hooks=dict(guard='none', enable='no hooks: the checks read and compile the unmodified sources',
                    source_commits=[]))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(m['not_applicable']), 'not')
