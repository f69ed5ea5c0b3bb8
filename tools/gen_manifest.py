#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
NA = dict(specs.NOT_APPLICABLE)
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p in specs.SPECS:
        s = specs.SPECS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
            evidence_file='evidence/%s.json' % p, technique='bounded symbolic execution of LLVM IR compiled from the current source, every branch/assertion/memory access decided by an SMT solver (z3); counterexamples replayed natively under ASan',
            level='model_checking', level_note=s.get('note') or 'Exhaustive over all values within: ' + s.get('bounds', '')))
    else: NA.setdefault(p, 'check not built yet')
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in specs.SPECS],
         notes='See DESIGN.md. No hooks are needed in /repo; fix: commits repair defects the checks found.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', len(m['not_applicable']), 'na')
