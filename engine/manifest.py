#!/opt/veriftools/pyvenv/bin/python3
"""writes MANIFEST.json from props.py (run by hand after editing props.py)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, level_of
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        note = c.get('note') or 'Every obligation generated from the current source is discharged for all real inputs; floating point is treated as real arithmetic.'
        if level_of(c) == 'other': note = 'Bounded: every contract is discharged by the verifier with all numeric values symbolic (floating point treated as real arithmetic), over the stated bounded sizes and topologies; not counted as proved for all sizes.'
        if c.get('bounded'): note += ' Bounded parts: ' + '; '.join(c['bounded'])
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i, evidence_file='evidence/%s.json' % i,
          technique=c.get('technique', 'function contracts on the real code, verification conditions generated from its LLVM IR and discharged by exact polynomial normal forms, z3 and cvc5'),
          level=level_of(c), level_note=note))
m = dict(version=1, setup_cmd='./check --setup', checks=checks,
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')) for i in ids if i not in PROPS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'not applicable')
