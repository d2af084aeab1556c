#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered contracts."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('GCU_REPO', '/repo'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from contracts import INDEX
from pydv import rt
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOT_APPLICABLE = []
checks = []
for p in props:
    i = p['id']
    if i not in INDEX:
        continue
    for m in INDEX[i]:
        importlib.import_module('contracts.' + m)
    ds = [d for d in rt.REGISTRY if d.prop == i]
    proofs = [d.name for d in ds if d.sym]
    bnd = [d.name for d in ds if not d.sym]
    if proofs:
        note = ('For all inputs (floats as reals): contracts %s, every obligation generated from the current source and discharged by SMT. '
                % ', '.join(proofs))
        if bnd:
            note += 'Bounded only (run-time contract checking on seeded inputs, not counted as proved): %s.' % ', '.join(bnd)
    else:
        note = 'Bounded only: contracts evaluated at run time on seeded inputs (%s); no obligation is counted as proved.' % ', '.join(bnd)
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contract-based deductive verification (VC generation from the running source, SMT)' if proofs
                       else 'run-time contract checking (bounded stand-in for deductive verification)',
                       level='proof' if proofs else 'exploration', level_note=note + ' Trusted: the VC generator pydv, z3/cvc5. See DESIGN.md.'))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5"', checks=checks,
         not_applicable=NOT_APPLICABLE + [dict(property=p['id'], reason='no check built') for p in props if p['id'] not in INDEX],
         notes='No hooks are needed in /repo. Contracts are in contracts/, the verifier in pydv/.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', sum(c['level'] == 'proof' for c in checks), 'with proofs')
