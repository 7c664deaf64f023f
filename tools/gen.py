import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import catalog as c
ids = [p['id'] for p in c.P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(c.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = []
na = {i for i, _ in c.NA}
for p in sorted(c.P, key=lambda p: p['id']):
    if p['id'] in na:
        continue
    checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                       technique='bounded symbolic execution of the LLVM IR of the current sources; path obligations discharged by SMT (z3, cvc5); counterexamples replayed on the compiled library',
                       level='other',
                       level_note=('Solver-decided for every input in the stated boxes (%s). ' % p['quantifier']['text']) +
                       'Arithmetic is exact-real with explicit tolerances (bounded unrolling and path enumeration); rounding is covered by the tolerances and by replay. ' + p['_note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in c.NA],
         notes='check.sh ID quick|thorough; see DESIGN.md. No hooks are needed in the repository.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
