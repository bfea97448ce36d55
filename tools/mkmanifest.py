"""writes MANIFEST.json from the property modules (run by hand when claims change)"""
import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    m = importlib.import_module('props.' + i)
    proved = bool(m.PROOFS) or hasattr(m, 'static')
    tech = getattr(m, 'TECHNIQUE', None) or ('contracts on the real functions, VCs generated from the source by pyvc and discharged by z3/cvc5; same contracts evaluated on the real code with generated inputs' if proved
        else 'function contracts evaluated on the real code with generated inputs (bounded stand-in, not a proof)')
    note = getattr(m, 'NOTE', None) or ('unbounded proof over exact reals; trusts the pyvc engine and its numpy contracts; bounded contract evaluation finds failing inputs' if proved else 'bounded: seeded random contract evaluation on the real code, stated budget; not counted as proved')
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, technique=tech, level=m.LEVEL, level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
   notes='Source hooks: none. Proofs are regenerated from /repo source on every run; see DESIGN.md.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
