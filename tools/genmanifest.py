"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
TECH = 'contract-based deductive verification: weakest-precondition style obligations generated from the LLVM IR of the real code under C++ contracts, discharged by SMT (z3, cvc5)'
LEVEL_NOTE = ('Every obligation (contract postconditions, memory safety, object lifetimes, integer overflow, loop invariants, termination) generated from the current headers is discharged for all inputs. '
              'Trusts the VC generator, the clang front end, the SMT solvers, the sequential stand-ins for camp/RAJA and a flat model of the element type; floating point is treated as real arithmetic. ')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=TECH, level='proof', level_note=LEVEL_NOTE + props.PROPS[i].get('note', '')))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'not claimed: its contracts are not finished')))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q irver check.py props.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
