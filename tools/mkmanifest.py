"""writes /verif/MANIFEST.json from specs/props.py and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif')
from specs.props import P, NA
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in P:
        c = P[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': 'contract-based deductive verification of the real C++ sources (VC generation from the clang AST, z3/cvc5)' + (', with executable contracts replayed on the real code' if c['harness'] else '')
                       if c['units'] else 'executable contracts checked on the real code (bounded stand-in; functions beyond the verifier)',
                       'level': c['level'], 'level_note': c['note'] or 'All listed functions verified for all inputs against their contracts; trusted base and assumptions are in the evidence file. Executable contracts (bounded) replay on the real code.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'/verif\'); import z3, cdv.stl"', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in /repo; the verifier reads the sources as they are.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
