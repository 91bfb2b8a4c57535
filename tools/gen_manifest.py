"""Writes /verif/MANIFEST.json from engine/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
NA = {
    'C31': 'liveness under a fair operating-system scheduler: partial-correctness contracts cannot state that something eventually happens; the safety halves (no lost wake-up, no task dropped or stranded, every wait is matched by a post) are C08, C11, C13, C14',
    'C32': 'the Windows back ends need windows.h, which is not present here, so no verifier in this sandbox can be given their real code',
}
TECH = 'contract-based deductive verification of the real headers (LLVM IR, symbolic execution with contracts, inferred inductive invariants, rely/guarantee, z3)'
GEN = ('Every obligation generated from the current headers is discharged for all inputs, interleavings (rely/guarantee) and iterations; '
       'the verifier (engine/), clang\'s translation to LLVM IR and z3 are trusted, exceptions (bad_alloc) are not modelled, atomics are sequentially consistent cells with the memory orders checked as obligations')
checks = []
for p in ids:
    if p not in PROPS:
        continue
    c = PROPS[p]
    note = c.get('note', GEN)
    if c.get('assumptions'):
        note += '; assumes: ' + '; '.join(c['assumptions'])
    if c.get('trusted'):
        note += '; assumed contracts: ' + '; '.join(c['trusted'])
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py ' + p,
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': TECH, 'level': c.get('level', 'proof'), 'level_note': note})
na = [{'property': p, 'reason': NA.get(p, 'not yet brought under contract')} for p in ids if p not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++ --version > /dev/null', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the contracts are attached from outside, the verified text is the headers in /repo/include as clang reads them.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, '..', 'MANIFEST.json'), 'a').write('\n')
