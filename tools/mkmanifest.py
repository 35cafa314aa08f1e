"""MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'Unbounded deductive proof over the LLVM IR compiled from /repo at every run; trusts the clang front end, the IR executor and loop rule in frv/, z3/cvc5 and the assumed contracts (models) of the standard library and system calls listed in the evidence. '
MON = 'A native monitor of the same property (real code, sanitizers, oracle) supplies failing inputs and is the bounded stand-in for any function listed under bounded_instead_of_proved.'
CL = json.load(open(os.path.join(V, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C26': 'Freedom from data races quantifies over thread schedules; function contracts verified one call at a time on sequential semantics cannot express it, and no concurrent deductive verifier for C++ is installed here.',
      'C27': 'A liveness property over real time and scheduling (that a blocked call returns); contracts over terminating executions state partial correctness only, and the blocking happens inside the system call, outside the code.'}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in CL:
        c = CL[i]
        m['checks'].append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}', evidence_file=f'evidence/{i}.json',
          technique=c.get('technique', 'contract-based deductive verification of the compiled code (contracts, inferred loop invariants, z3/cvc5)'), level=c.get('level', 'proof'), level_note=(BASE if c.get('level', 'proof') == 'proof' else '') + c['note'] + ' ' + MON))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'No contract built yet.')))
m['notes'] = 'No hooks are needed in /repo. See DESIGN.md.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
