"""writes MANIFEST.json from the table below"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
DED = 'contract-based deductive verification of the real code (LLVM IR of /repo, weakest-precondition style symbolic execution against contracts, Z3/cvc5)'
T = {}
def claim(pid, level, tech, note):
    T[pid] = dict(property=pid, quick_cmd='python3-vt /verif/check.py %s --tier quick' % pid, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % pid,
                  technique=tech, level=level, level_note=note)
exec(open('claims.py').read())
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in T]
m = dict(version=1, setup_cmd='python3-vt /verif/setup.py', checks=[T[p] for p in props if p in T], not_applicable=na,
         notes='Functions under contract, obligations, back ends and assumptions of each run are in evidence/<id>.json; DESIGN.md explains the method.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
