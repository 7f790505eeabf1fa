"""writes /verif/MANIFEST.json from the properties and the plans"""
import json
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'engine'))
import plans
NA = {}
LN = ('Every path of the encoded functions is decided by an SMT solver for all operand values within the stated sizes and patterns (coverage.bounds in '
      'the evidence file); units that do not finish in time are listed as not decided. Assumes the LLVM IR executor (validated against the compiled code on '
      'concrete witnesses in every run), rustc/LLVM and z3; says nothing about larger operands.')
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py',
         hooks=dict(guard='cfg(babs_verif)', enable="RUSTFLAGS='--cfg babs_verif' (small algorithm cutoffs, so that every algorithm is reached with few digits)",
                    source_commits=['cefef17']),
         checks=[], not_applicable=[])
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in plans.PROPS and i not in NA:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i, thorough_cmd='python3-vt run.py %s --tier thorough' % i,
                                technique='symbolic execution of the compiled LLVM IR with z3 deciding every path and assertion',
                                level='model_checking', level_note=LN))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
