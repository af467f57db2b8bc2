#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that have a check in props/"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('symbolic execution (SMT, Z3) of the LLVM IR of pomelo!-generated parsers over symbolic token sequences and payloads; '
        'counterexamples replayed natively')
NOTE = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           technique=TECH if i not in TECHS else TECHS[i], level='model_checking', level_note=NOTE.get(i, DEFNOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: parsers are compiled from generated harness crates; kernels are compiled from a copy of the generator sources with a harness module appended.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
