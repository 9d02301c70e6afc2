#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS, NOTAPP
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='./check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
    technique=PROPS[i].get('technique', 'abstract interpretation of the LLVM IR'), level='other', level_note=PROPS[i].get('note', 'Decided on the source of every run for all inputs, schedules and user code within the stated contracts; a rule that cannot be decided is an error, not a pass. Trusts clang, the interpreter in tool/ and the contracts of DESIGN.md.')) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOTAPP.get(i, 'not claimed yet: its analysis is still being built')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='make -s -j8 -C tool', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
