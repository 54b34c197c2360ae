#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
DEF_TECH = 'bounded symbolic execution of the clang LLVM IR of the real headers, every assertion and memory access decided by SAT over bit-vectors (MiniSat / Kissat / Z3)'
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [], 'notes': 'Bounds, assumptions and stubs of every check: DESIGN.md and the evidence files.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough', 'technique': c.get('technique', DEF_TECH), 'level': 'model_checking', 'level_note': c['note']})
    else: m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet: harness not written')})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
