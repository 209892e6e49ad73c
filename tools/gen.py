#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py and props.py (run by hand when they change)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools']
from props import PROPS  # noqa: E402
from meta import META, NA  # noqa: E402

with open(HERE + '/properties.jsonl', 'w') as f:
    for pid, m in META.items():
        assert len(m['title']) <= 80, pid
        assert m['statement'].count('. ') <= 2, (pid, 'sentences')
        rec = {'id': pid, 'title': m['title'], 'statement': m['statement'],
               'quantifier': {'over': m['over'], 'text': m['quant']},
               'why_tests_cant': m['why'],
               'anchors': {'files': m['files'],
                           'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in m.get('state', [])],
                           'mechanism': [dict(zip(('name', 'where'), s)) for s in m['mech']],
                           'observe_at': m.get('observe', []), 'hook_needed': None}}
        f.write(json.dumps(rec) + '\n')
checks = []
for pid in META:
    if pid not in PROPS:
        assert pid in NA, pid
        continue
    c = PROPS[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid,
                   'thorough_cmd': 'python3 check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': c.get('technique', 'symbolic execution of the LLVM bitcode of the real code, assertions decided by z3'),
                   'level': 'model_checking',
                   'level_note': 'Solver verdict for all values within the bounds: ' + c['bounds'] + ' Trusted: the engine (clang, engine/symx, z3) and: ' + ' '.join(c['assumptions'])})
man = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items() if p not in PROPS],
       'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile /repo unchanged', 'source_commits': []},
       'notes': 'All checks: clang 18 bitcode of the working tree + harness -> engine/symx (own symbolic executor on the LLVM and z3 C++ APIs) -> native replay. See DESIGN.md.'}
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(man['not_applicable']), 'not applicable')
