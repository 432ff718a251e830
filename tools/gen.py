#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = {k for k, _ in props.NA}
checks = [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} --tier quick", 'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
  'technique': 'symbolic execution of the LLVM IR of the real code, decided by an SMT solver (z3)', 'level': 'model_checking',
  'level_note': 'Bounded: every path of the harnesses over the stated symbolic inputs (' + p['bounds'] + '). Counterexamples are replayed on the ASan-compiled real code before they are reported; sampled path models are replayed too. Trusted: clang -O1 code generation, z3, the engine, and the library models in engine/stubs (streams, files, threads run sequentially, hashing, chrono).'} for p in props.P if p['id'] not in na]
json.dump({'version': 1, 'setup_cmd': 'make -s -C engine -j8', 'checks': checks, 'not_applicable': [{'property': k, 'reason': r} for k, r in props.NA], 'notes': 'See DESIGN.md. Findings and repairs: known_findings.json.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
