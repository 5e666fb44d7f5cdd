#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and tools/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
try: notes = json.load(open(V + '/tools/notes.json'))
except FileNotFoundError: notes = {}
M = json.load(open(V + '/tools/manifest_base.json'))
M['checks'] = []; M['not_applicable'] = []
for p in props:
    i = p['id']; n = notes.get(i, {})
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())) and not n.get('na'):
        M['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique=n.get('technique', 'bounded model checking (CBMC, SAT) of the real code, translated from its clang LLVM IR; counterexamples replayed on the real build'),
            level=n.get('level', 'other'), level_note=n.get('note', 'Exhaustive over all inputs within the bounds listed per task in the evidence file; nothing is claimed outside them.')))
    else: M['not_applicable'].append(dict(property=i, reason=n.get('na', 'no check built yet')))
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(M['checks']), 'claimed', len(M['not_applicable']), 'not')
