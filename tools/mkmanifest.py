#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses present and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())   # NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i + '.cpp')) and i not in NA:
        checks.append({
            'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': NOTES.get(i, {}).get('technique', TECH),
            'level': NOTES.get(i, {}).get('level', 'proof'),
            'level_note': (NOTES.get(i, {}).get('note', '') + ' ' + COMMON).strip()})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile engine/check.py && true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in harness/*.cpp and are checked against the LLVM IR of the current sources.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
