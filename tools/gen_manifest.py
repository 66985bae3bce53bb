#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/not_applicable.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(root + '/tools/not_applicable.json'))
out = {p['property'] for p in na}
NOTES = json.load(open(root + '/tools/level_notes.json'))
checks = []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    if p['id'] in out: continue
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, edit histories, disk faults and crash points, checked against a reference model',
        'level': 'exploration',
        'level_note': NOTES[i] + ' ' + NOTES['all'],
    })
m = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the seam is the serdo crate (the undo store klavier-core is built on), replaced by vendor/serdo, which is serdo 0.1.7 with its channels, threads, clock, files and SQLite VFS going to the simulator (vendor/serdo/SIM-CHANGES.diff). Known findings: known_findings.txt.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')
