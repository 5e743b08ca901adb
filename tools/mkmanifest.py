#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check for every property which has a harness file."""
import json, os, glob
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {}
if os.path.exists(d + '/tools/not_applicable.json'):
    na = json.load(open(d + '/tools/not_applicable.json'))
notes = {}
if os.path.exists(d + '/tools/level_notes.json'):
    notes = json.load(open(d + '/tools/level_notes.json'))
checks, no = [], []
for l in open(d + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in na:
        no.append({'property': i, 'reason': na[i]})
        continue
    if not glob.glob('%s/harness/%s_*.go' % (d, i.lower())):
        no.append({'property': i, 'reason': 'no harness written yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash tools/check.sh %s -tier quick' % i,
        'thorough_cmd': 'bash tools/check.sh %s -tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the real Go code (SSA) with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': notes.get(i, '') + ' Holds for every value within the bounds listed in the evidence file; trusts the engine\'s model of Go semantics and the environment stand-ins described in DESIGN.md; nothing is claimed outside the bounds.',
    })
    checks[-1]['level_note'] = checks[-1]['level_note'].strip()
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': no}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(no), 'not applicable')
