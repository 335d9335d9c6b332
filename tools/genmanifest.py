#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'default': "Seeded search: every run executes the real proxy code (and its real dependencies errgroup and logrus) under the simulated scheduler, clock, network and file notification; nothing is enumerated exhaustively. Trusts the simulator's model of TCP, of the Go memory model's sequentially consistent interleavings at synchronisation points, and the reference model in the harness.",
}
NA = {
 'C26': "encoding and decoding of values in memory is a pure, single-threaded function of its input: there is no schedule, clock, network, storage or fault for a simulation to decide (what crosses a connection is decided by C01, C02 and C23)",
 'C27': "parsing a connection URI is a pure, single-threaded function of a string (and of nothing else that a simulator could vary); deciding it would be input generation, not simulation",
}
CLAIMED = os.environ.get('CLAIMED', '').split() or None
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
        continue
    if CLAIMED and p not in CLAIMED:
        na.append({'property': p, 'reason': 'its check is still being built'})
        continue
    checks.append({
        'property': p, 'quick_cmd': f'bin/check {p}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {p}',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'deterministic simulation with fault injection (seeded search over schedules, faults and inputs)',
        'level': 'exploration', 'level_note': NOTES.get(p, NOTES['default'])})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: bin/build instruments a scratch copy of /repo\'s working tree (see DESIGN.md), so every check follows the current tree. /repo\'s own commits are fix: commits only (known_findings.txt).'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
