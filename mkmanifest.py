#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
na = {
 'C19': 'a pure function of the template and its data: no schedule, clock, fault or history in it (the generated programs in the other checks exercise it only incidentally)',
 'C20': 'a pure function of the input bytes: parsing and compiling touch no concurrency, time, I/O or other party',
 'C21': 'a pure function of the template, its data and one option: nothing for a simulator to schedule or to fault',
 'C22': 'a pure function of the type definitions and tags given at definition time',
 'C23': 'the built-in functions are pure functions of their arguments (reader input and clock readings are C11 and C12)',
}
common = ('Seeded random sampling of schedules, faults and generated programs against an executable reference model; the real '
          'code runs instrumented from the working tree, one goroutine at a time under a simulated scheduler. No violation found '
          'is evidence for the runs explored, not proof. Trusts the generator and reference model, and the Go compiler and runtime. ')
note = json.load(open(os.path.join(here, 'levelnotes.json')))
checks = []
for p in props:
    i = p['id']
    if i in na:
        continue
    if i not in note:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s quick' % i,
        'thorough_cmd': 'bash check.sh %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: ' + note[i][0],
        'level': 'exploration',
        'level_note': common + note[i][1],
    })
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'checks': checks,
 'not_applicable': [{'property': p['id'], 'reason': na.get(p['id'], 'check not built yet')} for p in props if p['id'] in na or p['id'] not in note],
 'notes': 'No hooks in /repo: yield points and simulated synchronisation are put in by a source overlay generated at build time (go build -overlay), so the shipped code is unchanged. known-findings.txt lists repaired defects.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
