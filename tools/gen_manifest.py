#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of properties the simulator decides."""
import json, re, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = subprocess.run(['/verif/.build/x86_64-unknown-linux-gnu/debug/bellsim-gen', 'list'], capture_output=True, text=True).stdout.split()
NA = {
 'C30': 'Pure function of its two arguments (pattern, row): no schedule, fault, clock, I/O, callback, hash seed or history for a simulator to control, so simulation would be plain input sampling.',
 'C31': 'Pure function of the rows of one lead; nothing nondeterministic to put behind a seam.',
 'C32': 'Algebraic laws of pure functions on rows; no nondeterminism, fault or history takes part (C11-C17 use these operations inside histories, against models).',
 'C33': 'Fixed tables of names; pure and context-free (storage and damage of bells and stages is C21).',
 'C34': 'Pure function of the notation text; no history, schedule or fault takes part in computing the range.',
}
TECH = {}
for c in ['C01','C02','C03','C04','C05','C06']:
    TECH[c] = 'deterministic simulation with fault injection: several processes and threads x page cache x disk x network x crashes behind libc symbols, seeded search, history checks against the published editions'
TECH['C07'] = 'deterministic simulation: save/load generations in processes with different hash seeds on a faulty disk, seeded search, comparison with the library model'
TECH['C08'] = 'deterministic simulation: pre-empted threads and varying hash seeds over shared libraries, seeded search against an edit-distance model'
TECH['C09'] = 'deterministic simulation: pre-empted threads and varying hash seeds over shared libraries, seeded search against the document model'
TECH['C10'] = 'deterministic simulation: seeded thread schedules with pre-emption at basic blocks, allocations and futexes, results compared with a sequential run'
TECH['C22'] = 'deterministic simulation with fault injection: collection writers, generator processes and clients on a faulty disk with crashes, torn files, refused output and pre-empted threads, seeded search, comparison with the library model'
DEF = 'deterministic simulation: seeded operation histories with injected caller faults (panicking, lying and failing iterators, closures, clones, sinks and streams), refinement against a small reference model'
LEVEL = 'Seeded search over simulated executions: no violation in the runs made (numbers in the evidence file), each repeatable from its seed. Trusts the simulated environment and the reference model in /verif/sim; not exhaustive.'
checks = [dict(property=p['id'],
               quick_cmd=f"./check.sh {p['id']} --tier quick",
               thorough_cmd=f"./check.sh {p['id']} --tier thorough",
               technique=TECH.get(p['id'], DEF), level='exploration', level_note=LEVEL)
          for p in props if p['id'] in have]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'No check has been built yet.')) for p in props if p['id'] not in have]
m = dict(version=1, setup_cmd='./check.sh build && { ./check.sh build C22 || true; }', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: every seam is at the libc symbols, the allocator, a patched reqwest and the public API. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
