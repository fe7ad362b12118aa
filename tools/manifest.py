#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/profiles.json, properties.jsonl and the list below."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prof = json.load(open(H + '/tools/profiles.json'))
PURE = {
 'C26': 'A pure function of two identifiers and two keys: no time, schedule, I/O or fault for it to depend on. (Peers that verify each other in the simulation do not exercise it.)',
 'C27': 'Pure functions over a decoded group change; the calling code paths do not enforce them, so no schedule or fault can matter.',
 'C28': 'A pure function of key, message and random bytes; nothing for a simulator to schedule or to make fail.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in prof:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
            technique='deterministic simulation with fault injection: seeded search over schedules, inputs and faults, with oracles over the run and its history',
            level=prof[i]['level'], level_note=prof[i]['note'] + ' Search, not proof: seeds not run may differ. Trusts the simulated service, peers, disk, network and scheduler described in DESIGN.md.'))
    else:
        na.append(dict(property=i, reason=PURE.get(i, 'No check yet.')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
  hooks=dict(guard='none: no hooks in /repo', enable='the checks instrument a copy of the working tree (instr/) and replace os, net, net/http, time, sync, crypto/rand, os/exec and go statements by the simulator; /repo itself has no hooks', source_commits=[]),
  notes='One profile per property in sim/h/prof_*.go; one executable repetition of a run is one list of choices. See DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
