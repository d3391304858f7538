"""Writes MANIFEST.json from the list of claimed and not applicable properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
NOTE = ('seeded search over simulated executions of the real code: schedules, delays, faults, crash points and inputs are '
        'sampled, not enumerated; a quiet run is evidence over what was sampled')
NA = {
 'P19': 'pure arithmetic on its arguments: no schedule, clock, I/O, fault or interleaving for a simulation to control',
 'P20': 'pure functions of mesh size and dimension: nothing nondeterministic to simulate',
 'P21': 'numerical accuracy is a function of the landscape and the tolerances; schedule effects on results are decided under P09, P11 and P14',
 'P22': 'the quality of a reconstructed line is a function of the sampled positions; invariance under order and random draws is decided under P16',
 'P23': 'plots are pure functions of a result object, with no nondeterminism or faults to simulate',
}
TECH = 'deterministic simulation with fault injection: '
checks = []
for pid, what in CLAIMED.items():
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 -m nfsim.check %s --tier quick' % pid,
        'thorough_cmd': 'python3 -m nfsim.check %s --tier thorough' % pid,
        'technique': TECH + what,
        'level': 'exploration',
        'level_note': NOTE,
    })
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in CLAIMED]
json.dump({'version': 1, 'setup_cmd': 'python3 -m nfsim.check --help > /dev/null', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
