"""Writes MANIFEST.json from the list of checks present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NOT = {}
TECH = {
    'C09': 'differential runtime monitoring of the real extension across thread counts',
    'C10': 'ThreadSanitizer build of the real extension under multi-threaded workloads',
    'C11': 'AddressSanitizer + UndefinedBehaviorSanitizer build under hostile workloads',
    'C12': 'AddressSanitizer + UndefinedBehaviorSanitizer build under hostile workloads',
}
TECH['C31'] = 'runtime monitoring: snapshots of every argument and object around random, refused and repeated calls of the real extension'
TECH['C32'] = 'runtime monitoring: reference, allocation and thread accounting around repeated calls of the real extension'
DEFAULT = 'runtime monitoring: randomised hostile workload on the real extension, independent online oracle'
checks = []
for p in props:
    if p['id'] in NOT or not os.path.exists(f"{V}/checks/{p['id'].lower()}.py"):
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"python3 lib/run.py {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough python3 lib/run.py {p['id']}",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': TECH.get(p['id'], DEFAULT),
        'level': 'exploration',
        'level_note': 'Held on the executions observed (counts in the evidence file); says nothing about inputs that '
        'were not generated. Trusts the oracle in checks/' + p['id'].lower() + '.py, numpy/scipy, the compiler and the '
        'adapted pybind11 headers (lib/overlay.py).',
    })
out = {
    'version': 1,
    'setup_cmd': 'python3 lib/run.py --setup',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOT.items()] +
    [{'property': p['id'], 'reason': 'no check built yet'} for p in props
     if p['id'] not in NOT and not os.path.exists(f"{V}/checks/{p['id'].lower()}.py")],
    'notes': 'No hooks in /repo are needed: every property is observed at the Python API of the extension, which the '
    'checks build from /repo (lib/build.py).',
}
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(out, f, indent=1)
print(len(checks), 'checks')
