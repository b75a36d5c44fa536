#!/usr/bin/env python3
"""Write /verif/MANIFEST.json. A property is claimed when the harness has a check for it."""
import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = set(re.findall(r'id: "(C\d\d)"', open('/verif/sim/src/props.rs').read()))
NA = {
 'C30': 'Turning a condition into SQL is a pure function of its input: no schedule, clock, I/O or fault takes part. (Grouping mistakes still surface in C04, whose random queries are evaluated against a model.)',
 'C31': 'Value conversion is a pure function; nothing for a simulator to schedule or fail. (Stored values are compared field by field in C04.)',
 'C32': 'Schema difference is a pure function of two schemas. (C07-C09 run its results.)',
 'C33': 'Code generation runs at compile time as a pure function of the source; no concurrency, time or I/O decides its result. (The files it writes are C11 and C12.)',
}
NOTE = {
 'C17': 'The server is a real PostgreSQL in lock step with the simulated network; concurrency between server sessions is not explored.',
 'C21': 'The server is a real PostgreSQL in lock step with the simulated network; concurrency between server sessions is not explored.',
}
LEVEL = 'Sampled, not exhaustive: many seeded runs, each exactly repeatable; a clean run is evidence, not proof. Trusts the simulated environment and the reference model.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i}",
            "technique": "deterministic simulation with fault injection, seeded search",
            "level": "exploration",
            "level_note": (LEVEL + ' ' + NOTE.get(i, '')).strip(),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, 'No check built yet.')})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print('claimed', [c['property'] for c in checks], 'not', [n['property'] for n in na])
