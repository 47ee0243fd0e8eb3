#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; a property is claimed when it has an entry in T"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
EN = "exhaustive enumeration of bounded boards/layouts on the real code against a reference model"
BFS = "explicit-state breadth-first search of the reference protocol, every path replayed on the real code"
T = {}
exec(open(V + '/tools/claims.py').read())
NA = {}
exec(open(V + '/tools/not_applicable.py').read())
checks = []
na = []
for p in props:
    i = p['id']
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": "model checking: " + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "vp_mc", "enable": "RUSTFLAGS --cfg vp_mc, set in /verif/harness/.cargo/config.toml; each check rebuilds /repo/base through a path dependency", "source_commits": HOOKS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
