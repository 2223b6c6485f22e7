"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = {l.split()[0]: l.split(None, 2)[1:] for l in open(os.path.join(HERE, "tools", "claims.txt")) if l.strip() and not l.startswith("#")}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIM:
        level, note = CLAIM[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "technique": "contract-based deductive verification: obligations generated from the current Python source, discharged by z3/cvc5; "
                                    "bounded witness search beside it replays failing inputs",
                       "level": level, "level_note": note.strip()})
na = [{"property": p, "reason": "no contract built for it yet"} for p in props if p not in CLAIM]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
