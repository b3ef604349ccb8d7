#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
checks = json.load(open('checks.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
na = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    c = checks.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
        continue
    note = "Holds for every value of the symbolic inputs within the bounds; queries not decided in time are reported as inconclusive and reduce the bound. Bounds: " + c["bounds"]
    if c.get("outside"):
        note += " Outside: " + c["outside"]
    if c.get("assumptions"):
        note += " Assumes: " + "; ".join(c["assumptions"])
    note += " Trusted: the SSA translator (completed paths are replayed against the compiled code on every run), go/ssa, z3 and cvc5."
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": "bounded symbolic execution of the go/ssa form of the real code, decided by SMT (z3, cvc5)",
        "level": "model_checking", "level_note": note})
m["notes"] = "Engine in gosym/, harnesses in harness/, bounds in checks.json, known findings in known_findings.json. See DESIGN.md."
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
