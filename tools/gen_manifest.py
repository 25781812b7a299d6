"""MANIFEST.json from the rule modules present in /verif/rules."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/rules"]
import claims
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in claims.CLAIMS and os.path.exists(V + "/rules/%s.py" % p.lower()):
        tech, note = claims.CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --tier thorough" % p, "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": claims.NOT.get(p, "No static rule has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 engine/build.py a b && python3 engine/build.py --only-driver", "checks": checks, "not_applicable": na,
     "notes": "All checks read the type-checked MIR of /repo's current tree, dumped by /verif/driver (a rustc driver run under cargo check), and decide by abstract interpretation and call-graph/typestate rules in /verif/rules. Nothing of hyper is executed. Findings: known-findings.txt."}
m["setup_cmd"] = "python3 engine/build.py a b"
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
