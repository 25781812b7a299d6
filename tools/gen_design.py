"""DESIGN.md from design_head.md, the claims, the rule sentences in the modules, seeded bugs and mutants."""
import ast, json, os, sys, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/rules"]
import claims
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fx = "| property | commit | what was wrong |\n|---|---|---|\n"
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, pr, c, r = l.split(None, 3)
        fx += "| %s | %s | %s |\n" % (pr.split("=")[1], c, r.strip().replace("|", "/"))
out = [open(V + "/tools/design_head.md").read().replace("@FIXED@\n", fx + "\n")]
def rules(p):
    f = V + "/rules/%s.py" % p.lower()
    t = ast.parse(open(f).read()); r = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and n.args and isinstance(n.args[0], ast.Constant): r.append((n.lineno, n.args[0].value))
    return [x for _, x in sorted(r)]
muts = {}
for f in sorted(glob.glob(V + "/tools/mutants/*.py")):
    sp = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for x in m.MUTANTS if hasattr(m, "MUTANTS") else m.M:
        for c in x[1].split():
            d = muts.setdefault(c, {"caught": 0, "quiet": 0}); d[x[2]] = d.get(x[2], 0) + 1
out.append("## Properties and how each is decided\n")
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in claims.CLAIMS and os.path.exists(V + "/rules/%s.py" % i.lower()):
        te, note = claims.CLAIMS[i]
        out.append("Method: %s. %s\n" % (te, note.replace(claims.COMMON, "")))
        for r in rules(i): out.append("- " + r)
        d = muts.get(i)
        out.append("\nMutants used to test the rules: %s.\n" % ("%d violating (caught), %d behaviour-preserving (quiet)" % (d["caught"], d["quiet"]) if d else "see the seeded bugs"))
    else: out.append("Not applicable: %s\n" % claims.NOT.get(i, "No static rule has been built for this property yet."))
out.append("## Seeded bugs and the checks that catch them\n\n| bug | property | caught by | needs |\n|---|---|---|---|")
res = {}
rf = V + "/tools/seeded_results.json"
if os.path.exists(rf): res = json.load(open(rf))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], res.get(n, "check " + m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
