# every planted bug against the check of its property: tools/mut.py tools/seeded.py
import os, json
D = "/verif/seeded"
M = []
for n in sorted(os.listdir(D)):
    if os.path.exists("%s/%s/patch.diff" % (D, n)):
        M.append((n, os.environ.get("PROPS") or json.load(open("%s/%s/meta.json" % (D, n)))["property"], "caught", "%s/%s/patch.diff" % (D, n)))
