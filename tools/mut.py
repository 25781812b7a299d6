#!/usr/bin/env python3
"""Try source edits against the checks, in scratch copies.

tools/mut.py FILE [substr]   run every mutant of FILE (python: M = [(name, "C05 C06", "caught"|"quiet", [(file, old, new), ...])])
"""
import sys, os, subprocess, shutil, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(os.environ.get("MUTN", "6"))
def setup(i):
    d = "/tmp/mw%d" % i
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/build"):
        os.makedirs(d + "/build")
        for x in ("drv", "ta", "tb"):
            if os.path.exists(V + "/.build/" + x): subprocess.run(["cp", "-a", V + "/.build/" + x, d + "/build/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"], check=True) if shutil.which("rsync") else copy(d)
    return d
def copy(d):
    shutil.rmtree(d + "/repo", ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
def one(d, m):
    name, props, want, edits = m
    copy(d)
    if isinstance(edits, str):
        if subprocess.run(["git", "apply", edits], cwd=d + "/repo").returncode: return name, "PATCH DOES NOT APPLY", ""
        edits = []
    for f, a, b in edits:
        p = d + "/repo/" + f
        s = open(p).read()
        if s.count(a) < 1: return name, "EDIT DOES NOT APPLY: %s: %r" % (f, a[:60]), ""
        s = s.replace(a, b, 1)
        open(p, "w").write(s)
    env = dict(os.environ, HV_REPO=d + "/repo", HV_BUILD=d + "/build", HV_EVIDENCE=d + "/evidence")
    res, out = [], ""
    for p in props.split():
        r = subprocess.run([V + "/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        viol = [l for l in r.stdout.splitlines() if l.startswith("-- [")]
        if any(l.startswith("-- [build]") for l in viol): return name, "DOES NOT COMPILE", r.stdout[-1500:]
        res.append("%s:%s" % (p, "caught" if r.returncode == 1 else "quiet" if r.returncode == 0 else "rc%d" % r.returncode))
        out += "\n".join(v[:200] for v in viol[:2]) + "\n"
    anyc = any(x.endswith("caught") for x in res)
    good = anyc == (want == "caught") and not any("rc" in x for x in res) and not ("internal:" in out or "[anchor]" in out)
    return name, ("ok   " if good else "MISS " if want == "caught" else "FALSE ALARM ") + " ".join(res), out
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    ms = [m for m in ns["M"] if sub in m[0] or sub in m[1]]
    n = min(N, len(ms))
    with cf.ThreadPoolExecutor(n) as ex:
        free = list(ex.map(setup, range(n))); lk = threading.Lock()
        def go(m):
            with lk: d = free.pop()
            try: return one(d, m)
            finally:
                with lk: free.append(d)
        bad = 0
        for name, r, out in ex.map(go, ms):
            g = r.startswith("ok")
            bad += not g
            print("%-50s %s" % (name, r), flush=True)
            if "-v" in sys.argv or not g: print("      " + out.strip().replace("\n", "\n      "))
            elif out.strip(): print("        " + out.strip().splitlines()[0][:160])
    print("%d mutants, %d not as expected" % (len(ms), bad))
main()
