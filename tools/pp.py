"""pretty-print MIR of functions whose name contains the argument:  pp.py [cfg] substr"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import build, mir
cfg = "a"
a = sys.argv[1:]
if a[0] in build.CONFIGS and len(a) > 1: cfg = a.pop(0)
P = mir.Program(build.dump(cfg))
def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*": s = "(*%s)" % s
        elif e == "cast": s += "~"
        elif e[0] == "f": s += "." + str(e[2] or e[1])
        elif e[0] == "v": s += "@" + str(e[1])
        else: s += str(e)
    return s
def op(o):
    if o[0] == "k": return "k:" + str(o[1])[:110]
    return o[0] + " " + place(o[1])
def rv(r):
    k = r[0]
    if k == "use": return op(r[1])
    if k in ("ref", "raw"): return "&%s %s" % (r[1], place(r[2]))
    if k == "discr": return "discr %s <%s>" % (place(r[1]), r[2])
    if k == "agg": return "agg %s (%s)" % (r[1], ", ".join(map(op, r[2])))
    if k == "bin": return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(r[2]))
    if k == "cast": return "cast %s %s" % (r[1], op(r[2]))
    return str(r)
for f in P.fns.values():
    if a[0] not in f.n: continue
    P.prep(f)
    print("==", f.n, f.id, f.span, "loops", f.loops)
    print("  gens", [P.ty(g) for g in f.gens])
    for v in f.dbg: print("  dbg", v)
    for i, (st, t, c) in enumerate(f.blocks):
        if c: continue
        print(" bb%d:" % i)
        for s in st:
            if s[0] == "=": print("    %s = %s   @%s" % (place(s[1]), rv(s[2]), s[3][1]))
            elif s[0] == "sd": print("    setdiscr", s[1:])
        if t[0] == "call":
            print("    %s = %s(%s) -> %s  @%s" % (place(t[3]), t[1].get("n") or "op " + op(t[1]["op"]), ", ".join(map(op, t[2])), t[4], t[6][1]))
            if t[1].get("res"): print("        res", t[1]["res"]["n"])
        else: print("   ", [op(x) if isinstance(x, list) and x and x[0] in ("cp", "mv", "k") else x for x in t])
