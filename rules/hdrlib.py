"""Header maps and iterators as abstract values.

Iterators: ("adt", "$It", 0, tag, items)            a known sequence (array, slice)
           ("adt", "$Un", 0, tag, (("str", "n"), P))  an unknown sequence named tag, n elements produced so far, P = known non-empty;
           at most CAP elements are produced on one path (loop bodies are analysed for each of them from arbitrary element values).
           ("adt", "$Map"/"$Filter", 0, tag, (inner, closure))
Header maps: presence of a name is forked at the first question and remembered until the map is changed; events
           ("has", map, name, bool) ("hset", how, map, name, value) ("hrm", map, name) ("hall", map, name) ("hiter", map) ("hclear", map)
           and, per element of an unknown sequence, ("elem", tag, n) / ("end", tag, n)."""
from rt import *
import re
CAP = 2

# ------------------------------------------------------------------ names
def kebab(s): return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "-", s).lower()
def hname(e, st, v):
    """lower-case name, or ("?", value) when not a constant"""
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    if v[0] == "str": return v[1].lower()
    if v[0] == "bytes": return bytes(v[1]).decode("latin1").lower()
    if v[0] == "adt":
        if v[1].endswith("HeaderName") or v[1].endswith("Repr") or v[1].endswith("Custom") or v[1].endswith("ByteStr"):
            if v[4]: return hname(e, st, v[4][0])
        if v[1].endswith("StandardHeader"): return kebab(v[3])
        if v[1].endswith("Bytes") and len(v[4]) == 1: return hname(e, st, v[4][0])
    s = e.snapshot(st, v)
    if s[0] == "sym":
        t = TERMS[s[1]]
        if t[0] == "call" and t[1].endswith("from_static") and len(t) > 2:
            x = t[2]
            while x[0] in ("rf", "ref"): x = x[1]
            if x[0] == "str": return x[1].lower()
    return ("?", s)

# ------------------------------------------------------------------ iterators
def IT(items, tag="seq"): return ("adt", "$It", 0, tag, tuple(items))
def UN(tag, nonempty=False): return ("adt", "$Un", 0, tag, (("str", "0"), TRUE if nonempty else FALSE))
def is_iter(v): return v[0] == "adt" and v[1] in ("$It", "$Un", "$Map", "$Filter", "$Clone", "$Peek")
def elem(tag, n): return ("sym", T("elem", tag, n))
def cref(v): return ("ref", (("C", v), ()), 0)
def strip(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    return v
def emit(st, x):
    st.aut = (st.aut or ()) + (x,)

def popv(e, st, c, it, k):
    """k(e, st, rest, elem | None) -> states"""
    kind = it[1]
    if kind == "$It":
        if not it[4]: return k(e, st, it, None)
        return k(e, st, it[:4] + (it[4][1:],), it[4][0])
    if kind == "$Un":
        n, ne = int(it[4][0][1]), it[4][1]
        out = []
        must = over = False
        if isinstance(it[3], tuple) and it[3][0] in ("split", "rsplit"):
            # the same string cut again has the same parts
            for x in st.aut or ():
                if x[0] == "end" and x[1] == it[3]: over = n >= x[2]; must = must or n < x[2]
                if x[0] == "elem" and x[1] == it[3] and x[2] >= n: must = True
        if over: return k(e, st, it, None)
        if not (n == 0 and ne == TRUE) and not must:
            s = st.fork(); emit(s, ("end", it[3], n))
            out += k(e, s, it, None)
        if n < CAP:
            emit(st, ("elem", it[3], n))
            out += k(e, st, it[:4] + ((("str", str(n + 1)), ne),), elem(it[3], n))
        return out
    if kind == "$Clone":
        return popv(e, st, c, it[4][0], lambda e, s, rest, x: k(e, s, it[:4] + ((rest,),), None if x is None else strip1(e, s, x)))
    if kind == "$Map":
        def k2(e, s, rest, x):
            if x is None: return k(e, s, it[:4] + ((rest, it[4][1]),), None)
            return clo(e, s, c, it[4][1], [x], lambda e, s, v: k(e, s, it[:4] + ((rest, it[4][1]),), v))
        return popv(e, st, c, it[4][0], k2)
    if kind == "$Filter":
        def k2(e, s, rest, x):
            new = it[:4] + ((rest, it[4][1]),)
            if x is None: return k(e, s, new, None)
            def k3(e, s, v):
                out = []
                for b, s2 in bools(e, s, v):
                    out += k(e, s2, new, x) if b else popv(e, s2, c, new, k)
                return out
            return clo(e, s, c, it[4][1], [cref(x)], k3)
        return popv(e, st, c, it[4][0], k2)
    raise KeyError(kind)

def strip1(e, st, x): return e.read(st, x[1]) if x[0] == "ref" else x

def clo(e, st, c, fv, args, k):
    n = len(st.frames)
    v = fv
    while v[0] == "ref": v = e.read(st, v[1])
    if v[0] != "clo":
        # a plain function: only models that finish at once
        info = e.FNINFO[v[2]] if v[0] == "fn" else None
        f = e.p.fns.get(info["id"]) if info else None
        if f is None: return k(e, st, ("sym", T("call", info["n"] if info else "?", *[e.snapshot(st, a) for a in args])))
        e.push(st, f, args, {}, (("B", "_itret"), ()), "resume")
        st.frames[-1].onret = lambda e, s, v, fr: k(e, s, v)
        return [st]
    out = e.call_value(st, fv, args, (("B", "_itret"), ()), "resume", c.site, None)
    for s in out:
        if len(s.frames) == n + 1: s.frames[-1].onret = lambda e, s2, v, fr: k(e, s2, v)
        else: raise Limit("closure in an iterator chain could not be analysed")
    return out

def iter_handlers():
    def wr(e, st, c, path, val): e.write(st, path, val)
    def srcval(e, st, c):
        return strip(e, st, c.args[0]) if c.args else None
    def conv(e, st, c):
        if not c.args: return None
        v = c.args[0]; x = strip(e, st, v)
        m = c.mname
        if is_iter(x):
            if m in ("iter", "into_iter", "into", "from_iter", "collect", "fuse", "peekable"): return [(x, None)]
            if m in ("cloned", "copied"): return [(("adt", "$Clone", 0, x[3], (x,)), None)]
            if m in ("by_ref", "deref", "deref_mut", "as_slice", "as_ref"): return [(v, None)]
            if m == "map": return [(("adt", "$Map", 0, x[3], (x, c.args[1])), None)]
            if m == "filter": return [(("adt", "$Filter", 0, x[3], (x, c.args[1])), None)]
            if m == "rev" and x[1] == "$It": return [(x[:4] + (tuple(reversed(x[4])),), None)]
            return None
        if m in ("into_iter", "iter") and x[0] == "adt" and x[1] == "std::option::Option":
            return [(IT([cref(i) for i in x[4]] if v[0] == "ref" else x[4]), None)]
        if m in ("iter", "into_iter", "as_slice", "iter_mut") and x[0] == "arr":
            byref = v[0] == "ref" or m == "iter"
            return [(IT([cref(i) if byref else i for i in x[1]]), None)]
        return None
    def nxt(e, st, c):
        p = itpath(e, st, c)
        if p is None: return None
        it = e.read(st, p)
        def k(e, s, rest, x):
            wr(e, s, c, p, rest)
            return e.finish(s, c.dest, c.target, NONE if x is None else some(x))
        return ("states", popv(e, st, c, it, k))
    def itpath(e, st, c):
        v = c.args[0] if c.args else None
        p = None
        if v is None: return None
        n = 0
        while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
        if is_iter(v):
            if p is None:
                cl = ("B", ("it", c.site)); st.heap[cl] = v; p = (cl, ())
            return p
        return None
    def folding(e, st, c):
        p = itpath(e, st, c)
        if p is None: return None
        m = c.mname
        def step(e, s):
            def k(e, s, rest, x):
                wr(e, s, c, p, rest)
                if x is None:
                    return e.finish(s, c.dest, c.target, {"any": FALSE, "all": TRUE, "for_each": UNIT, "find": NONE}[m])
                def kr(e, s, v):
                    if m == "for_each": return step(e, s)
                    out = []
                    for b, s2 in bools(e, s, v):
                        if m == "any" and b: out += e.finish(s2, c.dest, c.target, TRUE)
                        elif m == "all" and not b: out += e.finish(s2, c.dest, c.target, FALSE)
                        elif m == "find" and b: out += e.finish(s2, c.dest, c.target, some(x))
                        else: out += step(e, s2)
                    return out
                return clo(e, s, c, c.args[1], [cref(x)] if m == "find" else [x], kr)
            return popv(e, s, c, e.read(s, p), k)
        return ("states", step(e, st))
    ms = lambda *n: (lambda c, e, st: c.mname in n)
    def split(e, st, c):
        if not c.short.endswith("str>::split") and not c.short.endswith("str::split"): return None
        x = e.snapshot(st, c.args[0])
        while x[0] == "rf" or x[0] == "sym" and TERMS[x[1]][0] == "deref": x = x[1] if x[0] == "rf" else TERMS[x[1]][1]
        return [(UN(("split", x, e.snapshot(st, c.args[1])), True), None)]
    return [(ms("iter", "into_iter", "iter_mut", "cloned", "copied", "by_ref", "map", "filter", "rev", "fuse", "collect", "as_slice", "deref", "deref_mut", "as_ref", "from_iter", "peekable"), conv),
            (ms("next"), nxt), (ms("any", "all", "for_each", "find"), folding), (ms("split"), split)]

# ------------------------------------------------------------------ header maps
def mapid(e, st, c):
    """a name for the map the call works on"""
    p = recv_path(e, st, c)
    v = c.args[0]
    if p is None: return ("?", e.snapshot(st, v))
    root = p[0]
    fs = ".".join(str(x) for x in fields_on(p))
    base = root[1] if root[0] == "B" else show(("sym", root[1])) if root[0] == "H" else repr(root)
    return "%s%s" % (base, "." + fs if fs else "")

def present(st, m, name):
    """True / False / None from the history"""
    for x in reversed(st.aut or ()):
        if x[0] == "has" and x[1:3] == (m, name): return x[3]
        if x[0] == "hset" and x[2:4] == (m, name): return True
        if x[0] == "hrm" and x[1:3] == (m, name): return False
        if x[0] == "hrm" and x[1] == m and not isinstance(x[2], str): continue   # a name that is not constant: reported separately
        if x[0] == "hclear" and x[1] == m: return False
    return None
def version(st, m, name): return sum(1 for x in (st.aut or ()) if x[0] in ("hset",) and x[2] == m and x[3] == name or x[0] == "hrm" and x[1:3] == (m, name) or x[0] == "hclear" and x[1] == m)

def hv(st, m, name, i=0):
    """the i-th value of a name; one that was set on this path is what was set"""
    if i == 0:
        for x in reversed(st.aut or ()):
            if x[0] == "hset" and x[2:4] == (m, name) and x[1] == "insert": return x[4]
            if x[0] == "hset" and x[2:4] == (m, name): break
            if x[0] in ("hrm",) and x[1:3] == (m, name): break
    return ("sym", T("hv", m, name, i, version(st, m, name)))

def map_handlers(one=None):
    """one: name given to every map (when only one map is of interest on the analysed paths)"""
    def ismap(c, e, st): return c.short.startswith("http::HeaderMap") or c.short.startswith("http::header::map::HeaderMap")
    def ask(e, st, m, name, yes, no):
        pr = present(st, m, name)
        out = []
        if pr is not False: out.append((yes, ("has", m, name, True) if pr is None else None))
        if pr is not True: out.append((no, ("has", m, name, False) if pr is None else None))
        return out
    def op(e, st, c):
        mn = c.mname
        if not c.args: return None
        m = one or mapid(e, st, c)
        name = hname(e, st, c.args[1]) if len(c.args) > 1 else None
        val = lambda: strip(e, st, c.args[2]) if len(c.args) > 2 else None
        if mn == "contains_key": return ask(e, st, m, name, TRUE, FALSE)
        if mn in ("get", "get_mut"): return ask(e, st, m, name, lambda s: some(cref(hv(s, m, name))), NONE)
        if mn == "get_all":
            return [(("adt", "$Un", 0, ("values", m, name), (("str", "0"), TRUE if present(st, m, name) is True else FALSE)), ("hall", m, name))]
        if mn == "remove":
            v = hv(st, m, name)
            pr = present(st, m, name) if isinstance(name, str) else None
            out = []
            if pr is not False: out.append((some(v), ("hrm", m, name)))
            if pr is not True: out.append((NONE, ("hrm", m, name)))
            return out
        if mn in ("insert", "try_insert"):
            v = val()
            w = (lambda x: ok(x)) if mn.startswith("try") else (lambda x: x)
            pr = present(st, m, name)
            old = hv(st, m, name)
            out = []
            if pr is not False: out.append((w(some(old)), ("hset", "insert", m, name, v)))
            if pr is not True: out.append((w(NONE), ("hset", "insert", m, name, v)))
            return out
        if mn in ("append", "try_append"):
            v = val()
            w = (lambda x: ok(x)) if mn.startswith("try") else (lambda x: x)
            pr = present(st, m, name)
            out = []
            if pr is not False: out.append((w(TRUE), ("hset", "append", m, name, v)))
            if pr is not True: out.append((w(FALSE), ("hset", "append", m, name, v)))
            return out
        if mn == "clear": return [(UNIT, ("hclear", m))]
        if mn in ("entry", "try_entry"):
            E = "http::header::Entry"
            a = e.p.adts.get(E) or next((e.p.adts[k] for k in e.p.adts if k.endswith("header::map::Entry") or k.endswith("header::Entry")), None)
            if a is None: return None
            o, n = a["vix"]["Occupied"], a["vix"]["Vacant"]
            tok = lambda k: ("adt", "$Entry", 0, k, (("str", m), ("str", name) if isinstance(name, str) else name[1]))
            w = (lambda x: ok(x)) if mn.startswith("try") else (lambda x: x)
            return ask(e, st, m, name, w(("adt", a["path"], o, "Occupied", (tok("occ"),))), w(("adt", a["path"], n, "Vacant", (tok("vac"),))))
        if mn in ("reserve", "try_reserve"): return [(UNIT if mn == "reserve" else ok(UNIT), None)]
        if mn in ("len", "keys_len"): return None
        if mn in ("iter", "into_iter", "keys", "values", "iter_mut", "drain", "values_mut"): return [(UN(("hiter", m, mn)), ("hiter", m, mn))]
        return None
    def entry(e, st, c):
        if not c.args: return None
        x = strip(e, st, c.args[0])
        inner = None
        if x[0] == "adt" and x[1] == "$Entry": inner = x
        elif x[0] == "adt" and x[1].endswith("Entry") and len(x[4]) == 1 and x[4][0][0] == "adt" and x[4][0][1] == "$Entry": inner = x[4][0]
        if inner is None: return None
        m, name = inner[4][0][1], inner[4][1][1] if inner[4][1][0] == "str" else ("?", inner[4][1])
        occ = inner[3] == "occ"
        mn = c.mname
        val = lambda i: strip(e, st, c.args[i])
        ref = lambda v: ("ref", (("B", ("hv", m, name)), ()), 1)
        if mn in ("insert", "or_insert", "insert_entry", "or_try_insert", "try_insert"):
            if mn.startswith("or_") and occ: return [(cref(hv(st, m, name)), None)]
            v = val(1)
            return [((cref(v) if not occ else hv(st, m, name)), ("hset", "insert", m, name, v))]
        if mn == "append": return [(UNIT, ("hset", "append", m, name, val(1)))]
        if mn == "or_insert_with":
            if occ: return [(cref(hv(st, m, name)), None)]
            def k(e, s, v):
                emit(s, ("hset", "insert", m, name, v))
                return e.finish(s, c.dest, c.target, cref(v))
            return ("states", clo(e, st, c, c.args[1], [], k))
        if mn in ("get", "into_mut", "get_mut"): return [(cref(hv(st, m, name)), None)]
        if mn == "iter": return [(("adt", "$Un", 0, ("values", m, name), (("str", "0"), TRUE)), ("hall", m, name))]
        if mn in ("remove", "remove_entry"): return [(hv(st, m, name), ("hrm", m, name))]
        if mn == "key": return [(cref(("str", name)) if isinstance(name, str) else name[1], None)]
        return None
    def extmap(e, st, c): return None
    return [(ismap, op), (lambda c, e, st: "Entry" in c.short or c.mname in ("or_insert", "or_insert_with"), entry)]
