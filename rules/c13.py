"""No response splitting: reason phrases, generated head parts, unfolded values."""
import itertools
from rt import *
import enclib, outlib, hdrlib, c12, c02, parselib
from enclib import STATUS, CL, TE
LEVEL = "other"
REASON_BYTES = frozenset([9, 32]) | frozenset(range(0x21, 0x7f)) | frozenset(range(0x80, 0x100))

def builders(P):
    """local functions whose code builds a ReasonPhrase"""
    a = P.adt("ReasonPhrase")
    out = []
    for f in P.fns.values():
        if not f.local or not f.blocks: continue
        if "ReasonPhrase" in repr(f.blocks) and any(x == ["adt", a["path"], 0, "ReasonPhrase"] or x[:2] == ["adt", a["path"]] for x in aggs(f.blocks)): out.append(f)
    return a, out

def aggs(o):
    if isinstance(o, (list, tuple)):
        if len(o) > 1 and o[0] == "agg" and isinstance(o[1], (list, tuple)): yield list(o[1])
        for x in o: yield from aggs(x)

def arr_handlers():
    """byte strings of known length: slices, vectors and iterators over them"""
    def h(e, st, c):
        m = c.mname
        if not c.args: return None
        v = outlib.strip(e, st, c.args[0])
        if v[0] != "arr": return None
        if m in ("len",): return [(("int", len(v[1])), None)]
        if m == "is_empty": return [(TRUE if not v[1] else FALSE, None)]
        if m in ("deref", "as_ref", "as_slice", "borrow", "as_bytes", "as_str", "into_bytes"): return [(c.args[0], None)]
        if m in ("iter", "into_iter"): return [(hdrlib.IT([hdrlib.cref(x) for x in v[1]]), None)]
        if m in ("bytes",): return [(hdrlib.IT(v[1]), None)]
        if m in ("copy_from_slice", "from", "to_vec", "from_static", "into", "to_owned", "into_boxed_slice", "clone", "from_owner") and len(c.args) == 1: return [(v, None)]
        return None
    def pos(e, st, c):
        if c.mname != "position" or len(c.args) != 2: return None
        it = outlib.strip(e, st, c.args[0])
        if not (it[0] == "adt" and it[1] == "$It"): return None
        def step(e, s, items, i):
            if not items: return e.finish(s, c.dest, c.target, NONE)
            def k(e, s, v):
                out = []
                for b, s2 in bools(e, s, v): out += e.finish(s2, c.dest, c.target, some(("int", i))) if b else step(e, s2, items[1:], i + 1)
                return out
            return hdrlib.clo(e, s, c, c.args[1], [items[0]], k)
        return ("states", step(e, st, it[4], 0))
    return [(lambda c, e, st: True, h), (lambda c, e, st: True, pos)]

def byte_facts(arr): return {b[1]: ("rng", 0, 255, frozenset()) for b in arr if b[0] == "sym"}
def byte_set(st, b): return set(value_set(st, b)[0]) if b[0] == "sym" else {b[1]}

def constructors(ctx, P):
    ctx.rule("every function that builds a ReasonPhrase from caller's bytes keeps exactly these bytes and succeeds only if each is a tab, a space, a visible character or above 127, and fails only if one is not")
    G = "reason phrase constructors"
    a, fs = builders(P)
    ctx.check(all(f[2] == "priv" for f in a["variants"][0][2]), G, "field", "the bytes of a ReasonPhrase can be set from outside")
    checked = {}
    for f in fs:
        if f.argc != 1: ctx.bad("arity:" + f.n, "%s builds a ReasonPhrase and is not analysed" % f.n); continue
        free = False
        LETTER = ("int", 65)
        cases = [[init("R%d" % i) for i in range(n)] for n in (0, 1, 2, 3)]
        for n in (7, 33): cases += [[LETTER] * p + [init("R0")] + [LETTER] * (n - p - 1) for p in range(n)]
        if "ReasonPhrase" in repr(P.ty(f.locals[1][0])): continue      # from one that is already valid (Clone)
        isref = P.ty(f.locals[1][0])[0] == "ref"
        for arr in cases:
            e = ctx.engine(rule=Rec(arr_handlers() + hdrlib.iter_handlers(), limit=200)); e.widen_from = 60
            arg = ("arr", tuple(arr))
            e.run(f, [hdrlib.cref(arg) if isref else arg], facts=byte_facts(arr))
            for st, v in e.finals:
                sets = [byte_set(st, b) for b in arr]
                inner = unwrap(v, "Ok") or v
                got = inner[4][0] if inner[0] == "adt" and inner[1] == a["path"] else None
                got = outlib.strip(e, st, got) if got is not None else None
                t = "%s given bytes %s" % (f.n, [sorted(s)[:3] + ["..", max(s)] if len(s) > 3 else sorted(s) for s in sets][:4])
                if got is not None:
                    ctx.check(got == arg, G, "kept:" + f.n, "%s keeps other bytes: %s" % (t, show(got)[:80]))
                    okb = all(s <= REASON_BYTES for s in sets)
                    if not okb: free = True
                    ctx.ok(G)
                elif is_adt(v, "Err"):
                    ctx.check(any(not (s & REASON_BYTES) for s in sets), G, "reject:" + f.n, t + " fails although all of them are allowed")
                else: ctx.bad("form:" + f.n, "%s: outcome not decided: %s" % (t, show(v)[:60]), G)
        checked[f.id] = not free
    unch = [f for f in fs if checked.get(f.id) is False]
    for f in unch:
        ctx.check(not getattr(f, "pub", None) and f.trait is None and not reachable(P, f), G, "unchecked:" + f.n, "%s (%s) builds a ReasonPhrase from bytes that are not all allowed and can be called from outside" % (f.n, where(f.span)))
    ctx.floor(G, 100)
    return a, fs, unch

def reachable(P, f):
    """an unchecked constructor may only be called by the client's response parser"""
    callers = [g for g in P.fns.values() if g.local and g.blocks and g.id != f.id and f.id in repr(g.blocks)]
    return [g.n for g in callers if not (g.trait and g.name == "parse" and "Client" in g.n)]

def received(ctx, P):
    ctx.rule("a received reason phrase is the one the parser validated, kept only when it is not the canonical one")
    G = "received reason phrase"
    rs, R = c02.responses(ctx, P, some(c02.http_method(P, "Get")), 1, ["connection"])
    for r in rs:
        for x in r.get("extinsert"):
            v = x[1]
            if not (v[0] == "adt" and v[1].endswith("ReasonPhrase")): continue
            y = r.e.snapshot(r.st, v[4][0])
            src = outlib.H.norm(y)
            good = src[0] == "sym" and TERMS[src[1]][0] in ("copied",) and norm_is(TERMS[src[1]][1], init("REASON"))
            ctx.check(good, G, "source", "the reason phrase kept is %s, not the one the parser validated" % show(y)[:80])
    ctx.floor(G, 1)

def norm_is(v, want):
    v = outlib.H.norm(v)
    return v == want or v[0] == "sym" and TERMS[v[1]][0] in ("deref",) and norm_is(TERMS[v[1]][1], want)

def source(r, g):
    """is this part of a head a literal or from a validated type: None, or what it is"""
    if g[0] in ("lit", "val", "name", "dec", "orig", "fmt", "title"): return None if g[0] != "title" else source(r, g[1])
    if g[0] == "?" and isinstance(g[1], tuple):
        ts = [TERMS[t] for t in terms_in(g[1])]
        top = g[1]
        t = TERMS[top[1]] if top[0] == "sym" else ("?",)
        if t[0] in ("statusstr", "canonical"): return None
        if enclib.isdate(g): return None
        if init("REASON")[1] in terms_in(top): return None
        if t[0] == "call" and t[1].endswith("Method::as_str"): return None
    return "%s" % (g,)

def heads(ctx, P):
    ctx.rule("every response head is 'HTTP/1.0 ' or 'HTTP/1.1 ', the status, a space, the reason given (else the canonical one or a fixed text), CRLF, lines of one name, ': ' and a value, and one empty line; every part is a literal without CR or LF or a value of a validated type; repeated Connection, Transfer-Encoding and Trailer lines are joined by commas, others as given")
    G, G2 = "response heads", "user header lines"
    for m, body, cls, n, kw in ((None, "none", ["other"], 1, dict(reason=True)), ("Get", "unknown", ["other"], 1, dict(reason=True, case=True)), ("Get", "known", [], 0, dict(reason=True, title=True)),
                                ("Get", "unknown", list(outlib.CLASSES), 2, dict(cap=1)), ("Get", "unknown", [TE, "connection", "trailer", "other"], 3, dict(status=200, ka=FALSE, cap=1)), ("Get", "none", [TE, "connection", "trailer"], 2, dict(case=True, cap=1, ka=FALSE)), ("Get", "none", ["other", "trailer"], 2, dict(case=True, status=200)),
                                ("Get", "known", ["connection", "other", "date"], 2, dict(title=True, ka=FALSE))):
        for ver in ("Http10", "Http11", "H2"):
            if ver == "H2" and n > 1 or ver == "Http10" and n > 2: continue
            for r in enclib.encode(ctx, P, m, ver, body, cls, maxl=n, **kw):
                onex = r.isv(100, 199) and not r.isv(101, 101)
                if is_adt(r.v, "Err") and not onex: continue
                tx = r.desc()
                p = r.parsed()
                if isinstance(p, str): ctx.bad("shape", "a response head is malformed: %s: %s" % (p, tx), G); continue
                bad = [source(r, g) for g in r.segs() if source(r, g)]
                ctx.check(not bad, G, "source", "a response head contains %s: %s" % (bad[:3], tx))
                l = outlib.flat(p[0])
                v = b"HTTP/1.0 " if ver == "Http10" and not onex else b"HTTP/1.1 "
                if len(l) == 1: good = l[0] == ("lit", v + b"200 OK") and r.isv(200, 200) and ("reason", True) not in r.ev
                else:
                    good = len(l) in (3, 4) and l[0] == ("lit", v)
                    if good:
                        s = l[1][1] if l[1][0] == "?" else ("?",)
                        t = TERMS[s[1]] if s[0] == "sym" else ("?",)
                        code = 500 if onex else None
                        good = t[0] == "statusstr" and (t[1] == r.status if not onex else intin(t[1], 500))
                    if good:
                        rest = l[2:]
                        if ("reason", True) in r.ev and not onex: good = len(rest) == 2 and rest[0] == ("lit", b" ") and rest[1][0] == "?" and init("REASON")[1] in terms_in(rest[1][1])
                        elif ("canon", False) in r.ev: good = len(rest) == 1 and rest[0][0] == "lit" and rest[0][1][:1] == b" "
                        else: good = len(rest) == 2 and rest[0] == ("lit", b" ") and rest[1][0] == "?" and TERMS[rest[1][1][1]][0] == "canonical"
                ctx.check(good, G, "status-line", "the status line is %s: %s" % (l, tx))
                if not onex: user_lines(ctx, G2, r, p[1], kw)
    ctx.floor(G, 500); ctx.floor(G2, 500)

def intin(v, k):
    return k in repr(v) if False else ("('int', %d)" % k) in repr(v)

def user_lines(ctx, G, r, hs, kw):
    """every user line (framing lines aside) is on the wire as given"""
    tx = r.desc()
    nob = r.ver == "Http10" or r.nobody() is True
    want = []
    for n, v in r.inp():
        if n == CL: continue
        if n in (TE, "trailer") and nob: continue
        g = ("val", v)
        if n in (TE, "connection", "trailer") and want and want[-1][0] == n: want[-1][1].extend([("lit", b", "), g])
        else: want.append((n, [g]))
    got = [(n, v) for n, v, _ in hs if n != CL]
    # what hyper adds: one generated date, one generated transfer-encoding, ", chunked" behind the user's own
    gen = [(n, v) for n, v in got if n == "date" and v and enclib.isdate(v[0]) or n == TE and v == [("lit", b"chunked")]]
    got = [x for x in got if x not in gen]
    fix = []
    for n, v in got:
        v = outlib.flat(v)
        if n == TE and v and v[-1] == ("lit", b", chunked"): v = v[:-1]
        fix.append((n, v))
    want = [(n, outlib.flat(v)) for n, v in want]
    ctx.check(fix == want, G, "user-lines", "the user's header lines %s are sent as %s: %s" % ([(n, len(v)) for n, v in want], [(n, [g if g[0] == "lit" else g[0] for g in v]) for n, v in fix], tx))
    for n, v, how in hs:
        orig = any(x[0] == "elem" and x[1] == ("case", n) for x in r.ev)
        if kw.get("title"): ctx.check(how in ("title", "orig"), G, "title", "the name %s is not written in title case: %s" % (n, tx))
        elif not kw.get("case"): ctx.check(how in ("name", "lit"), G, "lower", "the name %s is not written in lower case: %s" % (n, tx))
        elif how != "orig": ctx.check(any(x[0] == "end" and x[1] == ("case", n) for x in r.ev), G, "orig", "the recorded spelling of %s is not used: %s" % (n, tx))

def requests(ctx, P):
    G = "request heads"
    ctx.rule("every part of a request head is a literal without CR or LF, or the method, the target and header names and values of validated types")
    for inp, body in (([], "unknown"), (["other", CL], "known"), ([TE], "unknown"), (["other", "other"], "none")):
        for case, title in ((False, False), (True, False), (True, True), (False, True)):
            for r in c12.encode(ctx, P, "Post", "Http11", body, inp, case, title):
                segs = [x[1] for x in r.get("w")]
                bad = [source(r, g) for g in outlib.flat(segs) if source(r, g)]
                ctx.check(not bad and outlib.wire(segs) is not None, G, "source", "a request head contains %s: %s" % (bad[:3], r.text()))
    ctx.floor(G, 10)

def unfold(ctx, P):
    ctx.rule("a value received in several folded lines becomes one line: afterwards it contains no LF and no CR other than one inside a line, its length is that of the new text, and text outside of folds is kept")
    G = "unfolded values"
    f = P.fn("obs_fold_line")
    HI = P.adt("HeaderIndices")
    names = [x[0] for x in HI["variants"][0][2]]
    S = 3
    KINDS = (("in", frozenset([10])), ("in", frozenset([13])), ("in", frozenset([9, 32])), ("in", frozenset(range(256)) - WS))
    for kinds in (k for L in range(1, 7 if ctx.tier == "thorough" else 6) for k in itertools.product(KINDS, repeat=L)):
        L = len(kinds)
        arr = [init("B%d" % i) for i in range(L)]
        e = ctx.engine(rule=Rec([(lambda c, e, st: c.mname == "is_ascii_whitespace", white)] + slice_handlers() + arr_handlers() + hdrlib.iter_handlers(), limit=300)); e.widen_from = 60
        idx = mk(P, HI, **{n: ("tup", (("int", S), ("int", S + L))) if n == "value" else ("tup", (("int", 0), ("int", 1))) for n in names})
        e.run(f, [mref("all"), mref("idx")], heap={cell("all"): ("arr", (("int", 97), ("int", 58), ("int", 32)) + tuple(arr) + (("int", 13), ("int", 10))), cell("idx"): idx}, facts={x[1]: k for x, k in zip(arr, kinds)})
        for st, v in e.finals:
            allv = e.read(st, (cell("all"), ()))
            i2 = e.read(st, (cell("idx"), ()))
            val = fget(P, st, i2, HI, "value", eng=e)
            sets = [byte_set(st, b) for b in arr]
            cls = lambda s: "\\n" if s == {10} else "\\r" if s == {13} else "ws" if s <= {9, 10, 11, 12, 13, 32} else "x" if not s & {9, 10, 12, 13, 32} else "?" if 10 in s else "."
            tx = "value of bytes [%s]" % " ".join(cls(s) for s in sets)
            if not (val[0] == "tup" and all(x[0] == "int" for x in val[1]) and allv[0] == "arr"): ctx.bad("unfold-form", "the new range or bytes are not decided: %s -> %s" % (tx, show(val)), G); continue
            a, b = val[1][0][1], val[1][1][1]
            ctx.check(a == S and S <= b <= S + L and len(allv[1]) == S + L + 2, G, "range", "the value's range becomes %d..%d of %d..%d: %s" % (a, b, S, S + L, tx))
            out = allv[1][a:b]
            os_ = [byte_set(st, x) for x in out]
            ctx.check(not any(10 in s for s in os_), G, "lf", "a line break stays in the value: " + tx)
            # a CR directly before or after a fold must be gone; elsewhere the parser has refused it
            folded = any(s == {10} for s in sets)
            adj = [j for j, s in enumerate(sets) if 13 in s and len(s) <= 5 and (j + 1 < L and sets[j + 1] == {10} or j and sets[j - 1] == {10})]
            ctx.check(not any(arr[j] in out for j in adj), G, "cr", "a carriage return next to a fold stays in the value: " + tx)
            keep = [x for x, s in zip(arr, sets) if not s & {9, 10, 12, 13, 32}]
            kept = [x for x in out if x in keep]
            ctx.check(kept == keep, G, "text", "text of the value is lost or reordered: %s" % tx)
            ctx.check(allv[1][:S] == (("int", 97), ("int", 58), ("int", 32)) and allv[1][S + L:] == (("int", 13), ("int", 10)), G, "outside", "bytes outside of the value change: " + tx)
            if not folded: ctx.check(out == tuple(arr), G, "plain", "a value without folds is changed: " + tx)
            else:
                # between two kept characters that a fold separated stands at least one space
                for x, y in zip(keep, keep[1:]):
                    i, j = arr.index(x), arr.index(y)
                    if any(s == {10} for s in sets[i:j]): ctx.check(out.index(y) - out.index(x) >= 2, G, "space", "two words around a fold are glued together: " + tx)
    ctx.floor(G, 100)

WS = frozenset([9, 10, 12, 13, 32])
def white(e, st, c):
    """is the byte whitespace? decided by its set"""
    b = outlib.strip(e, st, c.args[0])
    if b[0] == "int": return [(TRUE if b[1] in WS else FALSE, None)]
    s = set(value_set(st, b)[0]) if value_set(st, b)[0] else None
    if s is None or (s & WS and s - WS): return None
    return [(TRUE if s <= WS else FALSE, None)]

def slice_handlers():
    """subslices of arrays of known length, writable"""
    def rng(e, st, v, n):
        v = e.snapshot(st, v)
        if v[0] != "adt": return None
        k = v[1].split("::")[-1]; x = [e.as_int(y) if hasattr(e, "as_int") else y for y in v[4]]
        x = [y[1] if isinstance(y, tuple) and y[0] == "int" else None for y in x]
        if any(y is None for y in x): return None
        return {"Range": lambda: (x[0], x[1]), "RangeTo": lambda: (0, x[0]), "RangeFrom": lambda: (x[0], n), "RangeFull": lambda: (0, n), "RangeInclusive": lambda: (x[0], x[1] + 1)}.get(k, lambda: None)()
    def win(e, st, v):
        """(path of the array, start, end) of a slice"""
        n = 0
        while v[0] == "ref" and n < 6:
            w = e.read(st, v[1])
            if w[0] == "arr": return v[1], 0, len(w[1])
            v = w; n += 1
        if v[0] == "adt" and v[1] == "$Win": return v[4][0][1], v[4][1][1], v[4][2][1]
        return None
    def h(e, st, c):
        m = c.mname
        if m in ("index", "index_mut", "get", "get_mut") and len(c.args) == 2:
            w = win(e, st, c.args[0])
            if w is None: return None
            r = rng(e, st, c.args[1], w[2] - w[1])
            if r is None: return None
            v = ("adt", "$Win", 0, "", (("ref", w[0], 1), ("int", w[1] + r[0]), ("int", w[1] + r[1])))
            if r[0] > r[1] or w[1] + r[1] > w[2]: return [(("sym", T("outofrange")), ("oob",))]
            items = e.read(st, w[0])[1][w[1] + r[0]:w[1] + r[1]]
            return [(hdrlib.cref(v) if m.endswith("mut") else hdrlib.cref(("arr", tuple(items))), None)]
        if not c.args: return None
        v = outlib.strip(e, st, c.args[0])
        if v[0] == "adt" and v[1] == "$Win":
            p, a, b = v[4][0][1], v[4][1][1], v[4][2][1]
            items = tuple(e.read(st, p)[1][a:b])
            if m in ("iter", "deref", "as_ref", "to_vec", "len", "is_empty", "split", "into_iter"):
                c2 = c
                if m == "len": return [(("int", b - a), None)]
                if m == "iter" or m == "into_iter": return [(hdrlib.IT([hdrlib.cref(x) for x in items]), None)]
                if m == "to_vec": return [(("arr", items), None)]
                if m in ("deref", "as_ref"): return [(hdrlib.cref(("arr", items)), None)]
            if m in ("copy_from_slice", "clone_from_slice"):
                o = outlib.strip(e, st, c.args[1])
                if o[0] != "arr" or len(o[1]) != b - a: return [(UNIT, ("oob",))]
                arr = e.read(st, p)[1]
                e.write(st, p, ("arr", arr[:a] + o[1] + arr[b:])); return [(UNIT, None)]
            return None
        if v[0] == "arr":
            p, x, n = None, c.args[0], 0
            while x[0] == "ref" and n < 6: p = x[1]; x = e.read(st, p); n += 1
            if m == "push": e.write(st, p, ("arr", v[1] + (e.snapshot(st, c.args[1]),))); return [(UNIT, None)]
            if m in ("extend_from_slice", "extend"):
                o = outlib.strip(e, st, c.args[1])
                if o[0] == "adt" and o[1] == "$Win": o = ("arr", tuple(e.read(st, o[4][0][1])[1][o[4][1][1]:o[4][2][1]]))
                if o[0] != "arr": return None
                e.write(st, p, ("arr", v[1] + o[1])); return [(UNIT, None)]
            if m == "split" and len(c.args) == 2 or m == "splitn" and len(c.args) == 3 and c.args[1][0] == "int" and c.args[1][1] > 0:
                top = c.args[1][1] if m == "splitn" else 99
                def step(e, s, items, cur, out):
                    if len(out) == top - 1: items, cur = [], cur + items
                    if not items: return e.finish(s, c.dest, c.target, hdrlib.IT([hdrlib.cref(("arr", tuple(y))) for y in out + [cur]]))
                    def k(e, s, b):
                        o2 = []
                        for t, s2 in bools(e, s, b): o2 += step(e, s2, items[1:], [], out + [cur]) if t else step(e, s2, items[1:], cur + [items[0]], out)
                        return o2
                    return hdrlib.clo(e, s, c, c.args[-1], [hdrlib.cref(items[0])], k)
                return ("states", step(e, st, list(v[1]), [], []))
        return None
    return [(lambda c, e, st: True, h)]

def run(ctx):
    P = ctx.prog()
    constructors(ctx, P); received(ctx, P); heads(ctx, P); requests(ctx, P); unfold(ctx, P)
