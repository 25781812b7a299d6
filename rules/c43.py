"""A message head is recognised as soon as it is complete, however its bytes were split."""
from rt import *
import c02, c20, parselib, hdrlib
from hdrlib import IT, cref, strip, is_iter
from c25 import add, le
from c08 import lt_facts, num_handlers, U63
LEVEL = "other"
I0 = ("int", 0)
CR, LF = 13, 10

# ------------------------------------------------------------------ slices of a buffer of known length with arbitrary bytes
def SL(a, b): return ("arr", tuple(byte(i) for i in range(a, b)))
def byte(i): return ("sym", T("bufbyte", i))
def rng(e, st, v, n):
    """(start, end) of a range value over n items, or None"""
    v = strip(e, st, v)
    if v[0] == "int": return v[1], v[1] + 1
    if v[0] != "adt": return None
    k = v[1].split("::")[-1]; a = [x[1] if x[0] == "int" else None for x in v[4]]
    if any(x is None for x in a[:2]): return None
    if k == "RangeFull": return 0, n
    if k == "RangeFrom": return a[0], n
    if k == "RangeTo": return 0, a[0]
    if k == "Range": return a[0], a[1]
    if k == "RangeInclusive": return a[0], a[1] + 1
    if k == "RangeToInclusive": return 0, a[0] + 1
    return None

def items(e, st, v):
    """the bytes of a slice, array or literal"""
    v = strip(e, st, v)
    while v[0] == "rf": v = v[1]
    if v[0] == "arr": return list(v[1])
    if v[0] == "bytes": return [("int", x) for x in v[1]]
    if v[0] == "str": return [("int", ord(x)) for x in v[1]]
    return None

def slice_handlers():
    def h(e, st, c):
        if not c.args: return None
        m = c.mname or c.name.split("::")[-1]
        if m in ("eq", "ne") and len(c.args) == 2: return eq(e, st, c, m)
        x = items(e, st, c.args[0]) if c.args[0][0] in ("ref", "rf") else None
        if x is None: return None
        n = len(x); sub = lambda i, j: cref(("arr", tuple(x[i:j])))
        if m in ("deref", "as_ref", "borrow", "as_slice", "chunk"): return [(c.args[0], None)]
        if m == "len": return [(("int", n), None)]
        if m == "is_empty": return [(TRUE if n == 0 else FALSE, None)]
        if m in ("iter", "into_iter"): return [(IT([cref(y) for y in x]), None)]
        if m in ("index", "get", "get_unchecked"):
            r = rng(e, st, c.args[1], n)
            if r is None: return None
            okk = r[0] <= r[1] <= n if strip(e, st, c.args[1])[0] != "int" else r[0] < n
            if not okk: return [(NONE, None)] if m == "get" else [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("oob", "%d..%d of %d" % (r + (n,))))]
            v = cref(x[r[0]]) if strip(e, st, c.args[1])[0] == "int" else sub(r[0], r[1])
            return [(some(v) if m == "get" else v, None)]
        k = c.args[1][1] if len(c.args) > 1 and c.args[1][0] == "int" else None
        if m == "chunks" and k: return [(IT([sub(i, i + k) for i in range(0, n, k)]), None)]
        if m == "windows" and k: return [(IT([sub(i, i + k) for i in range(0, n - k + 1)]), None)]
        if m in ("first", "last"): return [(some(cref(x[0 if m == "first" else -1])) if n else NONE, None)]
        if m in ("split_first", "split_last"):
            if not n: return [(NONE, None)]
            return [(some(("tup", (cref(x[0]), sub(1, n)) if m == "split_first" else (cref(x[-1]), sub(0, n - 1)))), None)]
        if m == "split_at" and k is not None: return [(("tup", (sub(0, k), sub(k, n))), None)] if k <= n else [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("oob", "%d of %d" % (k, n)))]
        if m in ("starts_with", "ends_with"):
            w = items(e, st, c.args[1])
            if w is None: return None
            if len(w) > n: return [(FALSE, None)]
            y = x[:len(w)] if m == "starts_with" else x[n - len(w):]
            return ("states", [q for t, s2 in same(e, st, y, w) for q in e.finish(s2, c.dest, c.target, TRUE if t else FALSE)])
        return None
    def same(e, st, x, y):
        """[(equal?, state)]"""
        if len(x) != len(y): return [(False, st)]
        out, cur = [], [st]
        for p, q in zip(x, y):
            nxt = []
            for s in cur:
                for t, s2 in bools(e, s, e.compare(s, "Eq", p, q, "u8")):
                    if t: nxt.append(s2)
                    else: out.append((False, s2))
            cur = nxt
        return out + [(True, s) for s in cur]
    def eq(e, st, c, m):
        x, y = strip(e, st, c.args[0]), strip(e, st, c.args[1])
        for v in (x, y):
            if v[0] == "adt" and not v[1].endswith("option::Option"): return None
        if x[0] == "adt" and y[0] == "adt" and x[3] != y[3] and {x[3], y[3]} == {"Some", "None"}: return [(FALSE if m == "eq" else TRUE, None)]
        if is_adt(x, "None") and is_adt(y, "None"): return [(TRUE if m == "eq" else FALSE, None)]
        if is_adt(x, "Some") and is_adt(y, "Some"): x, y = strip(e, st, x[4][0]), strip(e, st, y[4][0])
        while x[0] == "rf": x = x[1]
        while y[0] == "rf": y = y[1]
        isb = lambda v: v[0] == "int" or v[0] == "sym" and TERMS[v[1]][0] == "bufbyte"
        if isb(x) and isb(y): a, b = [x], [y]
        else:
            a, b = items(e, st, x), items(e, st, y)
            if a is None or b is None: return None
        return ("states", [q for t, s2 in same(e, st, a, b) for q in e.finish(s2, c.dest, c.target, TRUE if t == (m == "eq") else FALSE)])
    def enum_(e, st, c):
        if c.trait and c.trait.endswith("Iterator") and c.mname != "next" or c.mname == "into_iter":   # a range of known numbers
            a = c.args[0]; w = e.read(st, a[1]) if a[0] == "ref" else a
            if w[0] == "adt" and w[1].split("::")[-1] == "Range" and all(x[0] == "int" for x in w[4]):
                it = IT([("int", k) for k in range(w[4][0][1], w[4][1][1])])
                if a[0] == "ref": e.write(st, a[1], it)
                elif c.mname == "into_iter": return [(it, None)]
                else: c.args[0] = it
                return None
        v = strip(e, st, c.args[0]) if c.args else None
        if v is None or not is_iter(v) or v[1] not in ("$It", "$Clone"): return None
        if c.mname == "enumerate":
            it = v if v[1] == "$It" else v[4][0]
            val = (lambda x: x) if v[1] == "$It" else (lambda x: strip(e, st, x))
            return [(IT([("tup", (("int", i), val(x))) for i, x in enumerate(it[4])]), None)]
        if c.mname == "zip" and v[1] == "$It":
            w = strip(e, st, c.args[1])
            if is_iter(w) and w[1] == "$It": return [(IT([("tup", p) for p in zip(v[4], w[4])]), None)]
        if c.mname in ("skip", "take") and v[1] == "$It" and c.args[1][0] == "int":
            k = c.args[1][1]
            return [(IT(v[4][k:] if c.mname == "skip" else v[4][:k]), None)]
        if c.mname == "len" and v[1] == "$It": return [(("int", len(v[4])), None)]
        return None
    return [(lambda c, e, st: True, h), (lambda c, e, st: bool(c.args), enum_)] + hdrlib.iter_handlers()

def scanner(ctx, P):
    fs = [f for f in P.fns.values() if f.local and f.argc == 2 and "proto::h1" in f.n and "tests" not in f.n and P.ty(f.locals[0][0]) == ("prim", "bool") and P.ty(f.locals[2][0]) == ("prim", "usize")
          and P.ty(f.locals[1][0])[0] == "ref" and P.ty(f.locals[1][0])[2][0] == "slice"]
    if len(fs) > 1: fs = [f for f in fs if not any(repr(f.id) in repr(g.blocks) for g in P.fns.values() if g.local and g.blocks and g.id != f.id and any(g.n.startswith(o.n) for o in fs if o is not f))]
    if len(fs) != 1: raise mir.AnchorError("quick scan for the end of a head: %s" % [f.n for f in fs])
    return fs[0]

def can(st, i, vals):
    """values of vals byte i may still have"""
    return value_set(st, byte(i))[0] & set(vals)

class Scan(Rec):
    def on_assert(self, e, st, term, c, want):
        v = st.val_int(c)
        if v is None or v != want: self.out.append((st, st.frames[-1].line))

def one(ctx, G, f, n, p):
    e = ctx.engine(rule=Scan(slice_handlers() + num_handlers(), limit=60))
    e.widen_from = 40; e.rule.out = []
    def died(e, st, c):
        ctx.check(False, G, "outside", "%s (%s) panics: %s: %d bytes, %d of them examined before" % (f.n, where(f.span), c.name, n, p))
    e.rule.handlers = [(lambda c, e, st: c.target is None, died)] + e.rule.handlers
    e.run(f, [cref(SL(0, n)), ("int", p)], facts={byte(i)[1]: ("rng", 0, 255, frozenset()) for i in range(n)})
    for st, l in e.rule.out: ctx.check(False, G, "outside", "%s (%s) panics at line %s: %d bytes, %d of them examined before" % (f.n, where(f.span), l, n, p))
    if e.rule.out: return []
    ctx.check(bool(e.finals), G, "end", "%s never returns for %d bytes" % (f.n, n))
    return [(s2, TRUE if b else FALSE) if st.val_int(v) is None and b is not None else (s2, v) for st, v in e.finals for b, s2 in (bools(e, st, v) if st.val_int(v) is None else [(None, st)])]

def verdict(ctx, G, f, n, p, st, v):
    b = st.val_int(v); ev = st.aut or ()
    t = "%d bytes, %d of them examined before, bytes %s" % (n, p, [(lambda s: min(s) if len(s) == 1 else "not " + "/".join(str(x) for x in (CR, LF) if x not in s) if len(s) < 256 else "any")(value_set(st, byte(i))[0]) for i in range(n)])
    ctx.check(not any(x[0] == "oob" for x in ev), G, "outside", "%s (%s) looks outside the buffer (panics): %s: %s" % (f.n, where(f.span), [x[1] for x in ev if x[0] == "oob"], t))
    if any(x[0] == "oob" for x in ev): return
    if b is None: ctx.bad("undecided", "the answer is not decided: %s: %s" % (show(v)[:60], t), G); return
    if b != 0: ctx.ok(G); return
    for j in range(max(p, 1), n):           # the last LF of the empty line
        if not can(st, j, (LF,)): continue
        two = bool(can(st, j - 1, (LF,)))
        three = j >= 2 and bool(can(st, j - 1, (CR,))) and bool(can(st, j - 2, (LF,)))
        ctx.check(not two and not three, G, "missed:%s" % ("LFLF" if two else "CRLF"), "%s (%s) says `not complete` although the head may end at byte %d: %s" % (f.n, where(f.span), j, t))

def scan(ctx, P):
    ctx.rule("the quick scan made when more of an incomplete head arrived, with any number of bytes already examined, for every content of the buffer: it never says `not complete` if an empty line (LF LF or LF CR LF) ends in the new bytes, and never looks outside the buffer")
    G = "quick scan"
    f = scanner(ctx, P)
    top = 7 if ctx.tier == "thorough" else 6
    for n in range(0, top + 1):
        try: rs = [(p, st, v) for p in range(0, n + 1) for st, v in one(ctx, G, f, n, p)]
        except Limit:
            if n < 5: raise
            ctx.rule("(buffers of %d bytes and more were too many cases)" % n); break
        for p, st, v in rs: verdict(ctx, G, f, n, p, st, v)
    ctx.floor(G, 200)

def entry(ctx, P):
    ctx.rule("a head is parsed whenever bytes are there, unless a quick scan of all of them, from what was examined before, found no empty line; the parser's answer is passed on as it is")
    G = "parsing entered"
    f = P.fn("proto::h1::role::parse_headers"); q = scanner(ctx, P)
    BUF = init("BUF"); L = init("BUF_LEN"); PREV = init("PREV")
    for prev in (NONE, some(PREV)):
        def h(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            if c.fn is not None and c.fn.id == q.id:
                v = [strip(e, st, x) for x in c.args]
                return [(TRUE, ("scan", True, v[0], v[1])), (FALSE, ("scan", False, v[0], v[1]))]
            if m == "parse" and (c.trait or "").endswith("Http1Transaction"):
                return [(ok(some(init("MSG"))), ("parse", "complete", strip(e, st, c.args[0]))), (ok(NONE), ("parse", "none", strip(e, st, c.args[0]))), (err(init("PARSE_ERR")), ("parse", "err", strip(e, st, c.args[0])))]
            if c.args and strip(e, st, c.args[0]) == BUF:
                if m == "is_empty": return [(e.compare(st, "Eq", L, I0, "usize"), None)]
                if m in ("len", "remaining"): return [(L, None)]
                if m in ("deref", "deref_mut", "as_ref", "chunk"): return [(c.args[0], None)]
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("buf", m))]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)] + num_handlers()))
        e.run(f, [mref("buf"), prev, parselib.ctx_value(P)], heap={cell("buf"): BUF, cell("cached"): NONE, cell("reqm"): NONE, cell("oninf"): NONE}, facts={L[1]: U63, PREV[1]: U63})
        for st, v in e.finals:
            ev = st.aut or ()
            t = "%s (%s), %s: [%s] -> %s" % (f.n, where(f.span), "first look" if prev == NONE else "looked at before", ", ".join(" ".join(map(str, x[:2])) for x in ev), show(v)[:80])
            for x in ev:
                if x[0] == "buf": ctx.bad("buf:" + x[1], "the buffer is changed outside the parser; " + t, G)
            sc = [x for x in ev if x[0] == "scan"]; ps = [x for x in ev if x[0] == "parse"]
            for x in sc: ctx.check(x[2] == BUF and x[3] == PREV, G, "scan-args", "the quick scan is given something else than all the bytes and the number examined before; " + t)
            if ps:
                ctx.check(len(ps) == 1 and ps[0][2] == BUF, G, "parse-args", "parsed is something else than the buffer; " + t)
                w = {"complete": ok(some(init("MSG"))), "none": ok(NONE)}.get(ps[0][1])
                ctx.check(v == w if w else is_adt(v, "Err") and init("PARSE_ERR")[1] in terms_in(v), G, "answer", "the parser's answer is changed; " + t)
            else:
                empty = le(st, L, I0)
                ctx.check(v == ok(NONE), G, "answer-skip", "something is returned without parsing; " + t)
                ctx.check(empty or any(x[1] is False for x in sc), G, "skipped", "bytes are there, but they are not parsed although nothing says the head is incomplete; " + t)
    ctx.floor(G, 8)

def loop(ctx, P):
    ctx.rule("how much was examined: the number passed on is that of the bytes in the buffer when the last attempt found the head incomplete, never more than are in the buffer now; it is forgotten when a head was parsed, and when the attempt used up the bytes")
    G = "examined bytes"
    B = P.adt("proto::h1::io::Buffered"); RS = P.adt("proto::h1::io::ReadStrategy")
    f = P.fn("Buffered::parse")
    P0 = init("EXAMINED"); NN = init("NREAD"); MAX, NEXT = init("MAX"), init("NEXT")
    strat = mk(P, RS, "Adaptive", decrease_now=FALSE, next=NEXT, max=MAX)
    def LN(k): return ("sym", T("buflen", k))
    for prev in (NONE, some(P0)):
        def on(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            k = sum(1 for x in (st.aut or ()) if x[0] in ("head", "read"))
            def nx(): st.facts.setdefault(LN(k + 1)[1], U63)
            if c.fn is not None and c.fn.local and m == "parse_headers" or m == "parse" and (c.trait or "").endswith("Http1Transaction"):
                if sum(1 for x in (st.aut or ()) if x[0] == "head") >= 3: return "stop"
                pv = next((e.snapshot(st, a) for a in c.args if a[0] == "adt" and a[1].endswith("option::Option")), None)
                def shrink(val):
                    def g(s):
                        s.facts.setdefault(LN(k + 1)[1], U63); s.facts.update(lt_facts([(LN(k + 1), LN(k))])); return val
                    return g
                return [(shrink(ok(some(init("MSG")))), ("head", "complete", pv, k)), (shrink(ok(NONE)), ("head", "none", pv, k)), (err(init("PARSE_ERR")), ("head", "err", pv, k))]
            if m == "poll_read_from_io":
                def data(s):
                    s.facts[LN(k + 1)[1]] = ("rng", 1, 2**63 - 1, frozenset()); s.facts.update(lt_facts([(add(LN(k), ("int", 1)), LN(k + 1)), (LN(k), LN(k + 1))]))
                    s.facts[NN[1]] = ("rng", 1, 2**63 - 1, frozenset()); return ready(ok(NN))
                def same_(val):
                    def g(s): s.facts.update(lt_facts([(LN(k), LN(k + 1)), (LN(k + 1), LN(k))])); s.facts.setdefault(LN(k + 1)[1], U63); return val
                    return g
                return [(same_(PENDING), ("read", "pending")), (same_(ready(err(init("IO_ERR")))), ("read", "err")), (same_(ready(ok(I0))), ("read", "eof")), (data, ("read", "data"))]
            if not c.args: return None
            p = recv_path(e, st, c)
            if p and "read_buf" in (fields_on(p) or ()) or recv(e, st, c) == init("READ_BUF"):
                L = LN(k); st.facts.setdefault(L[1], U63)
                if m in ("len", "remaining"): return [(L, None)]
                if m in ("is_empty", "has_remaining"): return [(e.compare(st, "Eq" if m == "is_empty" else "Lt", L if m == "is_empty" else I0, I0 if m == "is_empty" else L, "usize"), None)]
                if m in ("deref", "deref_mut", "as_ref", "as_mut"): return [(c.args[0], None)]
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("buf", m))]
            return None
        R = Rec([(lambda c, e, st: True, on), c20.ERRS] + num_handlers())
        e = ctx.engine(rule=R)
        facts = {LN(0)[1]: U63, P0[1]: U63, MAX[1]: U63, NEXT[1]: U63}; facts.update(lt_facts([(P0, LN(0)), (NEXT, MAX)]))
        e.run(f, [mref("self"), mref("cx"), parselib.ctx_value(P)], heap={cell("self"): mk(P, B["path"], read_buf=init("READ_BUF"), read_buf_strategy=strat, partial_len=prev), cell("cached"): NONE, cell("reqm"): NONE, cell("oninf"): NONE}, facts=facts)
        for st, v in [(s, x) for s, x in e.finals] + [(s, None) for s, c in R.stopped]:
            ev = [x for x in st.aut or () if x[0] in ("head", "read")]
            t = "%s (%s): [%s] returns %s" % (f.n, where(f.span), ", ".join(" ".join(map(str, x[:2])) for x in ev), "(goes on)" if v is None else show(v)[:80])
            def legal(x, at, first):
                """x examined bytes are known with LN(at) bytes in the buffer"""
                if is_adt(x, "None"): return True
                if not is_adt(x, "Some"): return None
                y = x[4][0]
                last = max([i for i, z in enumerate(ev[:at]) if z[:2] == ("head", "none")] or [-1])
                if last < 0: return y == P0 if first and prev != NONE else False
                return le(st, y, LN(last + 1)) and le(st, y, LN(at))
            for i, x in enumerate(ev):
                if x[0] == "head":
                    g = legal(x[2], i, True) if x[2] is not None else None
                    if g is None: ctx.bad("form", "how much was examined is not decided (%s); %s" % (show(x[2])[:60] if x[2] else x[2], t), G)
                    else: ctx.check(g, G, "passed", "more bytes than were examined, or than there are, count as examined (%s); %s" % (show(x[2])[:60], t))
            if v is None: continue
            x = fget(P, st, e.read(st, (cell("self"), ())), B, "partial_len", eng=e)
            if ev and ev[-1][:2] == ("head", "complete"): ctx.check(is_adt(x, "None"), G, "kept", "the bytes of a parsed head still count as examined in the next one (%s); %s" % (show(x)[:60], t))
            elif is_adt(v, "Pending"):
                g = legal(x, len(ev), True)
                ctx.check(bool(g), G, "stored", "more bytes than were examined, or than there are, are remembered (%s); %s" % (show(x)[:60], t))
    ctx.floor(G, 20)
    # nobody else changes it
    ctx.rule("nothing else sets how much was examined")
    n = 0
    for x in P.fns.values():
        if not x.local: continue
        for stmts, term, cl in x.blocks:
            for s in stmts:
                if s[0] == "=" and any(isinstance(q, (list, tuple)) and "partial_len" in q for q in s[1][1:] for q in ([q] if not isinstance(q, list) else [q] + [y for y in q if isinstance(y, (list, tuple))])):
                    n += 1
                    ctx.check(x.id == f.id or x.name == "new", "examined bytes: writers", "writer:" + x.n, "%s (%s) sets how much was examined" % (x.n, where(x.span)))

def interim(ctx, P):
    ctx.rule("after a skipped interim response the parser goes on with the bytes that follow it; it asks for more only if there are none or the parser found them incomplete")
    G = "bytes behind an interim response"
    for mname in ("Get", None):
        method = NONE if mname is None else some(c02.http_method(P, mname))
        L1 = init("REST_LEN")
        def rest(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            if not c.args: return None
            v = strip(e, st, c.args[0])
            if v != init("BUF"): return None
            after = any(x[0] == "split" for x in st.aut or ())
            L = L1 if after else init("WHOLE_LEN")
            st.facts.setdefault(L[1], U63)
            if m == "is_empty": return [(e.compare(st, "Eq", L, I0, "usize"), None)]
            if m in ("len", "remaining"): return [(L, None)]
            if m == "has_remaining": return [(e.compare(st, "Lt", I0, L, "usize"), None)]
            return None
        rs, R = responses(ctx, P, method, rest)
        for r in rs:
            if not r.get("split") or unwrap(r.v, "Ok") is None or not is_adt(unwrap(r.v, "Ok"), "None"): continue
            tx = r.text()
            ps = [i for i, x in enumerate(r.ev) if x[0] == "parse"]; sp = [i for i, x in enumerate(r.ev) if x[0] == "split"]
            again = ps and ps[-1] > sp[-1]
            ctx.check(again or le(r.st, L1, I0), G, "stalled", "an interim response was skipped and more bytes are there, but they are not parsed until yet more arrive: " + tx)
        for st, c in R.stopped: ctx.ok(G)
    ctx.floor(G, 4)

def responses(ctx, P, method, extra):
    old = parselib.handlers
    def hs(P_, classes, role): return [(lambda c, e, st: True, extra)] + old(P_, classes, role)
    parselib.handlers = hs
    try: return c02.responses(ctx, P, method, 1, ())
    finally: parselib.handlers = old

def run(ctx):
    P = ctx.prog()
    scan(ctx, P); entry(ctx, P); loop(ctx, P); interim(ctx, P)
