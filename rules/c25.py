"""Bytes kept back come first, once, and intact."""
from rt import *
LEVEL = "other"
def zero_lin(l): return l is not None and all(y == 0 for y in l.values())
INNER, RES, BUFCUR = init("TRANSPORT"), init("RESULT_OF_TRANSPORT"), init("CURSOR")
L, R = init("PREFIX_LEN"), init("ROOM")

def by(s, e): return ("adt", "bytes::Bytes", 0, "Bytes", (s, e))
def isb(v): return v is not None and v[0] == "adt" and v[1] == "bytes::Bytes"
I0 = ("int", 0)
EMPTY = by(I0, I0)

def add(a, b):
    if a[0] == "int" and b[0] == "int": return ("int", a[1] + b[1])
    if a == I0: return b
    if b == I0: return a
    return ("sym", T("bin", "Add", a, b))
def sub(a, b):
    l = lin_sub(linear(a), linear(b))
    if all(y == 0 for y in l.values()): return I0
    if a[0] == "int" and b[0] == "int": return ("int", a[1] - b[1])
    if b == I0: return a
    return ("sym", T("bin", "Sub", a, b))

def le(st, a, b):
    """a <= b on every concrete value of this path"""
    if entails_le(st, a, b): return True
    g = {k: y for k, y in lin_sub(linear(a), linear(b)).items() if y}
    if not [k for k in g if k != 1]: return g.get(1, 0) <= 0
    for f in known_le0(st):
        d = {k: y for k, y in lin_sub(g, f).items() if y}
        if not [k for k in d if k != 1] and d.get(1, 0) <= 0: return True
    return False

def is_empty(e, st, b):
    """[(bool, state)]"""
    s, x = b[4]
    if zero_lin(lin_sub(linear(s), linear(x))): return [(1, st)]
    if le(st, add(s, ("int", 1)), x): return [(0, st)]
    if le(st, x, s): return [(1, st)]
    return bools(e, st, e.compare(st, "Eq", s, x, "usize"))

def handler(cursor):
    """the operations of `bytes::Bytes` on (start, end) pairs, and of the caller's cursor"""
    def h(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if m in ("min", "max") and len(c.args) == 2 and c.args[0][0] in ("sym", "int") and c.args[1][0] in ("sym", "int"):
            a, b = c.args
            out = []
            for k, s in bools(e, st, e.compare(st, "Le", a, b, "usize")):
                out += e.finish(s, c.dest, c.target, a if bool(k) == (m == "min") else b)
            return ("states", out)
        if not c.args:
            if c.name.endswith("Bytes::new") or m == "default" and "Bytes" in str(c.targs): return [(EMPTY, None)]
            return None
        r = recv(e, st, c)
        p = recv_path(e, st, c)
        if m == "poll_read" and (c.trait or "").split("::")[-1] == "Read":
            return [(RES, ("inner", r, tuple(c.args[1:])))]
        if r == cursor:
            if m == "remaining": return [(R, None)]
            if m == "has_remaining" or m == "has_remaining_mut": return [(("sym", T("cmp", "Lt", I0, R)), None)]
            if m == "put_slice":
                v = recv(e, st, c, 1)
                return [(UNIT, ("put", v))]
            return None
        if not isb(r): return None
        s, x = r[4]
        def upd(v):
            def f(st2, ret):
                e.write(st2, p, v); return ret
            return f
        if m in ("len", "remaining"): return [(sub(x, s), None)]
        if m in ("is_empty", "has_remaining"):
            out = []
            for k, s2 in is_empty(e, st, r): out += e.finish(s2, c.dest, c.target, TRUE if bool(k) == (m == "is_empty") else FALSE)
            return ("states", out)
        if m in ("deref", "as_ref", "borrow", "chunk", "as_slice"): return [(("ref", p, 0), None)]
        if m in ("clone", "freeze", "into", "from"): return [(r, None)]
        if m in ("index", "slice", "get", "get_unchecked"):
            rg = c.args[1]
            n = rg[1].split("::")[-1] if rg[0] == "adt" else None
            if n == "RangeTo": a, b = s, add(s, rg[4][0])
            elif n == "Range": a, b = add(s, rg[4][0]), add(s, rg[4][1])
            elif n == "RangeFrom": a, b = add(s, rg[4][0]), x
            elif n == "RangeFull": a, b = s, x
            else: return None
            v = by(a, b)
            if m == "slice": return [(v, ("need", b, x))]
            def f(st2):
                k = cell("slice:" + repr(v))
                e.write(st2, (k, ()), v)
                return ("ref", (k, ()), 0)
            return [(f, ("need", b, x))]
        if m in ("advance", "split_to", "copy_to_bytes"):
            n = c.args[1]
            mid = add(s, n)
            def f(st2):
                e.write(st2, p, by(mid, x)); return UNIT if m == "advance" else by(s, mid)
            return [(f, ("need", mid, x))]
        if m == "split_off":
            mid = add(s, c.args[1])
            def f(st2):
                e.write(st2, p, by(s, mid)); return by(mid, x)
            return [(f, ("need", mid, x))]
        if m == "truncate":
            return [(lambda st2: (e.write(st2, p, by(s, add(s, c.args[1]))), UNIT)[1], ("need", add(s, c.args[1]), x))]
        if m == "clear": return [(lambda st2: (e.write(st2, p, by(x, x)), UNIT)[1], None)]
        return None
    return h

def run(ctx):
    P = ctx.prog()
    A = P.adt("common::io::rewind::Rewind")
    f = P.trait_method(A["path"], "Read", "poll_read")
    ctx.rule("reading while bytes are kept back delivers min(kept, room) of them from the front and keeps exactly the rest; the transport is read only when none are kept, and then its result is returned unchanged")
    RNG = ("rng", 0, 2**60, frozenset())
    G1, G2, G3 = "kept bytes come first", "the rest is kept", "transport only when nothing is kept"
    for kind, pre in (("absent", NONE), ("empty", some(EMPTY)), ("some", some(by(I0, L)))):
        facts = {R[1]: RNG, L[1]: ("rng", 1, 2**60, frozenset())}
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, handler(BUFCUR))]))
        e.run(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx"), BUFCUR], heap={cell("self"): mk(P, A["path"], pre=pre, inner=INNER)}, facts=facts)
        for st, v in e.finals:
            ev = st.aut or ()
            put = [x for x in ev if x[0] == "put"]; inn = [x for x in ev if x[0] == "inner"]
            me = e.read(st, (cell("self"), ()))
            rest = fget(P, st, me, A, "pre", eng=e)
            tx = "kept %s: %s, leaves %s, returns %s" % (kind, [(x[0],) + tuple(show(y)[:40] for y in x[1:] if isinstance(y, tuple) and y and isinstance(y[0], str)) for x in ev], show(rest)[:60], show(v)[:40])
            for x in ev:
                if x[0] == "need": ctx.check(le(st, x[1], x[2]), G1, "in-bounds", "more bytes are taken than are kept: " + tx)
            rb = rest[4][0] if is_adt(rest, "Some") else EMPTY
            if not ctx.check(is_adt(rest, "None") or isb(rb), G2, "known", "what is kept afterwards is not derived from what was kept: " + tx): continue
            if kind != "some":
                left = [k for k, _ in is_empty(e, st.fork(), rb)]
                ctx.check(len(inn) == 1 and not put and v == RES and inn[0][1] == INNER and inn[0][2][-1] == BUFCUR and left == [1], G3, "plain-read:" + kind, "a read with nothing kept is not a plain read of the transport: " + tx)
                continue
            ctx.check(not inn, G3, "early-read", "the transport is read while bytes are kept back: " + tx)
            pos = I0; okk = True
            for x in put:
                b = x[1]
                if not isb(b) or not zero_lin(lin_sub(linear(b[4][0]), linear(pos))): okk = False; break
                pos = b[4][1]
            if not ctx.check(okk, G1, "from-front", "what is delivered is not the front of what is kept: " + tx): continue
            ctx.check(le(st, pos, R) and le(st, pos, L), G1, "room", "more is delivered than the caller has room for: " + tx)
            same = lambda a, b: zero_lin(lin_sub(linear(a), linear(b))) or le(st, a, b) and le(st, b, a)
            ctx.check(same(pos, L) or same(pos, R), G1, "as-much-as-fits", "fewer bytes are delivered than are kept and fit (none at all reads as end of file): " + tx)
            ctx.check(unwrap(v, "Ready", "Ok") is not None, G1, "ready", "kept bytes were delivered but the read is not reported: " + tx)
            if is_adt(rest, "None") or zero_lin(lin_sub(linear(rb[4][0]), linear(rb[4][1]))): ctx.check(same(pos, L), G2, "dropped", "kept bytes that were not delivered are dropped: " + tx)
            else: ctx.check(same(rb[4][0], pos) and same(rb[4][1], L), G2, "rest", "what is kept afterwards is not what was not delivered: " + tx)
    ctx.floor(G1, 6); ctx.floor(G2, 2); ctx.floor(G3, 3)
    parts(ctx, P, A)

def parts(ctx, P, A):
    ctx.rule("wrapping stores exactly the given bytes and transport; taking the wrapper (or the upgraded connection) apart returns the transport and exactly the bytes not yet delivered, and a failed downcast keeps both")
    G = "wrapping and unwrapping"
    KEPT = by(init("FROM"), init("TO"))
    U = P.adt("upgrade::Upgraded")
    def h(e, st, c):
        if c.mname and c.mname.endswith("downcast") and c.args and c.args[0] == INNER: return [(ok(init("CONCRETE")), ("dc", True)), (err(init("SAME_IO")), ("dc", False))]
        if (c.name.endswith("Box::<T>::new") or c.name.endswith("Box::new")): return [(c.args[0], None)]
        return None
    def eng(): return ctx.engine(rule=Rec([(lambda c, e, st: True, h), (lambda c, e, st: True, handler(BUFCUR))]))
    def rw(e, st, v): return fget(P, st, v, A, "pre", eng=e), fget(P, st, v, A, "inner", eng=e)
    def holds(pre, b, what, tx):
        ctx.check(is_adt(pre, "Some") and pre[4][0] == b or is_adt(pre, "None") and b == EMPTY, G, what, "the bytes kept back are lost or changed: " + tx)
    f = P.fn("rewind::Rewind::<T>::new_buffered")
    for b in (KEPT, EMPTY):
        e = eng(); e.run(f, [INNER, b])
        for st, v in e.finals:
            p, i = rw(e, st, v); tx = "%s returns %s" % (f.n, show(v)[:80])
            if b == EMPTY and is_adt(p, "None"): pass
            else: holds(p, b, "new_buffered", tx)
            ctx.check(i == INNER, G, "new_buffered-io", tx)
    f = P.fn("rewind::Rewind::<T>::into_inner")
    for pre, b in ((NONE, EMPTY), (some(KEPT), KEPT)):
        e = eng(); e.run(f, [mk(P, A["path"], pre=pre, inner=INNER)])
        for st, v in e.finals:
            ctx.check(v[0] == "tup" and v[1][0] == INNER and v[1][1] == b, G, "into_inner", "taking the wrapper apart with %s kept returns %s" % (show(pre)[:40], show(v)[:80]))
    f = P.fn("upgrade::Upgraded::new")
    e = eng(); e.run(f, [INNER, KEPT])
    for st, v in e.finals:
        io = fget(P, st, v, U, "io", eng=e)
        p, i = rw(e, st, io)
        holds(p, KEPT, "upgraded-new", "Upgraded::new returns " + show(v)[:100])
        ctx.check(INNER[1] in terms_in(i), G, "upgraded-new-io", "Upgraded::new returns " + show(v)[:100])
    f = P.fn("upgrade::Upgraded::downcast")
    for pre, b in ((NONE, EMPTY), (some(KEPT), KEPT)):
        e = eng(); e.run(f, [mk(P, U["path"], io=mk(P, A["path"], pre=pre, inner=INNER))])
        seen = set()
        for st, v in e.finals:
            dc = [x[1] for x in st.aut or () if x[0] == "dc"]
            tx = "downcast %s returns %s" % (dc, show(v)[:120])
            if not ctx.check(len(dc) == 1, G, "downcast-once", tx): continue
            seen.add(dc[0])
            if dc[0]:
                x = unwrap(v, "Ok")
                PA = P.adt("upgrade::Parts")
                ctx.check(x is not None and fget(P, st, x, PA, "read_buf", eng=e) == b and init("CONCRETE")[1] in terms_in(fget(P, st, x, PA, "io", eng=e)), G, "downcast-ok", "the parts are not the transport and the bytes kept back: " + tx)
            else:
                x = unwrap(v, "Err")
                if not ctx.check(x is not None, G, "downcast-err", tx): continue
                p, i = rw(e, st, fget(P, st, x, U, "io", eng=e))
                holds(p, b, "downcast-err", tx) if not (b == EMPTY and is_adt(p, "None")) else None
                ctx.check(i == init("SAME_IO"), G, "downcast-err-io", tx)
        ctx.check(seen == {True, False}, G, "downcast-both", "downcast was not analysed for both outcomes")
    ctx.floor(G, 14)
