"""I/O adapters forward every operation faithfully."""
from rt import *
LEVEL = "other"
RES = init("RESULT_OF_INNER")
READ, WRITE = ("poll_read",), ("poll_write", "poll_write_vectored", "poll_flush", "poll_shutdown", "is_write_vectored")
# not adapters: they are transports of their own (a tunnel inside HTTP/2, callbacks of the C API)
ENDPOINTS = ("proto::h2::upgrade::H2Upgraded", "ffi::io::hyper_io")
TRAITS = {"rt::io::Read": READ, "rt::io::Write": WRITE, "tokio::io::AsyncRead": READ, "tokio::io::AsyncWrite": WRITE}

def is_io(c): return (c.trait or "").split("::")[-1] in ("Read", "Write", "AsyncRead", "AsyncWrite") and c.mname in READ + WRITE

def inner(e, st, c):
    if not is_io(c): return None
    a = tuple(c.args[1:])
    root = rootref(e, st, c.args[0])
    return [(RES, ("io", c.mname, a, root))]

def place(v):
    """the place a reference leads to, however it was reborrowed"""
    if v[0] == "adt" and len(v[4]) == 1: return place(v[4][0])
    return v[1] if v[0] == "ref" else v

def rootref(e, st, v, d=0):
    """the place the receiver leads to: (cell, fields) """
    if v[0] == "adt" and v[3] in ("Pin",): return rootref(e, st, v[4][0], d)
    if v[0] == "ref": return v[1]
    return None

def run(ctx):
    for cfg in ("a", "b"): one_cfg(ctx, cfg)
    ctx.floor("operation forwarded unchanged", 30); ctx.floor("every operation is provided", 5)
    P = ctx.prog()
    default_vectored(ctx, P); compat_read(ctx, P); sendbuf(ctx, P)

def tyname(t):
    return t[1] if t[0] == "adt" else "&mut T" if t[0] == "ref" else str(t)

def one_cfg(ctx, cfg):
    P = ctx.prog(cfg)
    ctx.rule("every implementation of a reading or writing trait for a wrapper performs, on every path, exactly one operation: the one of the same name on the wrapped transport, with the caller's buffers, and returns its result unchanged")
    G, G2 = "operation forwarded unchanged", "every operation is provided"
    for tr, want in TRAITS.items():
        for im in P.impl_ix.get(tr, ()):
            t = P.ty(im["self"])
            n = tyname(t)
            if n in ENDPOINTS: continue
            miss = [m for m in want if m not in im["ix"]]
            ctx.check(not miss, G2, "provided:%s:%s" % (n, tr), "%s for %s does not forward %s: the default of the trait answers instead of the transport" % (tr, n, ", ".join(miss)))
            for m in want:
                it = im["ix"].get(m)
                if not it: continue
                if (n, m) in (("common::io::rewind::Rewind", "poll_read"), ("common::io::compat::Compat", "poll_read")): continue     # C25, below
                f = P.fns[it[2]]
                byref = m == "is_write_vectored"
                hp = {cell("self"): init("SELF")}
                args = [sref("self") if byref else ("adt", "std::pin::Pin", 0, "Pin", (mref("self"),))]
                rest = [] if byref else [mref("cx")] + [mref("buf") if m == "poll_read" else sref("buf")] * (f.argc - 2)
                hp[cell("buf")] = init("BUFFER")
                e = ctx.engine(cfg, rule=Rec([(lambda c, e, st: True, inner)]))
                e.run(f, args + rest, heap=hp)
                for st, v in e.finals:
                    ev = st.aut or ()
                    tx = "%s (%s) performs %s and returns %s" % (f.n, where(f.span), [(x[1], [show(a)[:20] for a in x[2]]) for x in ev], show(v)[:60])
                    k = "%s:%s" % (n, m)
                    if not ctx.check(len(ev) == 1, G, "once:" + k, "not exactly one operation on the transport: " + tx): continue
                    x = ev[0]
                    ctx.check(x[1] == m, G, "same:" + k, "a different operation of the transport is called: " + tx)
                    ctx.check(tuple(place(y) for y in x[2]) == tuple(place(y) for y in rest), G, "args:" + k, "the transport does not get the caller's context and buffer: " + tx)
                    ctx.check(v == RES, G, "result:" + k, "the transport's result is changed: " + tx)
                if not e.finals: ctx.check(False, G, "diverge:%s:%s" % (n, m), "%s never returns" % f.n)

def default_vectored(ctx, P):
    ctx.rule("the default vectored write hands one of the caller's buffers (the first with bytes in it) to the plain write and returns its result; without an override vectored writing is not claimed")
    f = P.fn("rt::io::Write::poll_write_vectored")
    BUFS, B1 = init("BUFS"), init("FIRST_NONEMPTY")
    def h(e, st, c):
        r = inner(e, st, c)
        if r: return r
        if c.args and c.mname == "iter" and recv(e, st, c) == BUFS: return [(init("BUFS_ITER"), ("iter",))]
        if c.mname == "find":
            clo = c.args[1]
            return [(some(sref("b1")), ("find", clo, True)), (NONE, ("find", clo, False))]
        if c.mname in ("deref", "as_ref") and c.args and recv(e, st, c) == B1: return [(("ref", (cell("b1bytes"), ()), 0), None)]
        return None
    G = "default vectored write"
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
    e.run(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx"), sref("bufs")], heap={cell("bufs"): BUFS, cell("b1"): B1, cell("b1bytes"): init("B1BYTES")})
    for st, v in e.finals:
        ev = st.aut or ()
        w = [x for x in ev if x[0] == "io"]; fd = [x for x in ev if x[0] == "find"]
        tx = "%s and returns %s" % ([(x[0],) + ((x[1], [show(a)[:30] for a in x[2]]) if x[0] == "io" else ()) for x in ev], show(v)[:40])
        ctx.check(len(w) == 1 and w[0][1] == "poll_write" and v == RES, G, "one-write", "not exactly one write, or its result is changed: " + tx)
        if fd and w:
            b = w[0][2][1]
            if fd[0][2]: ctx.check(init("B1BYTES")[1] in terms_in(b) or b[0] == "ref" and b[1][0] == cell("b1bytes"), G, "buffer", "what is written is not the buffer that was found: " + tx)
            # the search criterion: not empty
            clo = P.fns.get(fd[0][1][1]) if fd[0][1][0] == "clo" else None
            if clo is not None:
                def h2(e, st, c):
                    if c.mname in ("is_empty", "len") and c.args: return [(TRUE if c.mname == "is_empty" else ("int", 0), ("e", True)), (FALSE if c.mname == "is_empty" else ("int", 7), ("e", False))]
                    return None
                e2 = ctx.engine(rule=Rec([(lambda c, e, st: True, h2)]))
                e2.run(clo, [mref("clo"), sref("item")], heap={cell("clo"): fd[0][1], cell("item"): sref("b1"), cell("b1"): B1})
                for s2, v2 in e2.finals:
                    em = [x[1] for x in s2.aut or () if x[0] == "e"]
                    ctx.check(bool(em) and s2.val_int(v2) == (0 if em[0] else 1) or v2[0] == "bool" and em and v2[1] == (0 if em[0] else 1), G, "nonempty", "an empty buffer is picked, or one with bytes is passed over (empty %s gives %s)" % (em, show(v2)))
    ctx.floor(G, 4)
    f = P.fn("rt::io::Write::is_write_vectored")
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, inner)]))
    e.run(f, [sref("self")])
    for st, v in e.finals: ctx.check(v == FALSE, G, "claim", "a transport without vectored writes claims them by default")

def compat_read(ctx, P):
    ctx.rule("the adapter that reads through a borrowed part of another buffer hands the transport exactly that buffer's memory and fill state, and afterwards marks as filled and as initialised exactly what the transport reported")
    G = "read adapter"
    f = P.trait_method("common::io::compat::Compat", "AsyncRead", "poll_read")
    I0, F0, I1, F1 = init("INIT_BEFORE"), init("FILLED_BEFORE"), init("INIT_AFTER"), init("FILLED_AFTER")
    RB = P.adt("rt::io::ReadBuf")
    def h(e, st, c):
        m = c.mname
        r = recv(e, st, c) if c.args else None
        if r == init("TBUF"):
            if m == "initialized": return [(sref("s_init"), None)]
            if m == "filled": return [(sref("s_filled"), None)]
            if m in ("inner_mut",): return [(mref("raw"), None)]
            if m in ("assume_init", "set_filled", "advance", "clear", "put_slice", "initialize_unfilled"): return [(UNIT, ("t", m, e.as_int(c.args[1]) if len(c.args) > 1 else None))]
            return None
        if r == init("S_INIT") and m == "len": return [(I0, None)]
        if r == init("S_FILLED") and m == "len": return [(F0, None)]
        if m == "poll_read" and is_io(c):
            cur = c.args[2]
            p = cur[4][0][1] if cur[0] == "adt" and cur[4][0][0] == "ref" else None
            rb = e.read(st, p) if p else None
            seen = tuple(fget(P, st, rb, RB, x, eng=e) for x in ("raw", "filled", "init")) if rb else None
            def done(s):
                v = e.read(s, p)
                names = RB["variants"][0][1]
                e.write(s, (p[0], p[1] + (("f", RB["fix"][0]["filled"], "filled", None, None),)), F1)
                e.write(s, (p[0], p[1] + (("f", RB["fix"][0]["init"], "init", None, None),)), I1)
                return ready(ok(UNIT))
            return [(PENDING, ("io", "pending", seen, tuple(c.args[1:2]))), (ready(err(init("IOERR"))), ("io", "err", seen, tuple(c.args[1:2]))), (done, ("io", "ok", seen, tuple(c.args[1:2])))]
        return None
    R = ("rng", 0, 2**60, frozenset())
    facts = {x[1]: R for x in (I0, F0, I1, F1)}
    facts[T("cmp", "Lt", I1, I0)] = ("in", frozenset((0,))); facts[T("cmp", "Lt", F1, F0)] = ("in", frozenset((0,)))
    facts[T("cmp", "Lt", I0, F0)] = ("in", frozenset((0,))); facts[T("cmp", "Lt", I1, F1)] = ("in", frozenset((0,)))
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
    e.run(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx"), mref("tbuf")], heap={cell("self"): init("SELF"), cell("tbuf"): init("TBUF"), cell("s_init"): init("S_INIT"), cell("s_filled"): init("S_FILLED"), cell("raw"): init("RAW")}, facts=facts)
    for st, v in e.finals:
        ev = st.aut or ()
        io = [x for x in ev if x[0] == "io"]
        tm = [x for x in ev if x[0] == "t"]
        tx = "%s -> %s" % ([x[:2] + tuple(show(y)[:60] for y in x[2:3] if isinstance(y, tuple) and y and isinstance(y[0], str)) for x in ev], show(v)[:60])
        if not ctx.check(len(io) == 1, G, "once", "not exactly one read of the transport: " + tx): continue
        s = io[0][2]
        same = lambda a, b: linear(a) is not None and all(x == 0 for x in lin_sub(linear(a), linear(b)).values())
        mx = lambda v, b: same(v, b) or b[1] in terms_in(v)
        ctx.check(s is not None and s[0][0] == "ref" and s[0][1][0] == cell("raw") and mx(s[1], F0) and mx(s[2], I0), G, "view", "the transport is not given the caller's memory with its fill state (%s): %s" % ([show(x)[:50] for x in s] if s else None, tx))
        o = io[0][1]
        if o != "ok":
            ctx.check(not tm and (is_adt(v, "Pending") if o == "pending" else unwrap(v, "Ready", "Err") == init("IOERR")), G, o, "a %s read changes the buffer or is reported differently: %s" % (o, tx))
            continue
        ctx.check(unwrap(v, "Ready", "Ok") is not None, G, "ok", tx)
        sf = [x for x in tm if x[1] == "set_filled"]
        ctx.check(len(sf) == 1 and same(sf[0][2], F1) and tm[-1] is sf[0], G, "filled", "the filled part is not what the transport left: " + tx)
        ai = [x for x in tm if x[1] == "assume_init"]
        # assume_init counts from the filled part: F0 + n must not exceed what is initialised
        ok_ = all(entails_le(st, ("sym", T("bin", "Add", F0, x[2])), I1) or lin_ok(st, lin_sub(lin_add(linear(F0), linear(x[2])), linear(I1))) for x in ai)
        ctx.check(ok_ and not [x for x in tm if x[1] not in ("set_filled", "assume_init")], G, "init", "more is declared initialised than the transport initialised: " + tx)
    ctx.floor(G, 8)

def lin_add(a, b):
    r = dict(a)
    for k, y in b.items(): r[k] = r.get(k, 0) + y
    return r
def lin_ok(st, g):
    ks = known_le0(st)
    if set(k for k, y in g.items() if y) <= {1}: return g.get(1, 0) <= 0
    for f in ks:
        d = lin_sub(g, f)
        if set(k for k, y in d.items() if y) <= {1} and d.get(1, 0) <= 0: return True
    return False

def sendbuf(ctx, P):
    ctx.rule("the HTTP/2 send buffer forwards length, front, advance and vectored reads to the variant it holds, and is empty when it holds none")
    G = "HTTP/2 send buffer"
    A = P.adt("proto::h2::SendBuf")
    for m in ("remaining", "chunk", "advance", "chunks_vectored"):
        f = P.trait_method(A["path"], "Buf", m)
        for vn, vi in A["vix"].items():
            nf = len(A["fix"][vi])
            v0 = ("adt", A["path"], vi, vn, (init("INNER"),) if nf else ())
            def h(e, st, c):
                if c.mname in ("remaining", "chunk", "advance", "chunks_vectored", "copy_to_bytes", "has_remaining") and (c.trait or "").split("::")[-1] == "Buf" and recv(e, st, c) == init("INNER"):
                    return [(RES if c.mname != "advance" else UNIT, ("buf", c.mname, tuple(c.args[1:])))]
                return None
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
            rest = [init("CNT")] if m == "advance" else [mref("dst")] if m == "chunks_vectored" else []
            e.run(f, [mref("self") if m == "advance" else sref("self")] + rest, heap={cell("self"): v0})
            for st, v in e.finals:
                ev = st.aut or ()
                tx = "%s of %s performs %s and returns %s" % (m, vn, [x[1] for x in ev], show(v)[:40])
                if nf: ctx.check(len(ev) == 1 and ev[0][1] == m and ev[0][2] == tuple(rest) and (v == (UNIT if m == "advance" else RES) or m == "chunk" and v[0] == "ref" and v[1] == (("H", RES[1]), ())), G, "%s:%s" % (m, vn), "not forwarded: " + tx)
                else: ctx.check(not ev and (m == "advance" or v == ("int", 0) or m == "chunk" and empty(e, st, v)), G, "%s:%s" % (m, vn), "an absent buffer is not empty: " + tx)
    ctx.floor(G, 12)

def empty(e, st, v):
    n = 0
    while v[0] == "ref" and n < 4: v = e.read(st, v[1]); n += 1
    return v in (("arr", ()), ("bytes", ()), ("tup", ()), ("str", "")) or "[]" in show(v)
