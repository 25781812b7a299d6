"""HTTP/2 receive window: released exactly for what was handed over."""
from rt import *
import c20
from clientlib import PIN
LEVEL = "other"
RX, DATA, BUF, FC, RERR = (init(x) for x in ("RECV_STREAM", "DATA", "BUFFERED", "FLOW_CONTROL", "RECV_ERR"))

def h2_recv(P):
    def once(st, *pat): return any(x[:len(pat)] == pat for x in (st.aut or ()))
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == RX:
            if m == "poll_data":
                if once(st, "data"): return "stop"
                return [(PENDING, ("data", "pending")), (ready(NONE), ("data", "end")), (ready(some(err(RERR))), ("data", "err")), (ready(some(ok(DATA))), ("data", "ok"))]
            if m == "poll_trailers": return [(PENDING, ("trailers", "pending")), (ready(ok(some(init("TRAILERS")))), ("trailers", "some")), (ready(ok(NONE)), ("trailers", "none")), (ready(err(RERR)), ("trailers", "err"))]
            if m == "flow_control": return [(("ref", (("B", "fc"), ()), 1), None)]
            if m == "is_end_stream": return [(TRUE, ("rx_eos", TRUE)), (FALSE, ("rx_eos", FALSE))]
        if r == FC:
            if m == "release_capacity": return [(ok(UNIT), ("release", c.args[1])), (err(init("FCERR")), ("release", c.args[1]))]
            return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("fc", m))]
        if m == "reason" and r == RERR:
            return [(some(("adt", "h2::Reason", 0, "Reason", (init("REASON_CODE"),))), None), (NONE, ("noreason",))]
        if m in ("record_data", "record_non_data") and c.fn is not None and c.fn.local: return [(UNIT, ("rec", m) + tuple(c.args[1:]))]
        return None
    return [(lambda c, e, st: True, h), c20.ERRS]

def lin_eq(a, b):
    la, lb = linear(norm(a)), linear(norm(b))
    return la is not None and lb is not None and not [y for y in lin_sub(la, lb).values() if y]
def norm(v): return v
def length(v): return ("sym", T("len", ("rf", v)))

def run(ctx):
    P = ctx.prog("a")
    ctx.rule("body reader: on every path that takes a chunk from an HTTP/2 stream exactly its length is released, once, and the chunk is the frame handed over; on every other path nothing is released")
    I = P.adt("body::incoming::Incoming"); K = P.adt("body::incoming::Kind")
    f = next((g for g in P.fns.values() if g.local and g.name == "poll_frame" and g.selfty is not None and "Incoming" in str(P.ty(g.selfty))), None) or P.trait_method(I["path"], "Body", "poll_frame")
    D = P.adt("body::length::DecodedLength")
    for done in (TRUE, FALSE):
        vi = K["vix"]["H2"]
        kind = ("adt", K["path"], vi, "H2", tuple({"data_done": done, "recv": RX, "content_length": ("adt", D["path"], 0, D["variants"][0][0], (init("CL"),))}.get(x[0], init("H2." + x[0])) for x in K["variants"][vi][2]))
        e = ctx.engine(rule=Rec(h2_recv(P)))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, I["path"], kind=kind), cell("fc"): FC})
        for st, v in e.finals + [(s, None) for s, c in e.rule.stopped]:
            ev = st.aut or ()
            t = "%s (%s): path [%s] %s" % (f.n, where(f.span), ", ".join(" ".join(show(y)[:60] if isinstance(y, tuple) else str(y) for y in x) for x in ev), "loops" if v is None else "returns " + show(v)[:120])
            rel = [x for x in ev if x[0] == "release"]
            if ("data", "ok") in ev:
                ctx.check(len(rel) == 1, "a consumed chunk is released once", "body-once", "the window of a chunk handed to the body's reader is %s; %s" % ("not returned" if not rel else "returned %d times" % len(rel), t))
                for x in rel: ctx.check(lin_eq(x[1], length(DATA)), "released exactly what was taken", "body-len", "the window returned (%s) is not the length of the chunk taken; %s" % (show(x[1]), t))
                fr = unwrap(v, "Ready", "Some", "Ok") if v is not None else None
                ctx.check(fr is not None and DATA[1] in terms_in(fr), "the chunk taken is handed over", "body-frame", "a chunk taken from the stream does not reach the reader; " + t)
            else: ctx.check(not rel, "nothing is released without a chunk", "body-none", "window is returned although no chunk was taken; " + t)
    for g, n in (("a consumed chunk is released once", 1), ("released exactly what was taken", 1), ("nothing is released without a chunk", 4)): ctx.floor(g, n)
    # ---- upgraded stream
    ctx.rule("tunnel reader: bytes copied to the caller, bytes dropped from the stored chunk and bytes released are the same number, at most the caller's room and the chunk's length; a chunk is taken only when none is stored, and stored")
    U = P.adt("proto::h2::upgrade::H2Upgraded")
    f = P.trait_method(U["path"], "Read", "poll_read")
    def rb(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == init("READBUF"):
            if m == "remaining": return [(e.typed(st, ("sym", T("room", r)), "usize"), None)]
            if m in ("put_slice", "put", "extend_from_slice"): return [(UNIT, ("put", e.snapshot(st, c.args[1])))]
            return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("readbuf", m))]
        if m in ("advance", "split_to", "split_off", "truncate", "clear") and r is not None and r in (BUF, DATA):
            if m == "advance": return [(UNIT, ("advance", r, c.args[1]))]
            if m == "split_to": return [(("sym", T("prefix", r, c.args[1])), ("advance", r, c.args[1]), )]
            return [(UNIT, ("cut", m, r))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, rb)] + h2_recv(P)))
    e.run(f, [PIN(mref("self")), mref("cx"), init("READBUF")], heap={cell("self"): mk(P, U["path"], recv_stream=RX, buf=BUF), cell("fc"): FC})
    for st, v in e.finals + [(s, None) for s, c in e.rule.stopped]:
        ev = st.aut or ()
        t = "%s (%s): path [%s] %s" % (f.n, where(f.span), ", ".join(" ".join(show(y)[:60] if isinstance(y, tuple) else str(y) for y in x) for x in ev), "loops" if v is None else "returns " + show(v)[:120])
        rel = [x for x in ev if x[0] == "release"]; put = [x for x in ev if x[0] == "put"]; adv = [x for x in ev if x[0] == "advance"]
        took = ("data", "ok") in ev
        src = DATA if took else BUF
        # stored chunk empty when a new one is taken
        lb = length(BUF)
        empty = entails_le(st, lb, ("int", 0)) or st.val_int(lb) == 0
        if any(x[0] == "data" for x in ev): ctx.check(empty, "a chunk is taken only when none is stored", "tunnel-over", "a new chunk is taken while bytes of the last one are still stored; " + t)
        if v is None:
            # loops: only for an empty chunk
            ld = length(DATA)
            ctx.check(not took or st.val_int(ld) == 0 or entails_le(st, ld, ("int", 0)), "a chunk is kept", "tunnel-skip", "a chunk that is not empty is skipped; " + t)
            continue
        if took or not any(x[0] == "data" for x in ev):
            ctx.check(len(put) == 1 and len(adv) == 1 and len(rel) == 1, "copied, dropped and released once", "tunnel-once", "bytes are not copied, dropped and released exactly once; " + t)
            if len(put) == 1 and len(adv) == 1 and len(rel) == 1:
                n = adv[0][2]
                ctx.check(adv[0][1] == src, "copied, dropped and released once", "tunnel-src", t)
                ctx.check(lin_eq(rel[0][1], n), "released exactly what was taken", "tunnel-rel", "the window returned (%s) is not what was consumed (%s); %s" % (show(rel[0][1]), show(n), t))
                ctx.check(slice_len(put[0][1], src, n), "released exactly what was taken", "tunnel-put", "what is copied to the caller is not the first %s bytes of the chunk; %s" % (show(n), t))
                ctx.check(le(st, n, length(src)) and le(st, n, ("sym", T("room", init("READBUF")))), "within the caller's room", "tunnel-room", "more than the caller's room (or the chunk) may be consumed; " + t)
            b = fget(P, st, e.read(st, (cell("self"), ())), U, "buf", eng=e)
            ctx.check(b == src, "the rest of the chunk is stored", "tunnel-store", "the rest of a chunk is not kept for the next read; " + t)
        else: ctx.check(not rel and not put, "nothing is released without a chunk", "tunnel-none", t)
    for g, n in (("copied, dropped and released once", 2), ("within the caller's room", 2), ("the rest of the chunk is stored", 2), ("a chunk is taken only when none is stored", 3)): ctx.floor(g, n)
    # ---- every place that takes data from a stream
    seen = set()
    for e in ctx._engs: seen |= e.fns_seen
    for g in P.fns.values():
        if not g.local: continue
        for b in g.blocks:
            t = b[1]
            if t and t[0] == "call" and isinstance(t[1], dict):
                n = P.short(t[1].get("n", ""))
                if n.startswith("h2::") and n.split("::")[-1] in ("poll_data", "data", "release_capacity"):
                    ctx.check(g.n in seen or g.id in seen, "takers of stream data analysed", "site:" + g.n, "%s takes HTTP/2 data (or returns window) but is not an analysed reader" % g.n)
    ctx.floor("takers of stream data analysed", 3)

def le(st, a, b):
    if entails_le(st, a, b): return True
    if a[0] == "sym":
        t = TERMS[a[1]]
        if t[0] == "call" and t[1] == "min": return any(x == b or le(st, x, b) for x in t[2:4])
    return False

def slice_len(v, src, n):
    """v denotes src[..n]"""
    k = 0
    while k < 12:
        k += 1
        if v[0] in ("rf",): v = v[1]; continue
        if v[0] != "sym": return False
        t = TERMS[v[1]]
        if t[0] == "deref": v = t[1]; continue
        if t[0] == "prefix": return t[1] == src and t[2] == n
        if t[0] in ("slice", "index", "call") :
            s = terms_in(v)
            return src[1] in s and (n[0] != "sym" or n[1] in s)
        return False
    return False
