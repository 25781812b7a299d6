"""An incomplete incoming body never looks complete."""
from rt import *
import c20, c30, connlib, displib
from clientlib import PIN
from displib import SENDER, SENDER2
LEVEL = "other"
WTX, DRX, TRX, CHUNK, CHERR, TRL = (init(x) for x in ("WANT_TX", "DATA_RX", "TRAILERS_RX", "CHUNK", "CHAN_ERR", "TRAILERS"))

def incoming(P):
    I = P.adt("body::incoming::Incoming"); K = P.adt("body::incoming::Kind")
    f = P.trait_method(I["path"], "Body", "poll_frame")
    return I, K, f

def kind(P, name, **fields):
    K = P.adt("body::incoming::Kind")
    vi = K["vix"][name]
    return ("adt", K["path"], vi, name, tuple(fields.get(x[0], init(name + "." + x[0])) for x in K["variants"][vi][2]))

def dlen(P, v):
    D = P.adt("body::length::DecodedLength")
    return ("adt", D["path"], 0, D["variants"][0][0], (v,))

def chan_recv():
    def had(st, *p): return any(x[:len(p)] == p for x in (st.aut or ()))
    def h(e, st, c):
        if not c.args: return None
        r, m = recv(e, st, c), c.mname
        if r == WTX and m == "send": return [(UNIT, ("want", c.args[1]))]
        if r == DRX:
            if m == "is_terminated":
                for x in reversed(st.aut or ()):
                    if x[0] == "term": return [(x[1], None)]
                return [(TRUE, ("term", TRUE)), (FALSE, ("term", FALSE))]
            if m == "poll_next":
                if had(st, "data"): return "stop"
                return [(PENDING, ("data", "pending")), (ready(NONE), ("data", "end")), (ready(some(err(CHERR))), ("data", "err")), (ready(some(ok(CHUNK))), ("data", "ok"))]
            if m in ("try_next", "try_recv", "close"): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("data", m))]
        if r == TRX:
            if m == "poll":
                return [(PENDING, ("trailers", "pending")), (ready(ok(TRL)), ("trailers", "ok")), (ready(err(init("CANCELED"))), ("trailers", "gone"))]
            if m in ("try_recv", "close"): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("trailers", m))]
        return None
    return [(lambda c, e, st: True, h)]

def text(f, st, v): return "%s (%s): path [%s] %s" % (f.n, where(f.span), ", ".join(" ".join(show(y)[:60] if isinstance(y, tuple) else str(y) for y in x) for x in st.aut or ()), "loops" if v is None else "returns " + show(v)[:140])
def is_none(v): return unwrap(v, "Ready") is not None and is_adt(unwrap(v, "Ready"), "None")
def errval(v): return unwrap(v, "Ready", "Some", "Err")

def chan_paths(ctx, P, cl=None, facts=None):
    I, K, f = incoming(P)
    e = ctx.engine(rule=Rec(chan_recv() + [c20.ERRS]))
    heap = {cell("self"): mk(P, I["path"], kind=kind(P, "Chan", content_length=dlen(P, cl or init("CL")), want_tx=WTX, data_rx=DRX, trailers_rx=TRX))}
    e.run(f, [PIN(mref("self")), mref("cx")], heap=heap, facts=facts)
    return f, e, e.finals + [(s, None) for s, c in e.rule.stopped]

def h2_paths(ctx, P, done, cl=None, facts=None):
    I, K, f = incoming(P)
    e = ctx.engine(rule=Rec(c30.h2_recv(P)))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, I["path"], kind=kind(P, "H2", data_done=done, recv=c30.RX, content_length=dlen(P, cl or init("CL")))), cell("fc"): c30.FC}, facts=facts)
    return f, e, e.finals + [(s, None) for s, c in e.rule.stopped]

def kfield(P, e, st, name, var):
    I = P.adt("body::incoming::Incoming"); K = P.adt("body::incoming::Kind")
    k = fget(P, st, e.read(st, (cell("self"), ())), I, "kind", eng=e)
    vi = K["vix"][var]
    i = [x[0] for x in K["variants"][vi][2]].index(name)
    if k[0] == "adt": return k[4][i]
    return e.project(st, e.project(st, k, ("v", vi)), ("f", i, name, None, None))

def run(ctx):
    P = ctx.prog("a")
    # ---- the reader's side, HTTP/1
    ctx.rule("channel body: each poll asks for data first; a chunk or an error received is what the reader gets; trailers are looked at only once the data ended; the end is reported only when the data ended and no trailers can come; Pending only when the channel was pending")
    f, e, fin = chan_paths(ctx, P)
    for st, v in fin:
        ev = st.aut or (); t = text(f, st, v)
        has = lambda *p: any(x[:len(p)] == p for x in ev)
        ended = has("data", "end") or has("term", TRUE) and not has("data")
        wi = [i for i, x in enumerate(ev) if x[0] == "want"]; fi = [i for i, x in enumerate(ev) if x[0] in ("data", "trailers") and x[1] in ("pending", "ok", "end", "err", "gone")]
        ctx.check(len(wi) == 1 and fi and wi[0] < fi[0], "data is asked for first", "chan-want", "the producer is not told that data is wanted before the channel is looked at; " + t)
        if has("data", "ok"): ctx.check(unwrap(v, "Ready", "Some", "Ok") is not None and CHUNK[1] in terms_in(v), "what was received is delivered", "chan-data", "a chunk that was received is not what the reader gets; " + t)
        if has("data", "err"): ctx.check(errval(v) is not None and CHERR[1] in terms_in(v), "what was received is delivered", "chan-err", "an error sent for the body does not reach the reader; " + t)
        if has("trailers"): ctx.check(ended, "trailers only after all data", "chan-order", "trailers are looked at although data may still come; " + t)
        if has("trailers", "ok"): ctx.check(unwrap(v, "Ready", "Some", "Ok") is not None and TRL[1] in terms_in(v), "what was received is delivered", "chan-trailers", "received trailers are not delivered; " + t)
        if v is not None and is_none(v): ctx.check(ended and has("trailers", "gone"), "the end is reported only at the end", "chan-end", "the end of the body is reported although data or trailers may still come; " + t)
        if v is not None and is_adt(v, "Pending"): ctx.check(has("data", "pending") or has("trailers", "pending"), "pending only when the channel is", "chan-pend", t)
        if has("data", "pending"): ctx.check(is_adt(v, "Pending"), "pending only when the channel is", "chan-pend2", "an empty channel is not waited for; " + t)
        if v is None: ctx.bad("chan-loop", "the reader may loop without delivering; " + t)
    for g, n in (("what was received is delivered", 4), ("trailers only after all data", 4), ("the end is reported only at the end", 2)): ctx.floor(g, n)
    # ---- HTTP/2
    ctx.rule("HTTP/2 body: the end is reported only after the data ended and the trailers were looked at (or the peer reset the stream with NO_ERROR, RFC 9113 8.1); every other stream error reaches the reader; trailers only once the data ended; once ended the data is not polled again")
    for done in (TRUE, FALSE):
        f, e, fin = h2_paths(ctx, P, done)
        for st, v in fin:
            ev = st.aut or (); t = text(f, st, v)
            has = lambda *p: any(x[:len(p)] == p for x in ev)
            ended = done == TRUE or has("data", "end")
            if done == TRUE: ctx.check(not has("data"), "data ends once", "h2-again", t)
            if has("trailers"): ctx.check(ended, "trailers only after all data", "h2-order", "trailers are looked at although data may still come; " + t)
            if has("data", "ok"): ctx.check(unwrap(v, "Ready", "Some", "Ok") is not None and c30.DATA[1] in terms_in(v), "what was received is delivered", "h2-data", "a chunk that was received is not what the reader gets; " + t)
            if has("trailers", "some"): ctx.check(unwrap(v, "Ready", "Some", "Ok") is not None and TRL[1] in terms_in(v), "what was received is delivered", "h2-trailers", "received trailers are not delivered; " + t)
            if v is None: ctx.bad("h2-loop", t); continue
            bad = has("data", "err") or has("trailers", "err")
            if bad:
                noerr = not has("noreason") and st.val_int(init("REASON_CODE")) == 0
                if not (noerr and is_none(v)): ctx.check(errval(v) is not None and c30.RERR[1] in terms_in(v), "a stream error reaches the reader", "h2-err:%s" % ("data" if has("data", "err") else "trailers"), "an error on the stream does not reach the reader of the body; " + t)
                else: ctx.ok("a stream error reaches the reader")
            elif is_none(v): ctx.check(ended and has("trailers", "none"), "the end is reported only at the end", "h2-end", "the end of the body is reported although data or trailers may still come; " + t)
            if has("data", "pending") or has("trailers", "pending"): ctx.check(is_adt(v, "Pending"), "pending only when the channel is", "h2-pend", t)
            elif is_adt(v, "Pending"): ctx.bad("h2-pend2", t)
            if has("data", "end"):
                d = kfield(P, e, st, "data_done", "H2")
                ctx.check(st.val_int(d) == 1 or d == TRUE, "the end of the data is remembered", "h2-done", "after the end of the data the body may poll for data again; " + t)
    ctx.floor("a stream error reaches the reader", 4)
    # ---- the connection's side
    ctx.rule("connection: a body being read stops being read only (a) in the body reader at the decoder's end or with an error given to the caller, or (b) in an operation that the dispatcher uses when the reader is gone or the connection is abandoned; the body reader reports the end only if the decoder is at its end")
    L = connlib.Lib(ctx)
    closers = {}
    for role in ("server", "client"):
        for g in L.ent:
            for r in ("Body", "Continue"):
                for w in connlib.WRITE:
                    for k in ("Busy", "Disabled"):      # reading a body the connection is never idle (C06)
                        if not connlib.allowed(g.name, role, r, w, k): continue
                        for t in L.run(g, role, r, w, k):
                            left = t.post[0] not in ("Body", "Continue")
                            if g.name == "poll_read_body":
                                fr = unwrap(t.ret, "Ready")
                                bodyended = t.has("deof", TRUE) or t.has("decode", "trailers")
                                key = "%s:%s->%s" % (role, t.pre[0], t.post[0])
                                if fr is None: ctx.check(not left, "reading stops at the end or with an error", "body-pend:" + key, "the body is given up while it is pending; " + t.text())
                                elif is_adt(fr, "None"): ctx.check(bodyended or t.has("decode", "other") or unreachable_empty(t), "the end is reported only at the end", "body-end:" + key, "the end of the body is reported although the framing did not say so; " + t.text())
                                elif is_adt(unwrap(fr, "Some"), "Err"): ctx.check(left and t.post[0] == "Closed", "reading stops at the end or with an error", "body-err:" + key, "reading continues after a broken body; " + t.text())
                                else: ctx.check(left == bool(bodyended), "reading stops at the end or with an error", "body-data:" + key, "%s; %s" % ("a body is given up before its end" if left else "a completed body is still read from", t.text()))
                                if t.has("decode", "err"): ctx.check(fr is not None and unwrap(fr, "Some", "Err") == init("DECODE_ERR"), "a decoding error reaches the dispatcher", "body-decerr:" + key, t.text())
                                if left and t.post[0] != "Closed" : ctx.check(bodyended, "reading stops at the end or with an error", "body-keep:" + key, t.text())
                            elif left: closers.setdefault(g.name, []).append(t)
    ctx.floor("reading stops at the end or with an error", 30)
    # ---- the dispatcher
    ctx.rule("dispatcher: the sender of a body is dropped without an error only when the connection reported the end of the body, delivered its last frame, or the receiver is gone; a decoding error is sent into the body; dropping the dispatcher itself sends an error; operations that give a body up are used only when its receiver is gone or the connection is closing")
    D = displib.Disp(ctx)
    fns = [g for g in P.fns.values() if g.local and g.argc and not g.coroutine and selfkind(P, g, D.A["path"]) and g.kind != "closure" ] if hasattr(next(iter(P.fns.values())), "kind") else [g for g in P.fns.values() if g.local and g.argc and not g.coroutine and selfkind(P, g, D.A["path"]) and "{closure" not in g.n]
    n = 0
    for g in fns:
        if g.name in ("poll_catch", "poll_inner", "poll_loop", "poll", "fmt", "poll_without_shutdown", "recv_msg"): 
            if g.name in ("fmt",): continue
        stub = [(nm, lambda e, st, c, nm=nm: "stop" if any(x[:2] == ("stub", nm) for x in st.aut or ()) else [(PENDING, ("stub", nm, "pending")), (ready(ok(UNIT)), ("stub", nm, "ok")), (ready(err(init("STUBERR"))), ("stub", nm, "err"))]) for nm in ("poll_read", "poll_write", "poll_flush", "poll_read_head") if nm != g.name]
        byval = P.ty(g.locals[1][0])[0] == "adt"
        if byval: continue
        if g.argc > 2 and g.name not in ("poll_catch", "poll_inner"): continue
        ea = (init("SHOULD_SHUTDOWN"),) if g.argc > 2 else ()
        role_s = ("server", "client")
        for role in role_s:
            try: paths = D.run(g, role=role, stub=stub, body_tx=True, extra_args=ea, watch=(SENDER, SENDER2), by_pin=is_pin(P, g)) if takes_cx(P, g) else None
            except Exception as x: ctx.bad("disp:" + g.name, "%s cannot be analysed: %s" % (g.n, x)); continue
            if paths is None: continue
            n += 1
            for p in paths:
                for i, x in enumerate(p.ev):
                    if x == ("dropped", SENDER):
                        pre = p.ev[:i]
                        told = any(y[:2] == ("tx", "send_error") for y in pre)
                        gone = any(y[0] == "tx" and y[2] == "err" for y in pre)
                        ended = any(y[:3] == ("op", "poll_read_body", "none") for y in pre)
                        if g.name == "poll_read_head": continue     # called only when a head can be read: an earlier body is over (checked below)
                        cannot = p.q_before(i, "can_read_body") == FALSE or p.q_before(i, "can_read_head") == TRUE
                        other = any(y[:3] == ("op", "poll_read_body", "other") for y in pre)      # not produced by the connection (checked above)
                        broke = any(y[:3] == ("op", "poll_read_body", "err") for y in pre)
                        ctx.check(told or gone or (ended or cannot or other) and not broke, "a sender is dropped only at the end", "drop:%s" % g.name, "the sender of a body is dropped, which looks like its end, although the body is not known to be complete; " + p.text())
                if p.has("op", "poll_read_body", "err"):
                    s = p.get("tx", "send_error")
                    ctx.check(len(s) == 1 and init("BODY_IO_ERR")[1] in terms_in(s[0][3]), "a decoding error is sent into the body", "senderr", "an error while reading the body is not sent to its reader; " + p.text())
                i = p.idx("stub", "poll_read_head")
                if i >= 0: ctx.check(p.q_before(i, "can_read_head") == TRUE, "a head is read only after the body", "head:" + g.name, "a head is read although a body may still be read; " + p.text())
                for k in ("data", "trailers"):
                    if p.has("op", "poll_read_body", k):
                        s = p.get("tx", "try_send_" + k)
                        ctx.check(len(s) == 1, "each frame is sent into the body", "send:" + k, "a received frame is not passed to the reader; " + p.text())
                        i = p.idx("tx", "try_send_" + k)
                        if s and s[0][2] == "ok":
                            # a body whose last frame was handed over is ended at once
                            q = [y[2] for y in p.ev[i:] if y[:2] == ("q", "can_read_body")]
                            dropped = any(y == ("dropped", SENDER) for y in p.ev[i:])
                            kept = p.tx() == some(SENDER)
                            if dropped or kept: ctx.check(dropped if q[:1] == [FALSE] else kept if q[:1] == [TRUE] else False, "a body ends with its last frame", "last:" + k, "after a frame was passed on the dispatcher does not look whether it was the last, so the reader may never see the end; " + p.text())
                for i, x in enumerate(p.ev):
                    if x[0] == "op" and x[1] in closers and x[1] != "poll_read_body":
                        pre = p.ev[:i]
                        gone = any(y[0] == "tx" and y[2] == "err" for y in pre)
                        notread = p.q_before(i, "can_read_body") == FALSE
                        closing = p.closing() == 1 or not p.again and p.has("disp", "poll_ready", "err")
                        ctx.check(gone or notread or closing or any(y[0] == "disp" and y[2] == "err" for y in pre) or g.name in ("close",) or p.has("disp", "recv_msg") or client_gone(p, i), "a body is given up only if nobody reads it", "giveup:%s:%s" % (g.name, x[1]), "the connection gives up a body that may still be read; " + p.text())
    ctx.floor("a sender is dropped only at the end", 4); ctx.floor("a decoding error is sent into the body", 1); ctx.floor("each frame is sent into the body", 2); ctx.floor("a body ends with its last frame", 2)
    # ---- drop of the dispatcher
    G = P.adt("proto::h1::dispatch::SenderDropGuard")
    drop = P.trait_method(G["path"], "Drop", "drop")
    e = ctx.engine(rule=displib.DRule(D.handlers() + [c20.ERRS], watch=(SENDER,)), drops=True)
    e.run(drop, [mref("self")], heap={cell("self"): mk(P, G["path"], **{G["variants"][0][2][0][0]: some(SENDER)})})
    for st, v in e.finals:
        s = [x for x in st.aut or () if x[:2] == ("tx", "send_error")]
        ctx.check(len(s) == 1, "dropping the dispatcher breaks the body", "guard", "a body in transfer ends cleanly when its connection is dropped; " + text(drop, st, v))
    ctx.floor("dropping the dispatcher breaks the body", 1)
    # senders of bodies are owned by nothing else
    S = P.adt("body::incoming::Sender")
    for a in P.adts.values():
        if not a.get("local", True) or a["path"] == G["path"]: continue
        for vn in a["variants"]:
            for fl in vn[2]:
                if has_adt(P, fl[1], S["path"]): ctx.bad("owner:" + a["path"], "%s holds a body sender without the guard that breaks the body when it is dropped" % a["path"])
    ctx.ok("body senders are guarded")

def unreachable_empty(t):
    """an empty data frame that is not the decoder's end: never produced (C04 'no empty frame before the end')"""
    return t.has("decode", "empty") and t.post[0] == "Closed"
def client_gone(p, i): return any(y[:2] == ("disp", "poll_ready") and y[2] == "err" for y in p.ev[:i])
def selfkind(P, f, path):
    t = P.ty(f.locals[1][0])
    if t[0] == "ref": t = t[2]
    if t[0] == "adt" and t[1].endswith("pin::Pin"): 
        t = t[2][0]
        if t[0] == "ref": t = t[2]
    return t[0] == "adt" and t[1] == path
def is_pin(P, f):
    t = P.ty(f.locals[1][0])
    return t[0] == "adt" and t[1].endswith("pin::Pin")
def takes_cx(P, f):
    t = P.ty(f.locals[1][0])
    return t[0] == "ref" and t[1] or is_pin(P, f)
def has_adt(P, t, path, d=0):
    t = P.ty(t) if isinstance(t, int) else t
    if d > 8 or not isinstance(t, tuple) or not t: return False
    if t[0] == "adt" and len(t) > 1 and t[1] == path: return True
    return any(has_adt(P, x, path, d + 1) for x in t if isinstance(x, tuple))
