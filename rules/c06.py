"""Connection persistence: Connection options, versions, local keep-alive."""
from rt import *
import parselib, c01, c02, connlib, hdrlib
from parselib import run_parse
LEVEL = "other"

def version(P, n):
    """the http::Version constant 'Http10' / 'Http11' / 'H2'"""
    v, i = P.adt("http::Version"), next(a for p, a in P.adts.items() if p.endswith("version::Http"))
    return ("adt", v["path"], 0, v["variants"][0][0], (("adt", i["path"], i["vix"][n], n, ()),))

def judge(ctx, P, r, who):
    p = c01.parsed(P, r)
    if p is None: return
    L = [i for i, n in r.lines() if n == "connection"]
    close = [r.has(r.hval(i), "close") for i in L]; keep = [r.has(r.hval(i), "keep-alive") for i in L]
    ka = r.st.val_int(p["keep_alive"]); v11 = r.outcome() == "v11"; tx = "%s %s" % (who, r.text())
    G = "persistence of received messages"
    if ka is None: ctx.bad("undecided", "whether the connection is kept is not decided: " + tx, G)
    elif ka:
        ctx.check(all(c is False for c in close), G, "close-ignored:" + who, "the connection is kept although a Connection line may say close: " + tx)
        ctx.check(v11 or any(keep), G, "http10-kept:" + who, "an HTTP/1.0 connection is kept without a Connection: keep-alive: " + tx)
    else:
        why = any(close) or not v11 and not any(keep) or r.st.val_int(p["upgrade"]) == 1
        ctx.check(bool(why), G, "closed:" + who, "the connection is not kept although nothing asks to close it: " + tx)

def run(ctx):
    P = ctx.prog()
    ctx.rule("a received message keeps the connection exactly if no Connection line lists close and it is HTTP/1.1 or some Connection line lists keep-alive (items trimmed, case-insensitive)")
    cap = 3 if ctx.tier == "thorough" else 2
    rs, R = run_parse(ctx, "Server", ["connection"], cap=cap, limit=200)
    if R.stopped: raise mir.AnchorError("request parser paths stopped")
    for r in rs: judge(ctx, P, r, "request")
    rs, R = c02.responses(ctx, P, some(c02.http_method(P, "Get")), cap, ["connection"])
    for r in rs: judge(ctx, P, r, "response")
    def with_other(n):
        for r in run_parse(ctx, "Server", ["connection", n], cap=2)[0]: judge(ctx, P, r, "request")
        for r in c02.responses(ctx, P, some(c02.http_method(P, "Get")), 2, ["connection", n])[0]: judge(ctx, P, r, "response")
    ctx.par([lambda n=n: with_other(n) for n in parselib.STD if n != "connection"] + [lambda: conn(ctx, P), lambda: outgoing(ctx, P)])
    ctx.floor("persistence of received messages", 40)

def outgoing(ctx, P):
    import c11, enclib
    ctx.rule("a response whose Connection lines list close anywhere is marked as the last message, and so is one on a connection that is not kept")
    for ver in ("Http11", "Http10"):
        for body in ("known", "unknown"):
            for r in enclib.encode(ctx, P, "Get", ver, body, ["connection", "other"], maxl=2, maxv=2): c11.reuse(ctx, P, r)
    ctx.floor("last message", 40)

CONN_HDR = "connection"
def conn(ctx, P):
    L = connlib.Lib(ctx)
    fns = {f.name: f for f in L.ent}
    M = P.adt("proto::h1::ParsedMessage"); Hd = P.adt("proto::MessageHead")
    ctx.rule("a parsed message that does not keep the connection disables keep-alive for good; the peer's version is recorded")
    G = "what a parsed head does to the connection"
    f = fns["poll_read_head"]
    for role in ("server", "client"):
        for w in connlib.WRITE:
            for k in connlib.KA:
                if not connlib.allowed(f.name, role, "Init", w, k): continue
                for t in L.run(f, role, "Init", w, k):
                    if not t.has("parse", "ok"): continue
                    ka = t.st.val_int(fget(P, t.st, connlib.MSG, M, "keep_alive", eng=t.e))
                    ctx.check(ka is not None and (ka == 1 or t.post[2] == "Disabled"), G, "msg-close:%s" % role, "a message that ends reuse (keep_alive=%s) does not disable keep-alive: %s" % (ka, t.text()))
                    if ka == 1 and k != "Disabled": ctx.check(t.post[2] != "Disabled" or t.post[0] == "Closed", G, "msg-keep:%s" % role, "a message that keeps the connection disables keep-alive: " + t.text())
                    want = fget(P, t.st, fget(P, t.st, connlib.MSG, M, "head", eng=t.e), Hd, "version", eng=t.e)
                    ctx.check(t.sf("version") == want, G, "version:%s" % role, "the peer's version is not recorded (%s): %s" % (show(t.sf("version"))[:40], t.text()))
    ctx.floor(G, 20)
    ctx.rule("disabled keep-alive stays disabled under every operation")
    for role in ("server", "client"):
        for f in L.ent:
            for r in connlib.READ:
                for w in connlib.WRITE:
                    if not connlib.allowed(f.name, role, r, w, "Disabled"): continue
                    for t in L.run(f, role, r, w, "Disabled"):
                        ctx.check(t.post[2] == "Disabled", "disabled stays disabled", "revived:%s:%s" % (role, f.name), "keep-alive is enabled again: " + t.text())
    ctx.floor("disabled stays disabled", 300)
    heads(ctx, P, L, fns)

def is_conn(P, v):
    return v is not None and v[0] == "str" and v[1].lower() == CONN_HDR or hname_is(v)
def hname_is(v):
    return "Connection" in repr(v)

def lit(v):
    """the constant text of a header value"""
    if v is None: return None
    if v[0] == "str": return v[1].lower()
    if v[0] in ("rf",): return lit(v[1])
    for i in terms_in(v):
        t = TERMS[i]
        if t[0] == "call" and t[1].endswith("from_static") and t[2][0] == "str": return t[2][1].lower()
    return None

def heads(ctx, P, L, fns):
    ctx.rule("before a head is written: a client request with close, or an HTTP/1.0 answer without keep-alive, disables keep-alive; with keep-alive disabled an HTTP/1.1 peer is told close; an HTTP/1.0 peer is told keep-alive and never in place of a close; the head's version is at most the peer's")
    E = P.adt("proto::h1::Encode"); Hd = P.adt("proto::MessageHead")
    G = "heads about to be written"
    for role in ("server", "client"):
        for vn in ("Http10", "Http11"):
            for nm in ("write_head", "write_full_msg"):
                if nm not in fns: continue
                for r in connlib.READ:
                    for k in connlib.KA:
                        if not connlib.allowed("write_head", role, r, "Init", k): continue
                        for t in L.run(fns[nm], role, r, "Init", k, over={"version": version(P, vn)}):
                            head_judge(ctx, P, t, role, vn, E, Hd, G, k)
    ctx.floor(G, 60)

def head_judge(ctx, P, t, role, vn, E, Hd, G, k):
    ix = next((i for i, x in enumerate(t.ev) if x[0] == "encode_head"), None)
    if ix is None: return
    ev = t.ev[:ix]; arg = t.ev[ix][2]
    ka = t.st.val_int(fget(P, t.st, arg, E, "keep_alive", eng=t.e))
    ins = [x[3] for x in ev if x[0] == "hmap" and x[1] in ("insert", "append") and hname_is(x[2])]
    said = [lit(v) for v in ins]
    q = lambda n, v: any(x[0] == n and x[1] == v for x in ev)
    tx = "peer version %s, %s" % (vn, t.text())
    any_close = q("connection_any_close", TRUE)
    if role == "client":
        ctx.check(q("connection_any_close", TRUE) or q("connection_any_close", FALSE), G, "asked", "a request is written without looking for close in its Connection lines: " + tx)
        if any_close: ctx.check(t.post[2] == "Disabled" and ka in (0, None), G, "req-close", "a request with Connection: close leaves the connection reusable: " + tx)
    if ka is None: ctx.bad("ka", "the keep-alive passed to the head encoder is not decided: " + tx, G); return
    ctx.check(ka == 1 or t.post[2] == "Disabled", G, "ka-state", "the head is written as a last one on a connection that stays reusable: " + tx)
    if k == "Disabled": ctx.check(ka == 0, G, "ka-disabled", "keep-alive is disabled but the head is written as if it was not: " + tx)
    if vn == "Http11":
        ctx.check(ka == 1 or "close" in said, G, "say-close", "an HTTP/1.1 peer is not told that the connection closes: " + tx)
        ctx.check(not (ka == 1 and ins), G, "say-nothing", "a Connection header is put on a message of a kept connection: " + tx)
    else:
        hk = q("connection_keep_alive", TRUE)
        ctx.check(ka == 0 or hk or "keep-alive" in said or role == "server" and q("connection_any_close", TRUE), G, "say-keep-alive", "a connection to an HTTP/1.0 peer is kept without the message saying keep-alive: " + tx)
        if "keep-alive" in said:
            ctx.check(q("connection_any_close", FALSE), G, "close-replaced", "keep-alive is said in place of what may be a Connection: close of the message: " + tx)
            ctx.check(ka == 1, G, "keep-alive-said", "keep-alive is said although it is disabled: " + tx)
        h = fget(P, t.st, arg, E, "head", eng=t.e)
        n = 0
        while h[0] in ("ref", "rf") and n < 4: h = t.e.read(t.st, h[1]) if h[0] == "ref" else h[1]; n += 1
        v = fget(P, t.st, h, Hd, "version", eng=t.e)
        ctx.check("Http10" in repr(v), G, "forced-1.0", "a head with version %s is sent to an HTTP/1.0 peer: %s" % (show(v)[:40], tx))
