"""Graceful shutdown: idle closes, busy completes without reuse, HTTP/2 goes away once and finishes."""
from rt import *
import displib, connlib, h2slib
LEVEL = "other"

def run(ctx):
    P = ctx.prog()
    # ---- public entry points reach the mechanism on every path
    ctx.rule("every public graceful_shutdown reaches the connection's own shutdown request on every path on which there is a connection")
    D = P.adt("proto::h1::dispatch::Dispatcher")["path"]; S2 = P.adt("proto::h2::server::Server")["path"]
    n = 0
    for f in sorted((f for f in P.fns.values() if f.local and f.name == "graceful_shutdown" and f.argc == 1 and "server::conn" in f.n), key=lambda f: f.n):
        def h(e, st, c):
            if c.fn is None or not c.args or not c.fn.local: return None
            t = P.ty(c.fn.locals[1][0])
            if t[0] == "ref" and t[1] and t[2][0] == "adt" and t[2][1] in (D, S2):
                return [(UNIT, ("req", c.mname))]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
        fin = e.run(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),))])
        isopt = any("inner" == x[0] for x in (P.adt(adt_of(P, f)) or {"variants": [[0, 0, []]]})["variants"][0][2])
        some_called = False
        for st, v in fin:
            ev = [x[1] for x in (st.aut or ()) if x[0] == "req"]
            if ev: some_called = True
            absent = False
            if isopt:
                iv = fget(P, st, e.read(st, (cell("self"), ())), adt_of(P, f), "inner", eng=e)
                absent = iv[0] == "adt" and iv[3] == "None" or st.val_int(e.discr(st, iv, "std::option::Option")) == 0
            ctx.check(ev in (["disable_keep_alive"], ["graceful_shutdown"]) or absent and not ev, "shutdown request forwarded", "entry:" + f.n, "%s (%s) does not request the shutdown of its connection on some path (%s)" % (f.n, where(f.span), ev))
        ctx.check(some_called, "shutdown request forwarded", "entry-some:" + f.n, "%s never requests the shutdown" % f.n)
        n += 1
    ctx.ok("public entry points", n); ctx.floor("public entry points", 3)
    # ---- HTTP/1 dispatcher
    ctx.rule("the HTTP/1 dispatcher disables keep-alive and closes at once only when the connection is write-closed or has not seen any byte; otherwise the exchange goes on")
    DL = displib.Disp(ctx)
    for kw in (dict(), dict(body_rx=True), dict(body_tx=True)):
        for p in DL.run("disable_keep_alive", **kw):
            ctx.check(len(p.get("op", "disable_keep_alive")) == 1, "keep-alive disabled", "disp-dka", "graceful shutdown does not disable keep-alive; " + p.text())
            quiet = p.has("q", "is_write_closed", TRUE) or p.has("q", "has_initial_read_write_state", TRUE)
            closed = p.closing() == 1
            ctx.check(closed == quiet and closed == (p.has("op", "close_read") and p.has("op", "close_write")) and (closed or p.has("q", "has_initial_read_write_state", FALSE)), "closed at once only if nothing is in progress", "disp-close", "graceful shutdown %s; %s" % ("aborts an exchange in progress" if closed else "leaves a silent connection open", p.text()))
    ctx.floor("closed at once only if nothing is in progress", 3)
    # ---- HTTP/1 connection
    ctx.rule("on the connection, disabling keep-alive closes an idle connection, and otherwise changes nothing but the keep-alive state; a connection counts as untouched only if no head was read or written and the read buffer is empty")
    L = connlib.Lib(ctx); Q = L.queries()
    f = [x for x in L.ent if x.name == "disable_keep_alive"]
    if not f: raise mir.AnchorError("Conn::disable_keep_alive")
    for r in connlib.READ:
        for w in connlib.WRITE:
            for k in connlib.KA:
                if k == "Idle" and (r, w) != ("Init", "Init"): continue
                for t in L.run(f[0], "server", r, w, k):
                    want = ("Closed", "Closed", "Disabled") if k == "Idle" else (r, w, "Disabled")
                    ctx.check(t.post == want and not t.ev, "connection transition", "conn:%s" % ("idle" if k == "Idle" else "busy"), "graceful shutdown: %s instead of %s" % (t.text(), "/".join(want)))
                for t in L.run(Q["has_initial_read_write_state"], "server", r, w, k):
                    for b, s in bools(t.e, t.st, t.ret):
                        ctx.check(not b or (r == "Init" and w == "Init" and t.has("rbempty", TRUE)), "untouched means no byte seen", "initial", "the connection claims to be untouched in %s/%s" % (r, w))
                        if r == "Init" and w == "Init" and t.has("rbempty", TRUE): ctx.check(bool(b), "untouched is recognised", "initial2", "an untouched connection is not recognised as such")
    ctx.floor("connection transition", 30)
    # after keep-alive is disabled, finishing the exchange closes the connection
    ctx.rule("once keep-alive is disabled, completing the exchange closes the connection and no transition re-enables it or returns to the initial states")
    for f in L.ent:
        for r in connlib.READ:
            for w in connlib.WRITE:
                if not connlib.allowed(f.name, "server", r, w, "Disabled"): continue
                for t in L.run(f, "server", r, w, "Disabled"):
                    ctx.check(t.post[2] == "Disabled", "disabled is permanent", "dis:" + f.name, "keep-alive is re-enabled: " + t.text())
                    back = t.post[0] == "Init" and t.pre[0] != "Init" or t.post[1] == "Init" and t.pre[1] != "Init"
                    ctx.check(not back, "no new exchange after disabling", "again:" + f.name, "a new exchange can start after graceful shutdown: " + t.text())
                    if t.post[:2] == ("KeepAlive", "KeepAlive") and f.name == "poll_flush" and t.has("poll_flush", "ok"):
                        ctx.bad("nofinish", "a completed exchange is not closed: " + t.text())
                    if t.pre[:2] == ("KeepAlive", "KeepAlive") and f.name == "poll_flush" and t.has("poll_flush", "ok"):
                        ctx.check(t.post[:2] == ("Closed", "Closed"), "finished exchange closes", "finish", "a completed exchange is not closed: " + t.text())
    ctx.floor("disabled is permanent", 100); ctx.floor("finished exchange closes", 1)
    # ---- HTTP/2
    ctx.rule("HTTP/2: before the handshake the request is remembered, afterwards the going-away notice is given; a remembered request is honoured before any stream is accepted; no other path gives the notice")
    H = h2slib.Srv(ctx)
    g = P.fn("proto::h2::server::Server::graceful_shutdown")
    for nm, stv in (("handshaking", H.handshaking()), ("serving", H.serving()), ("closing", H.serving(closing=some(h2slib.CLOSING)))):
        for pend in (FALSE, TRUE):
            e = ctx.engine(rule=Rec(H.handlers()))
            for st, v in e.run(g, [mref("self")], heap={cell("self"): H.server(stv, close_pending=pend)}):
                ev = [x for x in (st.aut or ()) if x[0] == "hc"]
                cp = fget(P, st, e.read(st, (cell("self"), ())), H.S, "close_pending", eng=e)
                if nm == "handshaking": ctx.check(cp == TRUE and not ev, "early request remembered", "h2-early", "a graceful shutdown requested during the handshake is lost (close_pending=%s)" % show(cp))
                elif nm == "serving": ctx.check([x[1] for x in ev] == ["graceful_shutdown"], "going-away announced", "h2-serving", "graceful shutdown of an open HTTP/2 connection does %s" % [x[1] for x in ev])
                else: ctx.check(all(x[1] == "graceful_shutdown" for x in ev), "closing connection left alone", "h2-closing", "graceful shutdown of a closing connection does %s" % [x[1] for x in ev])
    for pend in (FALSE, TRUE):
        for nm, stv in (("handshaking", H.handshaking()), ("serving", H.serving())):
            for p in H.poll(stv, close_pending=pend, cl=("none",)):
                i = p.idx("accept"); j = p.idx("hc", "graceful_shutdown")
                if i >= 0 and pend == TRUE: ctx.check(0 <= j < i, "remembered request honoured before accepting", "h2-pending:" + nm, "a graceful shutdown requested before the handshake finished is not announced before streams are accepted; " + p.text())
                if pend == FALSE: ctx.check(j < 0, "no unrequested going-away", "h2-unasked:" + nm, "the connection announces going away although nobody asked; " + p.text())
                if p.has("hc", "abrupt_shutdown"): ctx.check(p.has("pong", "KeepAliveTimedOut"), "abrupt shutdown only after a ping timeout", "h2-abrupt", p.text())
                if p.ret is not None and not p.has("hs", "err") and not p.has("accept", "err") and not p.has("accept", "none") and not p.has("hs", "pending") and not p.has("connect", "yes"):
                    ctx.check(is_adt(p.ret, "Pending"), "the connection stays until the peer is done", "h2-stay", "the HTTP/2 connection ends although streams may be open; " + p.text())
    ctx.floor("remembered request honoured before accepting", 2); ctx.floor("early request remembered", 2); ctx.floor("going-away announced", 2)

def adt_of(P, f):
    t = P.ty(f.locals[1][0])
    while t[0] == "ref" or t[0] == "adt" and t[1].endswith("Pin"): t = t[2] if t[0] == "ref" else t[2][0]
    return t[1]
