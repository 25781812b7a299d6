"""Client: responses pair with requests; unsolicited bytes are an error; end of input while idle is clean."""
from rt import *
import clientlib, connlib, displib
from clientlib import Cli, PIN, TX, TXQ, RHEAD, RBODY, CONNERR, resp_handler
LEVEL = "other"

def errs(e, st, c):
    if c.fn is not None and c.fn.local and c.fn.n.startswith("error::Error::"):
        if c.mname.startswith("new_"): return [(("sym", T("err", c.mname, *c.args)), None)]
        if c.mname == "with": return [(("sym", T("errwith", c.args[0], e.snapshot(st, c.args[1]))), None)]
    return None
ERRS = (lambda c, e, st: True, errs)

def kind(v):
    if v is None: return None
    if v[0] == "sym":
        t = TERMS[v[1]]
        if t[0] == "err": return t[1]
        if t[0] == "errwith": return kind(t[1])
    return "?"

def run(ctx):
    C = Cli(ctx); P = C.P
    S = P.adt("proto::h1::dispatch::Client")["path"]
    ctx.rule("the client side takes a request only while none is in flight, gives a response only to the request in flight, and refuses a response when there is none")
    for kd in ("Retry", "NoRetry"):
        for fl in (True, False):
            f = P.trait_method(S, "Dispatch", "should_poll")
            for p in C.run(f, [mref("self")], {cell("self"): C.client(kd, fl, init("RX_CLOSED"))}, kind=kd):
                for b, s in bools(p.e, p.st, p.ret): ctx.check(bool(b) == (not fl), "one request in flight", "should_poll", "with%s a request in flight the client side %s another request; %s" % ("" if fl else "out", "takes" if b else "refuses", p.text()))
            f = P.trait_method(S, "Dispatch", "recv_msg")
            for p in C.run(f, [mref("self"), ok(("tup", (RHEAD, RBODY)))], {cell("self"): C.client(kd, fl)}, kind=kd, extra=[(lambda c, e, st: True, resp_handler)]):
                a = p.get("answer")
                if fl:
                    ctx.check(len(a) == 1 and a[0][1] == TX and is_adt(p.ret, "Ok"), "a response goes to the request in flight", "recv", "a response does not reach (exactly) the request in flight; " + p.text())
                    cb = fget(P, p.st, p.e.read(p.st, (cell("self"), ())), S, "callback", eng=p.e)
                    ctx.check(is_adt(cb, "None"), "a response ends its exchange", "recv-take", "after its response the request still counts as in flight; " + p.text())
                else:
                    ctx.check(not a and unwrap(p.ret, "Err") is not None and kind(unwrap(p.ret, "Err")) == "new_unexpected_message" and not p.get("queue"), "a response without a request is refused", "recv-none", "a response that nobody asked for is accepted (or matched to a queued request); " + p.text())
            f = P.trait_method(S, "Dispatch", "poll_ready")
            for p in C.run(f, [mref("self"), mref("cx")], {cell("self"): C.client(kd, fl)}, kind=kd):
                if not fl: ctx.check(unwrap(p.ret, "Ready", "Ok") is None, "not ready for a response without a request", "ready-none", "the client side reports readiness for a response although no request is in flight; " + p.text())
                else: ctx.check((unwrap(p.ret, "Ready", "Ok") is not None) == p.has("canceled?", TX, "no"), "ready for the response of a waiting caller", "ready", p.text())
        f = P.trait_method(S, "Dispatch", "poll_msg")
        for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): C.client(kd, False)}, kind=kd):
            took = unwrap(p.ret, "Ready", "Some", "Ok")
            if took is not None:
                cb = fget(P, p.st, p.e.read(p.st, (cell("self"), ())), S, "callback", eng=p.e)
                ctx.check(TXQ[1] in terms_in(cb), "the caller of the request taken becomes the one in flight", "poll_msg", "a request is sent without its caller becoming the one in flight; " + p.text())
                a = [x for x in p.ev if x[0] == "into_parts"]
                h = took[1][0] if took[0] == "tup" else None
                ctx.check(len(a) == 1 and h is not None, "the caller of the request taken becomes the one in flight", "poll_msg-parts", p.text())
                if h is not None and h[0] == "adt":
                    H = P.adt("proto::MessageHead")
                    PT = init("REQ_PARTS")
                    for nm in ("version", "headers", "extensions"):
                        v = fget(P, p.st, h, H, nm, eng=p.e)
                        ctx.check(v[0] == "sym" and TERMS[v[1]][0] == "fld" and PT[1] in terms_in(v), "the request written is the one taken", "poll_msg-head:" + nm, "the %s of the request written is not the caller's; %s" % (nm, p.text()))
    for g in ("one request in flight", "a response goes to the request in flight", "a response without a request is refused", "not ready for a response without a request"): ctx.floor(g, 2)
    # ---- idle / mid-message input
    ctx.rule("poll_read_keep_alive decision table: while no message is in progress any buffered or new byte is an unexpected-message error and end of input is clean exactly when idle; in mid-exchange end of input is an incomplete-message error unless half-close is allowed, and buffered bytes are left alone")
    L = connlib.Lib(ctx)
    for role in ("client", "server"):
        for f in L.ent:
            if f.name != "poll_read_keep_alive": continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        if role == "client" and r == "Init" and w == "Init": mode = "idle"
                        elif r == "Closed": mode = "closed"
                        else: mode = "mid"
                        for half in ((FALSE, TRUE) if "allow_half_close" in L.sfields else (None,)):
                            for t in L.run(f, role, r, w, k, extra=(ERRS,), over=dict(allow_half_close=half) if half else None):
                                judge(ctx, t, mode, k, half)
    for g in ("unsolicited bytes are an error", "end of input while idle is clean", "end of input in mid-exchange is incomplete", "closed side reads nothing"): ctx.floor(g, 2)
    # ---- end of input / parse failure while a response is expected
    ctx.rule("a head that cannot be read while a response is expected yields an error for that request; only an idle end of input is silent")
    for f in L.ent:
        if f.name != "poll_read_head": continue
        for w in ("Body", "KeepAlive", "Closed"):
            for k in ("Busy", "Disabled"):
                for t in L.run(f, "client", "Init", w, k, extra=(ERRS,)):
                    if t.has("parse", "err"):
                        x = unwrap(t.ret, "Ready", "Some", "Err")
                        ctx.check(x is not None and (x == connlib.PERR or kind(x) != "?"), "an unreadable response fails its request", "head-err", "while a response is expected, a failure to read it is not reported; " + t.text() + " returns " + show(t.ret)[:80])
    ctx.floor("an unreadable response fails its request", 6)
    # ---- the interim-response callback belongs to one request
    ctx.rule("the callback for interim responses is the one of the request in flight: sending a request installs the request's own, and an earlier request's is gone by then at the latest (whether the final response or the next request removes it)")
    G = "interim responses go to their own request"
    if "on_informational" in L.sfields:
        OLD, NEW = init("OLD_CALLBACK"), init("NEW_CALLBACK")
        def rm(e, st, c):
            if c.mname == "remove" and c.short.startswith("http::Extensions"): return [(some(NEW), ("cb", "some")), (NONE, ("cb", "none"))]
            return None
        kept = {}
        for f in L.ent:
            if f.name not in ("poll_read_head", "write_head"): continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, "client", r, w, k): continue
                        for t in L.run(f, "client", r, w, k, over=dict(on_informational=some(OLD)), extra=[(lambda c, e, st: True, rm)]):
                            v = t.sf("on_informational")
                            if f.name == "poll_read_head" and t.has("parse", "ok") or f.name == "write_head" and t.has("encode_head", "ok"):
                                if OLD[1] in terms_in(v): kept.setdefault(f.name, t.text())
                                else: ctx.ok(G)
                            if f.name == "write_head" and t.has("encode_head", "ok"):
                                if t.has("cb", "some"): ctx.check(NEW[1] in terms_in(v), G, "interim-lost", "the callback the request carries is not installed; " + t.text())
                                elif not t.has("cb", "none") and OLD[1] not in terms_in(v): ctx.bad("interim-ignored", "the request's own callback for interim responses is not looked for; " + t.text(), G)
        ctx.check(len(kept) < 2, G, "interim-stale", "an earlier request's callback survives both its response and the next request: " + " and: ".join(kept.values()))
        ctx.floor(G, 6)
    # ---- the dispatcher asks, and passes the result on
    ctx.rule("whenever the dispatcher has neither a head nor a body to read it checks the connection for unexpected input, and an error found there ends the connection")
    D = displib.Disp(ctx)
    for role in ("client", "server"):
        for p in D.run("poll_read", role=role):
            ka = p.get("op", "poll_read_keep_alive")
            for x in ka:
                if x[2] == "err": ctx.check(not p.again and unwrap(p.ret, "Ready", "Err") == init("ERR_poll_read_keep_alive"), "unexpected input ends the connection", "ka-err:" + role, "an error from the idle/mid-exchange check is dropped; " + p.text())
                if x[2] == "pending": ctx.check(not p.again and is_adt(p.ret, "Pending"), "unexpected input ends the connection", "ka-pending:" + role, p.text())
            if not p.again and p.closing() == 0 and p.ev and p.ev[-1][:3] == ("q", "can_read_head", FALSE):
                ctx.bad("ka-skipped:" + role, "the dispatcher has nothing to read but does not check for unexpected input; " + p.text(), "idle input is checked")
            elif ka: ctx.ok("idle input is checked")
    PRERR = init("POLL_READ_ERR")
    stub = [("poll_read", lambda e, st, c: "stop" if any(x == ("pr", "ok") for x in (st.aut or ())) else [(PENDING, ("pr", "ok")), (ready(ok(UNIT)), ("pr", "ok")), (ready(err(PRERR)), ("pr", "err"))]),
            ("poll_write", lambda e, st, c: [(PENDING, ("pw", "pending"))]), ("poll_flush", lambda e, st, c: [(PENDING, ("pf", "pending"))])]
    for p in D.run("poll_loop", role="client", stub=stub):
        if p.has("pr", "err"): ctx.check(unwrap(p.ret, "Ready", "Err") == PRERR and not p.get("pw"), "unexpected input ends the connection", "loop-err", "an error while reading does not end the connection; " + p.text())
    ctx.floor("unexpected input ends the connection", 4); ctx.floor("idle input is checked", 2)

def judge(ctx, t, mode, k, half):
    io = [x for x in t.ev if x[0] == "ioread"]
    e = unwrap(t.ret, "Ready", "Err")
    txt = t.text() + " returns " + show(t.ret)[:80]
    key = "%s:%s" % (t.role, mode)
    if mode == "closed":
        ctx.check(is_adt(t.ret, "Pending") and not io, "closed side reads nothing", "ka-closed:" + key, "input is read or judged although reading is closed; " + txt); return
    if mode == "idle":
        if t.has("rbempty", FALSE):
            ctx.check(kind(e) == "new_unexpected_message" and not io, "unsolicited bytes are an error", "idle-buffered:" + key, "bytes received while no request is in flight are kept; " + txt); return
        if not io: ctx.bad("idle-noread:" + key, "an idle client does not look for unexpected input; " + txt); return
        o = io[-1][1]
        if o == "data": ctx.check(kind(e) == "new_unexpected_message", "unsolicited bytes are an error", "idle-data:" + key, "bytes received while no request is in flight are kept; " + txt)
        if o == "eof" and k == "Idle": ctx.check(unwrap(t.ret, "Ready", "Ok") is not None and t.post[0] == "Closed", "end of input while idle is clean", "idle-eof:" + key, "end of input on an idle connection is not a clean close; " + txt)
        if o == "eof": ctx.check(t.post[0] == "Closed" and is_adt(t.ret, "Ready"), "end of input closes", "eof-closes:" + key, txt)
        if o == "err": ctx.check(e is not None and kind(e) == "new_io", "transport error is reported", "io-err:" + key, txt)
        if o == "pending": ctx.check(is_adt(t.ret, "Pending"), "no input, no answer", "idle-pending:" + key, txt)
        return
    if half == TRUE or t.has("rbempty", FALSE):
        ctx.check(is_adt(t.ret, "Pending") and not io, "buffered input is left alone in mid-exchange", "mid-buffered:" + key, "in mid-exchange, buffered input (or half-close) is not left alone; " + txt); return
    if not io: ctx.bad("mid-noread:" + key, "in mid-exchange end of input is not looked for; " + txt); return
    o = io[-1][1]
    if o == "eof": ctx.check(kind(e) == "new_incomplete" and t.post[0] == "Closed", "end of input in mid-exchange is incomplete", "mid-eof:" + key, "end of input in the middle of an exchange is not an incomplete-message error; " + txt)
    if o == "data": ctx.check(unwrap(t.ret, "Ready", "Ok") is not None and t.post[0] == t.pre[0], "new input in mid-exchange is kept", "mid-data:" + key, txt)
    if o == "err": ctx.check(e is not None and kind(e) == "new_io", "transport error is reported", "io-err:" + key, txt)
    if o == "pending": ctx.check(is_adt(t.ret, "Pending"), "no input, no answer", "mid-pending:" + key, txt)
