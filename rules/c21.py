"""Server: one request in service at a time, responses in order, service errors end the connection."""
from rt import *
import displib, connlib
LEVEL = "other"
FUT, SERV = init("SERVICE_FUTURE"), init("SERVICE")
RESP, SVCERR = init("RESPONSE"), init("SERVICE_ERROR")

def inflight_runs(ctx):
    P = ctx.prog()
    S = P.adt("proto::h1::dispatch::Server")
    ctx.rule("the server side of the dispatcher: a request is accepted only while no service future is in flight; the future stays until it completes; its completion empties the slot and yields exactly its response")
    parts = ("method", "uri", "headers", "version", "extensions")
    def h(e, st, c):
        m = c.mname
        if m == "poll" and c.args and recv(e, st, c) == FUT:
            return [(PENDING, ("fut", "pending")), (ready(ok(RESP)), ("fut", "ok")), (ready(err(SVCERR)), ("fut", "err"))]
        if m == "call" and c.args and recv(e, st, c) == SERV and not (c.fn is not None and c.fn.local and c.fn.blocks):
            return [(FUT, ("call", e.snapshot(st, c.args[1])))]
        if c.short == "http::Request::new": 
            for p in parts: st.heap[cell("req_" + p)] = init("default_" + p)
            return [(init("REQ"), ("newreq", c.args[0]))]
        if c.short.startswith("http::Request::") and m.endswith("_mut") and m[:-4] in parts: return [(mref("req_" + m[:-4]), None)]
        if c.short == "http::Request::from_parts" : return [(init("REQ"), ("fromparts", e.snapshot(st, c.args[0]), c.args[1]))]
        return None
    for nm in ("poll_msg", "recv_msg", "poll_ready", "should_poll"):
        f = P.trait_method(S["path"], "Dispatch", nm)
        for slot in (some(FUT), NONE):
            for msg in ((ok, err) if nm == "recv_msg" else (None,)):
                if nm == "poll_msg" and slot == NONE: continue      # excluded by should_poll at its call site (checked below)
                e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]), drops=True)
                a0 = ("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)) if nm == "poll_msg" else mref("self")
                args = [a0]
                if nm in ("poll_msg", "poll_ready"): args.append(mref("cx"))
                if msg is ok:
                    RH = P.adt("proto::MessageHead"); RL = P.adt("proto::RequestLine")
                    head = mk(P, RH["path"], version=init("in_version"), subject=("adt", RL["path"], 0, "RequestLine", (init("in_method"), init("in_uri"))), headers=init("in_headers"), extensions=init("in_extensions"))
                    args.append(ok(("tup", (head, init("IN_BODY")))))
                elif msg is err: args.append(err(init("CONN_ERROR")))
                sv = mk(P, S["path"], in_flight=("adt", "std::pin::Pin", 0, "Pin", (mref("slot"),)), service=SERV)
                e.run(f, args, heap={cell("self"): sv, cell("slot"): slot})
                for st, v in e.finals: yield nm, slot, msg, e, st, v, st.aut or ()

def run(ctx):
    P = ctx.prog()
    for nm, slot, msg, e, st, v, ev in inflight_runs(ctx):
        s1 = e.read(st, (cell("slot"), ()))
        busy = slot != NONE
        txt = "%s with the slot %s: events %s, returns %s, slot becomes %s" % (nm, "occupied" if busy else "empty", [x[:2] if x[0] == "fut" else x[0] for x in ev], show(v)[:160], show(s1)[:60])
        if nm == "poll_ready":
            if busy: ctx.check(is_adt(v, "Pending"), "occupied slot refuses requests", "ready-busy", "the dispatcher reports readiness for another request while one is in service; " + txt)
            else: ctx.check(unwrap(v, "Ready", "Ok") is not None, "empty slot accepts requests", "ready-idle", txt)
        elif nm == "should_poll":
            k = v[1] if v[0] == "bool" else None
            ctx.check(k == int(busy), "the slot is polled exactly while occupied", "should_poll", txt)
        elif nm == "recv_msg":
            if msg is err:
                ctx.check(unwrap(v, "Err") is not None and init("CONN_ERROR")[1] in terms_in(v) and not any(x[0] == "call" for x in ev) and s1 == slot, "a connection error never starts a request", "recv-err", "a connection error is not passed on as the result; " + txt)
            else:
                calls = [x for x in ev if x[0] == "call"]
                ctx.check(len(calls) == 1 and s1 == some(FUT) and is_adt(v, "Ok"), "one request, one service call, kept in the slot", "recv-ok", txt)
                nb = [x for x in ev if x[0] == "newreq"]
                if nb:
                    got = {p: e.read(st, (cell("req_" + p), ())) for p in ("method", "uri", "headers", "version", "extensions")}
                    ctx.check(nb[0][1] == init("IN_BODY") and all(got[p] == init("in_" + p) for p in got), "the request is built from the received head and body", "recv-parts", "the request handed to the service is not the received one: %s; %s" % ({p: show(x)[:30] for p, x in got.items()}, txt))
        else:
            k = [x[1] for x in ev if x[0] == "fut"]
            if k != ["pending"] and len(k) != 1: ctx.bad("poll-shape", "poll_msg does not poll the service future exactly once; " + txt); continue
            if k == ["pending"]: ctx.check(is_adt(v, "Pending") and s1 == some(FUT), "an unfinished service future stays in the slot", "poll-pending", txt)
            elif k == ["err"]:
                x = unwrap(v, "Ready", "Some", "Err")
                ctx.check(x is not None and SVCERR[1] in terms_in(x), "a service error is reported", "poll-err", txt)
            else:
                x = unwrap(v, "Ready", "Some", "Ok")
                good = x is not None and x[0] == "tup" and RESP[1] in terms_in(x[1][0]) and RESP[1] in terms_in(x[1][1])
                ctx.check(good and s1 == NONE, "a finished service future empties the slot and yields its response", "poll-ok", txt)
    for g in ("occupied slot refuses requests", "one request, one service call, kept in the slot", "an unfinished service future stays in the slot", "a service error is reported", "a finished service future empties the slot and yields its response"): ctx.floor(g, 1)
    # ---- dispatcher
    D = displib.Disp(ctx)
    ctx.rule("on every path of the dispatcher each connection operation is called only after the matching query answered yes with no operation in between, a request head is read only after the service side reported ready, and each head read is handed over exactly once")
    NEED = {"poll_read_head": "can_read_head", "poll_read_body": "can_read_body", "write_head": "can_write_head", "write_body": "can_write_body", "write_body_and_end": "can_write_body", "write_trailers": "can_write_body", "end_body": "can_write_body", "poll_drain_or_close_read": "can_read_body"}
    for role in ("server", "client"):
        for fn, kws in (("poll_read", (dict(body_tx=True), dict())), ("poll_write", (dict(body_rx=True), dict()))):
            for kw in kws:
                for p in D.run(fn, role=role, **kw):
                    for i, x in enumerate(p.ev):
                        if x[0] == "op" and x[1] in NEED:
                            ctx.check(p.q_before(i, NEED[x[1]]) == TRUE, "operation preconditions", "pre:%s:%s" % (role, x[1]), "%s is called without %s having answered yes; %s" % (x[1], NEED[x[1]], p.text()))
                        if x[:2] == ("op", "poll_read_head"):
                            pr = [y for y in p.ev[:i] if y[:2] in (("disp", "poll_ready"), ("disp", "recv_msg"))]
                            ctx.check(bool(pr) and pr[-1][1:3] == ("poll_ready", "ok"), "head read only when the receiver is ready", "ready:%s" % role, "a message head is read although the service/caller is not ready for one; " + p.text())
                            if x[2] in ("ok", "err"):
                                nx = [y for y in p.ev[i + 1:] if y[:2] == ("disp", "recv_msg")]
                                want = is_adt(nx[0][3], "Ok" if x[2] == "ok" else "Err") if nx else False
                                ctx.check(want, "each head is handed over once", "handover:%s:%s" % (role, x[2]), "a %s from the connection is not handed over; %s" % ("message head" if x[2] == "ok" else "head error", p.text()))
                                if nx and x[2] == "ok":
                                    a = unwrap(nx[0][3], "Ok")
                                    ctx.check(a is not None and a[0] == "tup" and a[1][0] == displib.HEAD, "the head read is the head handed over", "same-head:%s" % role, p.text())
                                if nx and x[2] == "err":
                                    j = [k for k, y in enumerate(p.ev) if y[:2] == ("disp", "recv_msg")][0]
                                    if p.ev[j][2] == "err": ctx.check(unwrap(p.ret, "Ready", "Err") is not None if p.ret else False, "an error nobody took is returned", "err-returned:%s" % role, p.text())
                                    else: ctx.check(p.closing() == 1 and any(y[:2] == ("op", "close_read") for y in p.ev[j:]), "after a head error the connection closes", "err-closes:%s" % role, "after an invalid head the connection is not closed; " + p.text())
                        if x[:2] == ("disp", "recv_msg") and is_adt(x[3], "Ok"):
                            prev = [k for k in range(i) if p.ev[k][:3] == ("op", "poll_read_head", "ok")]
                            used = [k for k in range(i) if p.ev[k][:2] == ("disp", "recv_msg")]
                            ctx.check(bool(prev) and not any(k > prev[-1] for k in used), "no message is invented or repeated", "recv-once:%s" % role, p.text())
                        if x[:3] == ("disp", "poll_msg", "err"):
                            ctx.check(not p.again and unwrap(p.ret, "Ready", "Err") is not None, "a service error ends the connection", "svc-err:%s" % role, "after the service failed the dispatcher goes on; " + p.text())
                        if x[:2] == ("disp", "poll_msg"):
                            dq = [y for y in p.ev[:i] if y[:2] == ("dq", "should_poll")]
                            ctx.check(bool(dq) and dq[-1][2] == TRUE, "the slot is polled only while occupied", "msg-guard:%s" % role, p.text())
                            if x[2] == "ok":
                                nx = [y for y in p.ev[i + 1:] if y[0] == "op"]
                                ctx.check(bool(nx) and nx[0][1] == "write_head" and nx[0][3] == displib.OHEAD, "each response is written when taken", "msg-write:%s" % role, "a message taken from the service is not written; " + p.text())
                        if x[:2] == ("op", "write_head"):
                            ctx.check(any(y[:3] == ("disp", "poll_msg", "ok") for y in p.ev[:i]), "heads written come from the service", "head-origin:%s" % role, p.text())
    for g, n in (("operation preconditions", 1000), ("head read only when the receiver is ready", 100), ("each head is handed over once", 50), ("a service error ends the connection", 20), ("each response is written when taken", 50)): ctx.floor(g, n)
    # ---- what the connection's answers mean
    ctx.rule("can_read_head, can_read_body, can_write_head and can_write_body answer yes only in the states in which the operation is defined, so a second head is read only after the exchange was completed (C05)")
    L = connlib.Lib(ctx); Q = L.queries()
    for role in ("server", "client"):
        for r in connlib.READ:
            for w in connlib.WRITE:
                for q, good in (("can_read_head", r == "Init" and (role == "server" or w != "Init")), ("can_read_body", r in ("Body", "Continue")), ("can_write_body", w == "Body"), ("can_write_head", w == "Init" and not (role == "client" and r == "Closed"))):
                    for t in L.run(Q[q], role, r, w, "Busy"):
                        for b, s in bools(t.e, t.st, t.ret):
                            ctx.check(not b or good, "query meaning", "q:%s:%s" % (role, q), "%s answers yes in state reading=%s writing=%s" % (q, r, w))
                            if q in ("can_read_body", "can_write_body") and not b: ctx.check(not good, "query completeness", "qc:%s:%s" % (role, q), "%s answers no in state reading=%s writing=%s" % (q, r, w))
    ctx.floor("query meaning", 150)
