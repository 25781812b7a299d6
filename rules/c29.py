"""HTTP/2 bodies: whole, in order, under flow control, ended once."""
from rt import *
import h2streamlib as H, clientlib, c20
from h2streamlib import *
from clientlib import Cli, client_task, h2_handlers, BODY as CBODY, STREAM as CSTREAM
from h2slib import SP
from displib import DRule
LEVEL = "other"
TX, BODY, FRAME, DATA, OLD, TRL, BERR, CAPERR = (init(x) for x in ("H2_TX", "BODY", "FRAME", "DATA", "BUFFERED", "TRAILERS", "BODY_ERR", "CAPACITY_ERR"))

def pipe_handlers(P):
    SB = P.adt("proto::h2::SendBuf")
    def last(st, *pat):
        p = [x for x in (st.aut or ()) if x[:len(pat)] == pat]
        return p[-1] if p else None
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == TX and c.fn is not None and c.fn.local and c.fn.blocks: return None
        if r == TX:
            if m == "poll_reset": return [(PENDING, ("poll_reset", "pending")), (ready(ok(REASON)), ("poll_reset", "reset")), (ready(err(RSTERR)), ("poll_reset", "err"))]
            if m == "capacity":
                def pos(x):
                    v = e.fresh(x, "site", "capacity", c.site[0], c.site[1]); x.facts[v[1]] = ("rng", 1, 2**62, frozenset()); return v
                return [(("int", 0), ("capacity", "zero")), (pos, ("capacity", "some"))]
            if m == "poll_capacity":
                def pos(x):
                    v = e.fresh(x, "site", "poll_capacity", c.site[0], c.site[1]); x.facts[v[1]] = ("rng", 1, 2**62, frozenset()); return ready(some(ok(v)))
                out = [(PENDING, ("capacity", "pending")), (pos, ("capacity", "granted")), (ready(some(err(CAPERR))), ("capacity", "err")), (ready(NONE), ("capacity", "closed"))]
                if not last(st, "capacity", "spurious"): out.append((ready(some(ok(("int", 0)))), ("capacity", "spurious")))
                return out
            if m == "send_data":
                b, eos = e.snapshot(st, c.args[1]), c.args[2]
                return [(ok(UNIT), ("send", "data", b, eos, "ok")), (err(SENDERR), ("send", "data", b, eos, "err"))]
            if m == "send_trailers":
                b = e.snapshot(st, c.args[1])
                return [(ok(UNIT), ("send", "trailers", b, TRUE, "ok")), (err(SENDERR), ("send", "trailers", b, TRUE, "err"))]
            if m == "send_reset": return [(UNIT, ("reset", e.snapshot(st, c.args[1])))]
            if m == "reserve_capacity": return [(UNIT, ("reserve", c.args[1]))]
            if s.startswith("h2::"): return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("tx", m))]
        if r == BODY:
            if m == "poll_frame":
                if last(st, "frame"): return "stop"
                return [(PENDING, ("frame", "pending")), (ready(NONE), ("frame", "end")), (ready(some(err(BERR))), ("frame", "err")), (ready(some(ok(FRAME))), ("frame", "ok"))]
            if m == "is_end_stream": return [(TRUE, ("eos", TRUE)), (FALSE, ("eos", FALSE))]
            if m == "size_hint": return None
        if r == FRAME:
            k = last(st, "kind")
            ks = [k[1]] if k else ["data", "trailers", "other"]
            f = {"is_data": "data", "is_trailers": "trailers", "into_data": "data", "into_trailers": "trailers", "data_ref": "data", "trailers_ref": "trailers"}.get(m)
            if f:
                pay = DATA if f == "data" else TRL
                def val(y):
                    if m.startswith("is_"): return TRUE if y else FALSE
                    if m.startswith("into_"): return ok(pay) if y else err(FRAME)
                    return some(("ref", (("C", pay), ()), 0)) if y else NONE
                return [(val(x == f), None if k else ("kind", x)) for x in ks]
        if m == "h2_reason" and c.fn is not None and c.fn.local: return [(("sym", T("h2_reason", e.snapshot(st, c.args[0]))), None)]
        return None
    return [(lambda c, e, st: True, h), c20.ERRS]

def run_pipe(ctx, P, cfg, buffered):
    S = P.adt("proto::h2::PipeToSendStream"); K = P.adt("proto::h2::Peeked"); f = P.trait_method(S["path"], "Future", "poll")
    out = []
    for eos in ((TRUE, FALSE) if buffered else (None,)):
        bd = some(mk(P, K["path"], data=OLD, is_eos=eos)) if buffered else NONE
        rule = DRule(pipe_handlers(P))
        e = ctx.engine(cfg, rule=rule)
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, S["path"], body_tx=TX, stream=BODY, buffered_data=bd, data_done=FALSE)})
        ps = [SP(e, f, st, r, False) for st, r in e.finals] + [SP(e, f, st, None, True) for st, c in rule.stopped]
        for p in ps: p.oldeos = eos
        out += ps
    return out

def payload(v):
    """what a sent buffer carries: the chunk, or None for an empty marker"""
    if v[0] == "adt" and v[3] == "Buf": return v[4][0]
    if v[0] == "adt" and v[3] == "None": return None
    if v[0] == "adt" and v[4]: return v[4][0]
    return v

def run(ctx):
    cfg = "a"; P = ctx.prog(cfg)
    ctx.rule("PipeToSendStream, all paths from both states (with/without a stored chunk): reset is looked at first; the stored chunk is sent before the body is asked again; non-empty data only after capacity was seen; every chunk taken is sent once or still stored; end of stream exactly once, only with the last data, trailers or the final empty frame, and nothing after it")
    S = P.adt("proto::h2::PipeToSendStream"); K = P.adt("proto::h2::Peeked")
    for buffered in (False, True):
        for p in run_pipe(ctx, P, cfg, buffered): judge(ctx, P, p, buffered)
    for g, n in (("reset looked at first", 8), ("sent in order", 4), ("flow control respected", 3), ("no chunk lost", 8), ("ended exactly once", 4), ("end flag is true", 6), ("body error resets the stream", 1), ("nothing after the end", 4), ("peer reset stops the body", 2), ("send errors reported", 3)): ctx.floor(g, n)
    # ---- who ends the stream when there is no body
    ctx.rule("a head is sent with end-of-stream exactly when the body says it is already at its end (and no tunnel is opened); otherwise the body is handed to a pipe on that stream, and a pipe that is not finished is kept running")
    for connect in (False, True):
        for p in H.run_server(ctx, cfg, connect=connect): server(ctx, P, p)
    for p in H.run_server(ctx, cfg, body=True):
        q = p.get("pipe")
        ctx.check(len(q) == 1 and (q[0][1] == "pending") == is_adt(p.ret, "Pending"), "a started body is driven to its end", "server-body", p.text())
    C = Cli(ctx, cfg)
    f = P.trait_method(P.adt("proto::h2::client::ClientTask")["path"], "Future", "poll")
    for fut in (False, True):
        for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): client_task(P, fut, "Retry")}, kind="Retry", extra=h2_handlers(P, C)):
            client(ctx, P, p, fut)
            if fut and p.ev and p.ev[0] == ("h2ready", "ok"):
                k = lambda n: p.st.val_int(init(n))
                upto = p.idx("queue") if p.idx("queue") >= 0 else len(p.ev)
                n = [y for y in p.ev[:upto] if y[0] == "newpipe"]
                if k("CTX_CONNECT") == 0 and k("CTX_EOS") == 0: ctx.check(len(n) == 1 and n[0][1] == CBODY and n[0][2] == CSTREAM, "the body goes to a pipe on its stream", "client-pipe-resumed", "the body of a request that waited for its stream is not sent; " + p.text())
                else: ctx.check(not n, "the body goes to a pipe on its stream", "client-nopipe-resumed", p.text())
    A = P.adt("proto::h2::client::PipeMap")
    f = P.trait_method(A["path"], "Future", "poll")
    CRX = init("CANCEL_RX")
    def ph(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == CRX and c.mname == "poll": return [(PENDING, ("cancel", "pending")), (ready(ok(UNIT)), ("cancel", "yes")), (ready(err(init("RXERR"))), ("cancel", "gone"))]
        if r is not None and r[0] == "adt" and r[1] == S["path"] or c.fn is not None and c.fn.local and "PipeToSendStream" in c.short:
            if c.mname == "poll": return [(PENDING, ("pipe", "pending")), (ready(ok(UNIT)), ("pipe", "ok")), (ready(err(PIPEERR)), ("pipe", "err"))]
            if c.mname == "send_reset": return [(UNIT, ("reset", e.snapshot(st, c.args[1])))]
        if r == TX and c.mname == "send_reset": return [(UNIT, ("reset", e.snapshot(st, c.args[1])))]
        return None
    for crx in (some(CRX), NONE):
        rule = DRule([(lambda c, e, st: True, ph)])
        e = ctx.engine(cfg, rule=rule)
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], pipe=mk(P, S["path"], body_tx=TX, stream=BODY), conn_drop_ref=some(init("DROPREF")), ping=some(init("PING")), cancel_rx=crx)})
        for st, v in e.finals:
            p = SP(e, f, st, v, False)
            fld = fget(P, st, e.read(st, (cell("self"), ())), A["path"], "conn_drop_ref", eng=e)
            ctx.check(fld == some(init("DROPREF")) or not is_adt(v, "Pending"), "the connection outlives its bodies", "pipemap-ref", "a body that is still being sent lets go of the connection; " + p.text())
            if p.has("cancel", "yes"): ctx.check(is_adt(v, "Ready") and len(p.get("reset")) == 1 and is_cancel(p.get("reset")[0][1]) and not p.get("pipe"), "a cancelled request resets its stream", "pipemap-cancel", p.text())
            else:
                q = p.get("pipe")
                ctx.check(len(q) == 1 and (q[0][1] == "pending") == is_adt(v, "Pending") and not p.get("reset"), "a started body is driven to its end", "pipemap", p.text())
    conntask(ctx, P, cfg)
    for g, n in (("the connection outlives its bodies", 12), ("end of stream in the head iff no body", 4), ("the body goes to a pipe on its stream", 3), ("a started body is driven to its end", 4), ("a cancelled request resets its stream", 1), ("request end flag", 2)): ctx.floor(g, n)

def judge(ctx, P, p, buffered):
    t = p.text(); ev = p.ev
    S = P.adt("proto::h2::PipeToSendStream")["path"]
    sends = [(i, x) for i, x in enumerate(ev) if x[0] == "send"]
    rst = p.get("poll_reset")
    # reset first, in every iteration before frame/send
    fr = [i for i, x in enumerate(ev) if x[0] in ("frame",)] + [i for i, x in sends[:1]]
    ctx.check(bool(rst) and (not fr or p.idx("poll_reset") < min(fr)), "reset looked at first", "reset-first", "the body is polled or data sent without looking for a reset by the peer; " + t)
    bad_rst = [x for x in rst if x[1] != "pending"]
    if bad_rst:
        i = ev.index(bad_rst[0])
        ctx.check(unwrap(p.ret, "Ready", "Err") is not None if not p.again else False, "peer reset stops the body", "reset-stops", "a reset by the peer does not stop the body; " + t)
        ctx.check(not any(x[0] in ("send", "frame") for x in ev[i + 1:]), "peer reset stops the body", "reset-then-send", "data is sent after the peer reset the stream; " + t)
    # what was taken
    taken = ([("old", OLD, p.oldeos)] if buffered else []) + ([("new", DATA, None)] if p.has("kind", "data") else [])
    failed = not p.again and unwrap(p.ret, "Ready", "Err") is not None
    bd = fget(P, p.st, p.e.read(p.st, (cell("self"), ())), S, "buffered_data", eng=p.e)
    def stored(v): return v[1] in terms_in(bd) if is_adt(bd, "Some") else False
    order = [payload(x[2]) for i, x in sends if x[1] == "data" and payload(x[2]) is not None]
    want = [v for _, v, _ in taken if v in order]
    ctx.check(order == want, "sent in order", "order", "body data is sent in another order, twice, or not as taken; " + t)
    for nm, v, eos0 in taken:
        n = sum(1 for x in order if x == v)
        if not failed: ctx.check(n + (1 if stored(v) else 0) == 1, "no chunk lost", "lost:" + nm, "a chunk of the body is %s; %s" % ("lost" if n == 0 else "sent twice or sent and kept", t))
        for i, x in sends:
            if x[1] != "data" or payload(x[2]) != v: continue
            # flow control
            grant = [j for j, y in enumerate(ev[:i]) if y[0] == "capacity" and y[1] in ("some", "granted")]
            prev = [j for j, y in sends if j < i]
            lastcap = [y for y in ev[:i] if y[0] == "capacity"]
            l = absint_len(p, v)
            zero = l is not None and p.st.facts.get(l[1]) is not None and c_single(p.st.facts[l[1]]) == 0 or zero_len(p, v)
            ctx.check(zero or bool(lastcap) and lastcap[-1][1] in ("some", "granted") and (not prev or grant and grant[-1] > prev[-1]), "flow control respected", "capacity:" + nm, "non-empty data is sent although the stream has no capacity; " + t)
            # end flag
            if eos0 is not None: good = x[3] == eos0
            else:
                k = [y for y in ev[p.idx("kind"):i] if y[0] == "eos"]
                good = bool(k) and x[3] == k[-1][1]
            ctx.check(good, "end flag is true", "eos:" + nm, "the end-of-stream flag of a data frame is not what the body said after that chunk; " + t)
        if stored(v) and nm == "new":
            k = [y for y in ev[p.idx("kind"):] if y[0] == "eos"]
            x = fget(P, p.st, bd[4][0], P.adt("proto::h2::Peeked"), "is_eos", eng=p.e)
            ctx.check(bool(k) and x == k[-1][1], "end flag is true", "eos-stored", "the stored chunk does not carry the end-of-stream flag the body gave; " + t)
            ctx.check(bool(p.get("reserve")) and (p.get("reserve")[-1][1][0] != "int" or p.get("reserve")[-1][1][1] >= 1), "capacity is asked for", "reserve", "a chunk waits for capacity that was not asked for; " + t)
        if nm == "new" and buffered and p.idx("frame") >= 0:
            ctx.check(any(i < p.idx("frame") and payload(x[2]) == OLD for i, x in sends), "sent in order", "overtake", "the body is asked for more while a chunk is waiting; " + t)
    if p.has("kind", "trailers") and not failed:
        ctx.check(any(x[1] == "trailers" and x[2] == TRL for i, x in sends), "no chunk lost", "lost:trailers", "trailers of the body are not sent; " + t)
    # the end
    ends = [(i, x) for i, x in sends if x[3] == TRUE]
    okend = [x for i, x in ends if x[4] == "ok"]
    if not p.again and unwrap(p.ret, "Ready", "Ok") is not None:
        ctx.check(len(okend) == 1 and sends[-1][1] is ends[-1][1], "ended exactly once", "end", "the body is reported as sent but the stream was not ended exactly once; " + t)
    else: ctx.check(not okend, "ended exactly once", "end-continues", "the stream was ended but the body goes on; " + t)
    for i, x in ends:
        ctx.check(not any(y[0] in ("send", "frame", "reset") for y in ev[i + 1:]), "nothing after the end", "after-end", "something is done on the stream after its end; " + t)
        if payload(x[2]) is None and x[1] == "data": ctx.check(p.has("frame", "end"), "end flag is true", "eos-empty", "the stream is ended although the body has not ended; " + t)
    if p.has("frame", "end") : ctx.check(bool(ends), "ended exactly once", "no-end", "the body ended but the stream is not ended; " + t)
    for i, x in sends:
        if x[4] == "err": ctx.check(failed and SENDERR[1] in terms_in(p.ret), "send errors reported", "send-err", "an error from the stream is swallowed; " + t)
    if p.has("capacity", "err") or p.has("capacity", "closed"): ctx.check(failed, "send errors reported", "cap-err", "loss of the stream while waiting for capacity is not reported; " + t)
    if p.has("frame", "err"):
        r = p.get("reset")
        x = unwrap(p.ret, "Ready", "Err") if not p.again else None
        ctx.check(len(r) == 1 and x is not None and BERR[1] in terms_in(x) and c20.kind(x) == "new_user_body" and not okend, "body error resets the stream", "body-err", "an error of the body does not reset the stream (or is not reported); " + t)
        ctx.check(len(r) == 1 and r[0][1][0] == "sym" and TERMS[r[0][1][1]][0] == "h2_reason" and BERR[1] in terms_in(r[0][1]), "body error resets the stream", "body-err-reason", "the reset reason is not the one the error names; " + t)
    else: ctx.check(not p.get("reset"), "body error resets the stream", "spurious-reset", "the stream is reset without an error of the body; " + t)
    if not p.again and is_adt(p.ret, "Pending"):
        ctx.check(p.has("frame", "pending") or p.has("capacity", "pending"), "pending only when something is", "pending", "Pending although neither the body nor the capacity is pending; " + t)

def absint_len(p, v):
    i = absint.TIX.get(("len", v)) if hasattr(absint, "TIX") else None
    return ("sym", i) if i is not None else None
def zero_len(p, v):
    for i, c in p.st.facts.items():
        t = TERMS[i]
        if t[0] == "len" and norm(t[1]) == v and c_single(c) == 0: return True
        if t[0] == "cmp" and t[1] == "Eq" and c_single(c) == 1 and any(y[0] == "sym" and TERMS[y[1]][0] == "len" and norm(TERMS[y[1]][1]) == v for y in t[2:4]) and any(y == ("int", 0) for y in t[2:4]): return True
    return False

def server(ctx, P, p):
    t = p.text()
    for x in p.get("send_response"):
        eos = [y for y in p.ev[:p.ev.index(x)] if y[0] == "eos"]
        tun = p.get("tunnel")
        if x[1] != "ok": continue
        if tun:
            ctx.check(x[3] == FALSE, "end of stream in the head iff no body", "server-tunnel", "the head that opens a tunnel ends the stream; " + t); continue
        ctx.check(bool(eos) and x[3] == eos[-1][1], "end of stream in the head iff no body", "server-eos", "the response head's end-of-stream flag does not follow from the body; " + t)
        if x[3] == FALSE:
            n = p.get("newpipe")
            ctx.check(len(n) == 1 and n[0][1] == RBODY and n[0][2] == TXS and (p.again or bool(p.get("pipe"))), "the body goes to a pipe on its stream", "server-pipe", "the response body is not sent on its stream; " + t)
            q = p.get("pipe")
            if q and not p.again: ctx.check((q[-1][1] == "pending") == is_adt(p.ret, "Pending"), "a started body is driven to its end", "server-pipe-end", t)
        else: ctx.check(not p.get("newpipe"), "the body goes to a pipe on its stream", "server-nopipe", t)

def is_cancel(v):
    while v[0] == "adt" and len(v[4]) == 1: v = v[4][0]
    return v == ("int", 8) or "CANCEL" in show(v)

def conntask(ctx, P, cfg):
    ctx.rule("the client's HTTP/2 connection task starts to shut the connection down only when every handle to it (senders, bodies being sent) is gone, and ends only with the connection; each of the two is polled until it ended")
    G = "the connection outlives its bodies"
    A = P.adt("proto::h2::client::ConnTask")
    f = P.trait_method(A["path"], "Future", "poll")
    CONN, RX, TXC = init("CONN"), init("DROP_RX"), init("CANCEL_TX")
    def h(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r not in (CONN, RX): return None
        n = "conn" if r == CONN else "rx"
        if c.mname == "is_terminated": return [(TRUE, (n, "terminated", True)), (FALSE, (n, "terminated", False))]
        if c.mname == "poll": return [(PENDING, (n, "pending")), (ready(ok(UNIT)), (n, "ready")), (ready(err(init("E"))), (n, "ready"))]
        if c.mname in ("poll_next", "poll_next_unpin"): return [(PENDING, (n, "pending")), (ready(NONE), (n, "ready"))]
        return None
    rule = DRule([(lambda c, e, st: True, h)])
    e = ctx.engine(cfg, rule=rule)
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], conn=CONN, drop_rx=RX, cancel_tx=some(TXC))})
    ctx.check(bool(e.finals), G, "conntask-end", "%s never returns" % f.n)
    for st, v in e.finals:
        p = SP(e, f, st, v, False); t = p.text()
        left = fget(P, st, e.read(st, (cell("self"), ())), A["path"], "cancel_tx", eng=e)
        cr = any(x[:2] == ("conn", "ready") for x in p.ev)
        if is_adt(v, "Ready"): ctx.check(cr, G, "conntask-early", "the connection task ends before the connection; " + t); continue
        ctx.check(not cr, G, "conntask-late", "the connection ended but its task does not; " + t)
        ctx.check((left == some(TXC)) == (not p.has("rx", "ready")), G, "conntask-shutdown", "the connection is told to shut down although handles to it are left, or not told when none is: %s; " % show(left) + t)
        for n in ("conn", "rx"): ctx.check(any(x[0] == n and x[1] in ("pending", "ready") or x == (n, "terminated", True) for x in p.ev), G, "conntask-unpolled:" + n, "the %s is not polled; " % {"conn": "connection", "rx": "channel of handles"}[n] + t)

def client(ctx, P, p, fut):
    t = p.text()
    if fut: return
    for i, x in enumerate(p.ev):
        if x[:2] != ("send_request", "ok"): continue
        eos = [y for y in p.ev[:i] if y[0] == "eos"]; con = [y for y in p.ev[:i] if y[0] == "connect?"]
        if not con: ctx.bad("client-noconnect", "a request is sent without looking whether it is CONNECT; " + t, "request end flag"); continue
        if con[-1][1] == TRUE: ctx.check(x[3] == FALSE, "request end flag", "client-connect-eos", "a CONNECT request ends its stream; " + t)
        else: ctx.check(bool(eos) and x[3] == eos[-1][1], "request end flag", "client-eos", "the request head's end-of-stream flag does not follow from the body; " + t)
        saved = fget(P, p.st, p.e.read(p.st, (cell("self"), ())), P.adt("proto::h2::client::ClientTask")["path"], "fut_ctx", eng=p.e)
        if is_adt(saved, "Some"):
            F = P.adt("proto::h2::client::FutCtx")
            for nm, want in (("body", CBODY), ("body_tx", CSTREAM), ("is_connect", con[-1][1]), ("eos", eos[-1][1] if eos else None)):
                ctx.check(fget(P, p.st, saved[4][0], F, nm, eng=p.e) == want, "request body is kept until the stream is open", "client-saved:" + nm, t)
            continue
        gone = any(y[:2] == ("h2ready", "err") for y in p.ev[i:])
        n = [y for y in p.ev[i:] if y[0] == "newpipe"]
        if con[-1][1] == FALSE and eos and eos[-1][1] == FALSE and not gone:
            ctx.check(len(n) == 1 and n[0][1] == CBODY and n[0][2] == CSTREAM, "the body goes to a pipe on its stream", "client-pipe", "the request body is not sent on its stream; " + t)
            q = [y for y in p.ev[i:] if y[0] == "pipe"]
            ex = [y for y in p.get("exec") if init("PIPE")[1] in terms_in(y[1])]
            ctx.check(bool(q) and (q[-1][1] != "pending" or len(ex) == 1) or len(ex) == 1, "a started body is driven to its end", "client-pipe-run", "a request body that is not finished is dropped; " + t)
            for y in ex: ctx.check(init("DROPREF")[1] in terms_in(y[1]), "the connection outlives its bodies", "client-dropref", "the task that sends the rest of a request body does not keep the connection: %s; " % show(y[1])[:120] + t)
        elif not gone: ctx.check(not n, "the body goes to a pipe on its stream", "client-nopipe", t)
