"""A failure of one HTTP/2 stream stays on that stream; every accepted stream is answered or reset."""
from rt import *
import h2slib, h2streamlib as H, clientlib, c20
from h2streamlib import *
from clientlib import Cli, client_task, h2_handlers, TXQ, H2ERR
LEVEL = "other"

def run(ctx):
    cfg = "a"; P = ctx.prog(cfg)
    # ---- the accept loop
    ctx.rule("accept loop: an accepted stream is either reset or handed to the service and its task executed with that stream's reply handle; afterwards the loop goes on, whatever happened to the stream; only an error or end of the accept itself ends it")
    S = h2slib.Srv(ctx)
    for ping in (NONE, some(("tup", (h2slib.RECORDER, h2slib.PONGER)))):
        for p in S.poll(S.serving(ping=ping), close_pending=FALSE):
            t = p.text()
            if p.has("accept", "ok"):
                rst = [x for x in p.get("respond") if x[1] == "send_reset"]; ans = [x for x in p.get("respond") if x[1] != "send_reset"]
                ex = [x for x in p.get("exec") if h2slib.RESPOND[1] in terms_in(x[1]) and h2slib.SFUT[1] in terms_in(x[1])]
                ctx.check(len(rst) + len(ans) + len(ex) == 1, "accepted stream is answered", "accepted", "an accepted stream is %s; %s" % ("not answered" if not (rst or ans or ex) else "answered twice", t))
                ctx.check(p.again, "the connection goes on", "continues", "one stream ends the whole connection (or stops the accept loop); " + t)
                ctx.check(not [x for x in p.get("hc") if x[1] in ("abrupt_shutdown", "graceful_shutdown") and p.ev.index(x) > p.idx("accept") and not p.has("pong", "KeepAliveTimedOut")], "the connection goes on", "stream-shutdown", "one stream shuts the connection down; " + t)
                if p.has("connect", "yes") and p.has("cl", "nonzero"):
                    ctx.check(len(rst) == 1 and not p.get("service"), "CONNECT with a body is refused on its stream", "connect-body", t)
                else: ctx.check(len(ex) == 1 and len(p.get("service")) == 1, "every other stream reaches the service", "service", "a valid request is not given to the service; " + t)
            elif p.has("accept", "pending"): ctx.check(is_adt(p.ret, "Pending"), "accept pending", "pending", t)
            elif p.has("accept", "none"): ctx.check((unwrap(p.ret, "Ready", "Err") is None or p.has("rec", "ensure_not_timed_out", "err") or p.has("closed", "err")) and (not p.get("hc", "abrupt_shutdown") or p.has("pong", "KeepAliveTimedOut")), "end of the connection is clean", "end", t)
            elif p.has("accept", "err"):
                x = unwrap(p.ret, "Ready", "Err")
                closed = p.get("closed")
                ctx.check(is_adt(p.ret, "Pending") and bool(closed) and closed[-1][1] == "pending" or x is not None, "connection errors are reported", "acc-err", "an error of the connection is swallowed; " + t)
    ctx.floor("accepted stream is answered", 6); ctx.floor("the connection goes on", 6); ctx.floor("CONNECT with a body is refused on its stream", 1); ctx.floor("connection errors are reported", 1); ctx.floor("every other stream reaches the service", 3)
    # ---- the stream's own future
    ctx.rule("H2Stream: the service's result decides: response sent or stream reset on every ready path, with the reason of the error; pending only while the service (and the peer) are; nothing is sent after a reset; its output carries no error to the connection")
    A = P.adt("proto::h2::server::H2Stream")
    ff = P.trait_method(A["path"], "Future", "poll")
    for connect in (False, True):
        for p in H.run_server(ctx, cfg, connect=connect):
            t = p.text()
            rst = p.get("reset"); snd = p.get("send_response", "ok")
            if p.has("service", "pending"):
                k = p.get("poll_reset")
                ctx.check(len(k) == 1 and not rst and not snd, "a peer reset is noticed while the service works", "pending-reset", "while the service is pending a reset by the peer is not noticed; " + t)
                if k: ctx.check(is_adt(p.ret, "Pending") == (k[0][1] == "pending"), "a peer reset is noticed while the service works", "pending", t)
                continue
            if p.again: done = False
            else: done = is_adt(p.ret, "Ready")
            if not done and not p.get("pipe"): ctx.bad("stuck", "the service answered but the stream waits for nothing; " + t, "answered or reset"); continue
            ctx.check(len(rst) + len(snd) == 1, "answered or reset", "answer", "a stream whose service finished is %s; %s" % ("neither answered nor reset" if not (rst or snd) else "answered or reset more than once", t))
            if p.has("service", "err"):
                ctx.check(len(rst) == 1 and rst[0][1][0] == "sym" and TERMS[rst[0][1][1]][0] == "h2_reason" and SVCERR[1] in terms_in(rst[0][1]), "service error resets the stream with its reason", "svc-err", "a service error does not reset the stream with the reason it names; " + t)
            elif p.get("send_response", "err"): ctx.check(len(rst) == 1, "answered or reset", "send-err", "a response that could not be sent leaves the stream unanswered; " + t)
            elif rst: ctx.check(connect and p.has("cl", "nonzero"), "reset only for a reason", "spurious", "a stream is reset although its service answered; " + t)
            if snd: ctx.check(snd[0][2] == HRES, "the service's response is the one sent", "resp", t)
            if rst: ctx.check(not any(x[0] in ("send_response", "newpipe", "tunnel") for x in p.ev[p.idx("reset") + 1:]), "nothing after a reset", "after-reset", t)
    for g, n in (("answered or reset", 8), ("a peer reset is noticed while the service works", 4), ("service error resets the stream with its reason", 1)): ctx.floor(g, n)
    out = None
    for im in P.impls:
        pass
    # ---- the future's output has no error
    r = P.ty(ff.locals[0][0])
    ctx.check("Result" not in str(r), "stream future has no error output", "output", "the stream future's output type is %s" % (r,))
    # ---- client: one stream's failure
    ctx.rule("client task: a request that could not be started or whose stream failed is answered with an error and the task continues; only the connection's own error or end finishes it")
    C = Cli(ctx, cfg)
    f = P.trait_method(P.adt("proto::h2::client::ClientTask")["path"], "Future", "poll")
    for fut in (False, True):
        for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): client_task(P, fut, "Retry")}, kind="Retry", extra=h2_handlers(P, C)):
            t = p.text()
            if p.has("send_request", "err"): ctx.check(len([x for x in p.get("answer") if x[1] == TXQ]) == 1, "failed request is answered", "send-err", t)
            if not p.again and is_adt(p.ret, "Ready"):
                q = p.get("queue")
                why = p.get("h2ready", "err") or p.has("queue", "poll_recv", "closed") or p.has("conn_eof", "ready")
                ctx.check(bool(why), "only the connection ends the client task", "client-end", "the client's connection task ends because of one request; " + t)
                x = unwrap(p.ret, "Ready", "Err")
                if x is not None: ctx.check(bool(p.get("h2ready", "err")), "only the connection ends the client task", "client-err", "the client's connection task fails because of one request; " + t)
    ctx.floor("failed request is answered", 1); ctx.floor("only the connection ends the client task", 4)
