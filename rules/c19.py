"""Client: a request is handed back only if no byte of it was written; a cancelled one is never sent."""
from rt import *
import clientlib
from clientlib import *
LEVEL = "other"

def message_of(p, v):
    """(kind, request) for the answer value v of a Retry handle"""
    if not is_adt(v, "Err"): return "ok", None
    x = v[4][0]
    if x[0] == "adt" and x[1].endswith("TrySendError"):
        m = fget(p.lib.P, p.st, x, x[1], "message", eng=p.e)
        if is_adt(m, "None"): return "none", None
        if is_adt(m, "Some"): return "some", m[4][0]
        return "sym", m
    return "sym", x

def run(ctx):
    C = Cli(ctx); P = C.P
    T = P.adt("client::dispatch::TrySendError")
    ctx.rule("on every path an answer that carries a request back carries the very request of that handle, and only where the request was neither taken apart for writing nor given to the HTTP/2 stream; answers for requests that are still queued carry it back as canceled")
    ctx.rule("a request is taken for writing only after its caller was found to be still waiting")
    n = {}
    for tag, p, txs in all_paths(ctx, C):
        started = lambda r: p.has("into_parts", r) or p.has("send_request")
        for x in p.get("answer"):
            if tag == "queue:Callback::send": continue
            k, m = message_of(p, x[2])
            isretry = any(y == "Retry" for y in (clientlib_kind(x[2]),))
            key = "%s:%s" % (tag, {TX: "current", TXQ: "queued", TX2: "new"}[x[1]])
            if k == "none" or k == "ok": ctx.ok("answers without the request")
            elif k == "some":
                own = m == (REQQ if x[1] == TXQ else REQ)
                ctx.check(own and not started(m) and x[1] == TXQ, "request handed back only if untouched", "handback:" + key, "an error gives the request back although it was taken for writing (or is another request); " + p.text())
            else:
                good = tag == "h2:SendWhen::poll" and m == WHENMSG or is_err_value(x[2])
                ctx.check(good, "request handed back only if untouched", "handback-unknown:" + key, "what this error gives back cannot be determined; " + p.text())
            if tag in ("queue:Envelope::drop",) or tag == "h1:recv_msg" and x[1] == TXQ:
                ev = x[2]
                kinds = {TERMS[i][1] for i in terms_in(ev) if TERMS[i][0] == "err"}
                ctx.check("new_canceled" in kinds, "queued requests are canceled", "canceled:" + key, "a request that was never started is not reported as canceled; " + p.text())
                if k in ("none",) : ctx.bad("keepback:" + key, "a request that was never started is not given back; " + p.text(), "queued requests are given back")
                elif k == "some": ctx.ok("queued requests are given back")
        took = p.has("into_parts", REQQ)
        wrote = p.has("send_request") or tag == "h1:poll_msg" and unwrap(p.ret, "Ready", "Some", "Ok") is not None if p.ret is not None else p.has("send_request")
        if wrote:
            i = max(p.idx("send_request"), p.idx("into_parts", REQQ))
            ctx.check(any(y[:3] == ("canceled?", TXQ, "no") for y in p.ev[:i]), "caller still waiting before sending", "sent-canceled:" + tag, "a request is sent without its caller having been found to wait; " + p.text())
        if p.has("canceled?", TXQ, "yes"):
            ctx.check(not took and not p.has("send_request") and not p.has("enqueue"), "a canceled request is not sent", "canceled-sent:" + tag, "a request whose caller is gone is sent; " + p.text())
    ctx.floor("answers without the request", 100); ctx.floor("request handed back only if untouched", 4); ctx.floor("queued requests are given back", 2)
    ctx.floor("caller still waiting before sending", 50); ctx.floor("a canceled request is not sent", 4)
    # the HTTP/2 response future never gives the request back
    ctx.rule("the HTTP/2 response future, which runs after the head was sent, never returns the request")
    F = P.adt("proto::h2::client::ResponseFutMap")
    f = P.trait_method(F["path"], "Future", "poll")
    h = [(lambda c, e, st: True, rfm(P))] + h2_handlers(P, C)
    for ss in (some(NONE), some(some(STREAM))):
        v = mk(P, F["path"], fut=RFUT, ping=some(init("PING")), send_stream=ss, exec=EXEC2, cancel_tx=some(init("CANCEL_TX")))
        for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): v}, extra=h):
            x = unwrap(p.ret, "Ready", "Err")
            if x is None: ctx.ok("response future outcomes"); continue
            ctx.check(x[0] == "tup" and is_adt(x[1][1], "None"), "response future gives nothing back", "rfm", "a request already sent over HTTP/2 is given back; " + p.text())
    ctx.floor("response future gives nothing back", 2)
    # public futures
    ctx.rule("the public futures give a request back exactly when it could not be queued, and otherwise pass the answer on unchanged")
    ANS, COR = init("ANSWER"), init("COROUTINE")
    h = [(lambda c, e, st: c.mname == "poll" and "oneshot" in c.short, lambda e, st, c: [(PENDING, ("rx", "pending")), (ready(ok(ANS)), ("rx", "ok")), (ready(err(init("RECVERR"))), ("rx", "err"))])]
    for f in [f for f in P.fns.values() if f.local and f.coroutine and "try_send_request" in f.n]:
        for p in C.run(f, [PIN(mref("self")), mref("cx")][:f.argc], {cell("self"): COR}, extra=h):
            v = unwrap(p.ret, "Ready", "Err")
            if v is None or not (v[0] == "adt" and v[1] == T["path"]):
                ctx.ok("public error passed on"); continue
            m = fget(P, p.st, v, T, "message", eng=p.e)
            if p.has("rx", "ok"):
                ctx.check(m[0] == "sym" and ANS[1] in terms_in(m) or is_adt(m, "None"), "public error passed on", "pub:" + f.n, "the error given to the caller gives something back that the answer did not; " + p.text())
            else:
                ctx.check(is_adt(m, "Some") and m[4][0][0] == "sym" and COR[1] in terms_in(m), "request that could not be queued is given back", "pub-back:" + f.n, "a request that could not be queued is not given back; " + p.text())
    ctx.floor("request that could not be queued is given back", 2)
    # completeness: every construction site of the error was interpreted
    seen = set()
    for e in ctx._engs: seen |= e.fns_seen
    for f in P.fns.values():
        if not f.local or f.derived if hasattr(f, "derived") else not f.local: continue
        for stmts, term, cl in f.blocks:
            for s in stmts:
                if s[0] == "=" and isinstance(s[2], (list, tuple)) and s[2] and s[2][0] == "agg" and s[2][1][0] == "adt" and str(s[2][1][1]).endswith("TrySendError"):
                    ctx.check(f.n in seen or f.id in seen, "construction sites analysed", "site:" + f.n, "%s builds a TrySendError but is not reached from the analysed entry points, so what it gives back is unknown" % f.n)
    ctx.floor("construction sites analysed", 5)

def clientlib_kind(v): return "Retry"
def is_err_value(v):
    """an answer of a NoRetry handle: a plain error"""
    return is_adt(v, "Err") and v[4][0][0] == "sym" and TERMS[v[4][0][1]][0] in ("err", "errwith") or (is_adt(v, "Err") and v[4][0] in (CONNERR, WHENERR))

def rfm(P):
    def h(e, st, c):
        r = recv(e, st, c) if c.args else None
        m = c.mname
        if r == RFUT and m == "poll": return [(PENDING, ("resp", "pending")), (ready(ok(RSP)), ("resp", "ok")), (ready(err(H2ERR)), ("resp", "err"))]
        if r == RSP and c.short.startswith("http::Response"):
            if m == "headers": return [(sref("rsp_headers"), None)]
            if m == "status":
                return [(init("STATUS"), None)]
            if m == "into_parts": return [(("tup", (init("RSP_PARTS"), init("RECV_STREAM"))), ("rsp_parts",))]
            if m == "map": return None
        return None
    return h
