"""The client side: request queue, reply handles and the tasks that answer them.

A reply handle (tokio oneshot sender) is a tracked resource: each path must answer it exactly
once, or still hold it in a place that outlives the call."""
from rt import *
from displib import DRule

TX, TXQ, TX2 = init("REPLY"), init("REPLY_queued"), init("REPLY_new")
REQ, REQQ, BODY = init("REQUEST"), init("REQUEST_queued"), init("REQUEST_BODY")
RXNEW = init("PROMISE")

def callback(P, kind, tx):
    A = P.adt("client::dispatch::Callback")
    return ("adt", A["path"], A["vix"][kind], kind, (some(tx) if tx else NONE,))

def envelope(P, kind, req=REQQ, tx=TXQ):
    A = P.adt("client::dispatch::Envelope")
    return ("adt", A["path"], 0, "Envelope", (some(("tup", (req, callback(P, kind, tx)))),))

class Cli:
    def __init__(self, ctx, cfg="a"):
        self.ctx, self.cfg = ctx, cfg
        self.P = ctx.prog(cfg)

    def handlers(self, kind="Retry"):
        P = self.P
        txs = (TX, TXQ, TX2)
        def oneshot(e, st, c):
            if not c.args: return None
            r = recv(e, st, c)
            m = c.mname
            if c.short.endswith("oneshot::channel"): return [(("tup", (TX2, RXNEW)), ("channel",))]
            if r not in txs: return None
            if m == "send":
                v = e.snapshot(st, c.args[1])
                return [(ok(UNIT), ("answer", r, v)), (err(v), ("answer", r, v))]
            if m == "poll_closed": return [(PENDING, ("canceled?", r, "no")), (ready(UNIT), ("canceled?", r, "yes"))]
            if m == "is_closed": return [(TRUE, ("canceled?", r, "yes")), (FALSE, ("canceled?", r, "no"))]
            return None
        def chan(e, st, c):
            if c.short.endswith("oneshot::channel"): return [(("tup", (TX2, RXNEW)), ("channel",))]
            return None
        def queue(e, st, c):
            s = c.short; m = c.mname
            if "UnboundedReceiver" in s:
                if m == "poll_recv":
                    if any(x[:2] == ("queue", "poll_recv") for x in (st.aut or ())): return "stop"
                    return [(PENDING, ("queue", m, "pending")), (ready(NONE), ("queue", m, "closed")), (ready(some(envelope(P, kind))), ("queue", m, "msg"))]
                if m == "recv": return [(init("RECVFUT"), ("queue", "recv", None))]
                if m == "try_recv":
                    return [(ok(envelope(P, kind)), ("queue", m, "msg")), (err(init("TRY_ERR")), ("queue", m, "empty"))]
                if m in ("close", "is_closed", "is_empty", "len"): return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("queue", m, None))]
            if "UnboundedSender" in s and m == "send":
                v = e.snapshot(st, c.args[1])
                return [(ok(UNIT), ("enqueue", "ok", v)), (err(("adt", "tokio::sync::mpsc::error::SendError", 0, "SendError", (v,))), ("enqueue", "err", v))]
            if c.args and recv(e, st, c) == init("RECVFUT") and m == "poll":
                return [(PENDING, ("queue", "try", "empty")), (ready(NONE), ("queue", "try", "closed")), (ready(some(envelope(P, kind))), ("queue", "try", "msg"))]
            if s.startswith("want::"):
                if m == "poll_want": return [(PENDING, ("want", m, "pending")), (ready(ok(UNIT)), ("want", m, "ok")), (ready(err(init("WANT_CLOSED"))), ("want", m, "closed"))]
                if m in ("give", "is_wanting", "is_canceled"): return [(TRUE, ("want", m, TRUE)), (FALSE, ("want", m, FALSE))]
                return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("want", m, None))]
            return None
        def req(e, st, c):
            r = recv(e, st, c) if c.args else None
            if c.short.startswith("http::Request") and c.mname == "into_parts" and r in (REQ, REQQ):
                return [(("tup", (init("REQ_PARTS"), BODY)), ("into_parts", r))]
            return None
        def new(e, st, c):
            """constructors of errors, kept symbolic"""
            if c.fn is not None and c.fn.local and c.fn.n.startswith("error::Error::") and c.mname.startswith("new_"):
                return [(("sym", T("err", c.mname) + () if False else T("err", c.mname, *c.args)), None)]
            if c.fn is not None and c.fn.local and c.fn.n.startswith("error::Error::") and c.mname == "with":
                return [(("sym", T("errwith", c.args[0], e.snapshot(st, c.args[1]))), None)]
            return None
        def pan(e, st, c):
            return [(TRUE, None), (FALSE, None)]
        return [(lambda c, e, st: True, oneshot), (lambda c, e, st: True, chan), (lambda c, e, st: True, queue), (lambda c, e, st: True, req), (lambda c, e, st: True, new),
                (named("thread::panicking"), pan)]

    def run(self, f, args, heap, kind="Retry", extra=(), **kw):
        rule = DRule(list(extra) + self.handlers(kind), watch=(TX, TXQ, TX2, REQ, REQQ))
        e = self.ctx.engine(self.cfg, rule=rule, drops=True, **kw)
        e.run(f, args, heap=heap)
        return [CP(self, e, f, st, v, False) for st, v in e.finals] + [CP(self, e, f, st, None, True) for st, c in rule.stopped]

    def client(self, kind="Retry", inflight=True, rx_closed=FALSE):
        P = self.P
        C = P.adt("proto::h1::dispatch::Client"); R = P.adt("client::dispatch::Receiver")
        rx = mk(P, R["path"], inner=init("QUEUE_RX"), taker=init("TAKER"))
        return mk(P, C["path"], callback=some(callback(P, kind, TX)) if inflight else NONE, rx=rx, rx_closed=rx_closed)

class CP:
    def __init__(s, lib, e, f, st, ret, again):
        s.lib, s.e, s.f, s.st, s.ret, s.again = lib, e, f, st, ret, again
        s.ev = st.aut or ()
    def has(s, *pat): return any(x[:len(pat)] == pat for x in s.ev)
    def get(s, *pat): return [x for x in s.ev if x[:len(pat)] == pat]
    def idx(s, *pat):
        for i, x in enumerate(s.ev):
            if x[:len(pat)] == pat: return i
        return -1
    def holds(s, v, *roots):
        """number of places under the given heap roots and the return value that still hold v"""
        n = 0
        def walk(x, d=0):
            nonlocal n
            if x == v: n += 1; return
            if d > 12: return
            if x[0] == "adt":
                for y in x[4]: walk(y, d + 1)
            elif x[0] in ("tup", "arr"):
                for y in x[1]: walk(y, d + 1)
            elif x[0] == "ovr":
                for _, y in x[2]: walk(y, d + 1)
            elif x[0] == "ref": walk(s.e.read(s.st, x[1]), d + 1)
        for r in roots: walk(s.e.read(s.st, (cell(r), ())))
        if s.ret is not None: walk(s.ret)
        return n
    def text(s):
        evs = ", ".join(" ".join(show(y)[:70] if isinstance(y, tuple) else str(y) for y in x if y is not None) for x in s.ev)
        return "%s (%s): path [%s] %s" % (s.f.n, where(s.f.span), evs, "loops" if s.again else "returns " + show(s.ret)[:120])

# ---- HTTP/2 client task
H2TX, RFUT, STREAM, H2ERR, RSP, EXEC2 = (init(x) for x in ("H2_SEND_REQUEST", "RESPONSE_FUTURE", "SEND_STREAM", "H2_ERROR", "H2_RESPONSE", "EXECUTOR"))
METHOD_CONNECT, NOERR, LENV = init("IS_CONNECT"), init("IS_NO_ERROR"), init("EXACT_LEN")

def via(e, st, v, root):
    n = 0
    while v[0] == "ref" and n < 6:
        if v[1][0] == root: return True
        v = e.read(st, v[1]); n += 1
    return False

def h2_handlers(P, cli):
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        aut = st.aut or ()
        if r == H2TX:
            if m == "poll_ready": return [(PENDING, ("h2ready", "pending")), (ready(ok(UNIT)), ("h2ready", "ok")), (ready(err(H2ERR)), ("h2ready", "err"))]
            if m == "send_request":
                a = tuple(e.snapshot(st, x) for x in c.args[1:])
                return [(ok(("tup", (RFUT, STREAM))), ("send_request", "ok") + a), (err(H2ERR), ("send_request", "err") + a)]
            return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("h2tx", m))]
        if m == "execute_h2_future": return [(UNIT, ("exec", e.snapshot(st, c.args[1])))]
        if m == "execute_upgrade": return [(UNIT, ("exec_upgrade", e.snapshot(st, c.args[1])))]
        if m == "ensure_not_timed_out": return [(ok(UNIT), ("timed_out?", "no")), (err(init("TIMED_OUT")), ("timed_out?", "yes"))]
        if m == "strip_connection_headers": return [(UNIT, ("strip", ))]
        if c.fn is not None and c.fn.local and s.endswith("content_length_parse_all"):
            def nz(x):
                l = init("CLEN"); x.facts[l[1]] = ("rng", 1, 2**63, frozenset()); return some(l)
            return [(NONE, ("cl", "none")), (some(("int", 0)), ("cl", "zero")), (nz, ("cl", "nonzero"))]
        if m == "set_content_length_if_missing": return [(UNIT, ("setcl", c.args[1] if len(c.args) > 1 else None))]
        if m == "method_has_defined_payload_semantics": return [(TRUE, None), (FALSE, None)]
        if r == BODY and m == "is_end_stream":
            return [(TRUE, ("eos", TRUE)), (FALSE, ("eos", FALSE))]
        if r == BODY and m == "size_hint": return [(init("HINT"), None)]
        if r == init("HINT") and m == "exact":
            return [(some(LENV), None), (NONE, None)]
        if s.startswith("http::Request::from_parts"):
            return [(init("H2REQ"), None)]
        if s.startswith("http::Request::") and r == init("H2REQ"):
            if m == "method": return [(sref("h2method"), None)]
            return [(("ref", (("C", init("H2REQ_" + m)), ()), 1), None)]
        if m in ("eq", "ne") and (c.trait or "").endswith("PartialEq") and any(via(e, st, a, cell("h2method")) for a in c.args):
            for x in aut:
                if x[0] == "connect?": v = x[1]; break
            else:
                return [(TRUE if m == "eq" else FALSE, ("connect?", TRUE)), (FALSE if m == "eq" else TRUE, ("connect?", FALSE))]
            return [((v if m == "eq" else (FALSE if v == TRUE else TRUE)), None)]
        if s.startswith("http::Extensions"): return [(e.fresh(st, "site", s, c.site[0], c.site[1]), None)] if m not in ("remove",) else [(some(init("PROTO")), None), (NONE, None)]
        if m == "poll" and c.fn is not None and c.fn.local and "PipeToSendStream" in s:
            return [(PENDING, ("pipe", "pending")), (ready(ok(UNIT)), ("pipe", "ok")), (ready(err(init("PIPE_ERR"))), ("pipe", "err"))]
        if c.fn is not None and c.fn.local and s.endswith("PipeToSendStream::new"): return [(init("PIPE"), ("newpipe", c.args[0], c.args[1]))]
        if r == H2ERR:
            if m == "reason": return [(some(init("REASON")), None), (NONE, None)]
        if m in ("eq", "ne") and any(init("REASON")[1] in terms_in(e.snapshot(st, a)) for a in c.args): return [(TRUE, ("noerror", TRUE if m == "eq" else FALSE)), (FALSE, ("noerror", FALSE if m == "eq" else TRUE))]
        if m == "poll" and recv(e, st, c) == init("CONN_EOF"): return [(PENDING, ("conn_eof", "pending")), (ready(err(init("EOFERR"))), ("conn_eof", "ready"))]
        if m == "clone" and c.args[0][0] == "ref":
            v = e.read(st, c.args[0][1])
            if v in (EXEC2, init("PING"), init("DROPREF")): return [(v, None)]
        if r in (init("PING"), init("DROPREF"), EXEC2): return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("ping", m))]
        return None
    return [(lambda c, e, st: True, h)]

def client_task(P, fut=None, kind="Retry"):
    A = P.adt("proto::h2::client::ClientTask"); R = P.adt("client::dispatch::Receiver"); F = P.adt("proto::h2::client::FutCtx")
    rx = mk(P, R["path"], inner=init("QUEUE_RX"), taker=init("TAKER"))
    fc = NONE
    if fut:
        fc = some(mk(P, F["path"], is_connect=init("CTX_CONNECT"), eos=init("CTX_EOS"), fut=RFUT, body_tx=STREAM, body=BODY, cb=callback(P, kind, TX)))
    return mk(P, A["path"], ping=init("PING"), conn_drop_ref=init("DROPREF"), conn_eof=init("CONN_EOF"), executor=EXEC2, h2_tx=H2TX, req_rx=rx, fut_ctx=fc)

PIN = lambda x: ("adt", "std::pin::Pin", 0, "Pin", (x,))
RHEAD, RBODY, CONNERR, RESPONSE = init("RESP_HEAD"), init("RESP_BODY"), init("CONN_ERROR"), init("RESPONSE")
WHENERR, WHENMSG, WHENRES = init("WHEN_ERR"), init("WHEN_MSG"), init("WHEN_RES")

def resp_handler(e, st, c):
    """building the response handed to the caller"""
    if c.fn is not None and c.fn.local and c.mname == "into_response":
        return [(("sym", T("response", c.args[0], c.args[1])), None)]
    return None

def when_handler(P):
    R = P.adt("proto::h2::client::ResponseFutMap")["path"]
    def h(e, st, c):
        if not c.args or recv(e, st, c) != init("WHEN"): return None
        if c.mname == "poll": return [(PENDING, ("when", "pending")), (ready(ok(WHENRES)), ("when", "ok")), (ready(err(("tup", (WHENERR, WHENMSG)))), ("when", "err"))]
        if c.mname == "cancel": return [(UNIT, ("when", "cancel"))]
        return None
    return [(lambda c, e, st: True, h)]

def all_paths(ctx, C):
    """(label, path, [tracked handles that exist on it]) over every function that touches reply handles"""
    P = C.P
    S = P.adt("proto::h1::dispatch::Client")["path"]
    has_msg = lambda p: any(x[0] == "queue" and x[-1] == "msg" for x in p.ev)
    for kind in ("Retry", "NoRetry"):
        # h1 client side of the dispatcher
        for nm in ("poll_msg", "recv_msg", "poll_ready", "should_poll"):
            f = P.trait_method(S, "Dispatch", nm)
            for fl in (True, False):
                if nm == "poll_msg" and fl: continue      # checked below: a request is taken only when none is in flight
                for cl in (TRUE, FALSE):
                    if nm == "poll_msg" and cl == TRUE: continue
                    for m in ((ok(("tup", (RHEAD, RBODY))), err(CONNERR)) if nm == "recv_msg" else (None,)):
                        args = [PIN(mref("self")) if nm == "poll_msg" else mref("self")]
                        if nm in ("poll_msg", "poll_ready"): args.append(mref("cx"))
                        if m is not None: args.append(m)
                        for p in C.run(f, args, {cell("self"): C.client(kind, fl, cl)}, kind=kind, extra=[(lambda c, e, st: True, resp_handler)]):
                            p.pre = dict(inflight=fl, msg=m, rx_closed=cl)
                            yield "h1:" + nm, p, ([TX] if fl else []) + ([TXQ] if has_msg(p) else [])
        # the queue
        E = P.adt("client::dispatch::Envelope")
        f = P.trait_method(E["path"], "Drop", "drop")
        for p in C.run(f, [mref("self")], {cell("self"): envelope(P, kind)}, kind=kind): yield "queue:Envelope::drop", p, [TXQ]
        f = P.trait_method(P.adt("client::dispatch::Callback")["path"], "Drop", "drop")
        for p in C.run(f, [mref("self")], {cell("self"): callback(P, kind, TX)}, kind=kind): yield "queue:Callback::drop", p, [TX]
        R = P.adt("client::dispatch::Receiver")
        rx = mk(P, R["path"], inner=init("QUEUE_RX"), taker=init("TAKER"))
        for nm in ("poll_recv", "try_recv"):
            f = P.fn("client::dispatch::Receiver::" + nm)
            for p in C.run(f, [mref("self")] + [mref("cx")] * (f.argc - 1), {cell("self"): rx}, kind=kind): yield "queue:Receiver::" + nm, p, [TXQ] if has_msg(p) else []
        f = P.fn("client::dispatch::Callback::send")
        for v in (ok(WHENRES), err(init("TRYERR"))):
            for p in C.run(f, [callback(P, kind, TX), v], {}, kind=kind):
                p.pre = dict(val=v); yield "queue:Callback::send", p, [TX]
        # h2
        f = P.trait_method(P.adt("proto::h2::client::ClientTask")["path"], "Future", "poll")
        for fut in (False, True):
            for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): client_task(P, fut, kind)}, kind=kind, extra=h2_handlers(P, C)):
                p.pre = dict(fut=fut)
                yield "h2:ClientTask::poll", p, ([TX] if fut else []) + ([TXQ] if has_msg(p) else [])
        W = P.adt("client::dispatch::SendWhen")
        f = P.trait_method(W["path"], "Future", "poll")
        for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): mk(P, W["path"], when=init("WHEN"), call_back=some(callback(P, kind, TX)))}, kind=kind, extra=when_handler(P)):
            yield "h2:SendWhen::poll", p, [TX]
    # senders
    for A, inner in (("client::dispatch::Sender", "giver"), ("client::dispatch::UnboundedSender", "giver")):
        for nm in ("try_send", "send"):
            f = P.fn(A + "::" + nm)
            for p in C.run(f, [mref("self"), REQ], {cell("self"): mk(P, P.adt(A)["path"], inner=init("QUEUE_TX"))}):
                yield "send:%s::%s" % (A.split("::")[-1], nm), p, [TX2] if p.has("channel") else []
