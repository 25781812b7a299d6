"""Client: every request is answered exactly once."""
from rt import *
import clientlib, displib
from clientlib import *
LEVEL = "other"

def run(ctx):
    C = Cli(ctx); P = C.P
    ctx.rule("a reply handle is a linear resource: on every path of every function that touches one, it is answered once, or still held by what survives the call (field, return value, queued envelope, spawned task), and never both; dropping it counts as its Drop implementation answers")
    seen = {}
    for tag, p, txs in all_paths(ctx, C):
        for tx in txs:
            na = len(p.get("answer", tx))
            nh = p.holds(tx, "self")
            ne = sum(1 for x in p.ev if x[0] in ("exec", "exec_upgrade") and tx[1] in terms_in(x[1]))
            nq = sum(1 for x in p.get("enqueue", "ok") if tx[1] in terms_in(x[2]))
            if p.has("enqueue", "err") and tx == TX2: continue      # handed back with the request, the promise is not returned (checked below)
            total = na + nh + ne + nq
            seen[tag] = seen.get(tag, 0) + 1
            what = "lost without an answer" if total == 0 else "answered or kept more than once"
            ctx.check(total == 1, "reply handle is linear", "linear:" + tag, "the reply handle of a request is %s; %s" % (what, p.text()))
        # after the call the connection must not forget a request it took
        if tag == "h1:recv_msg":
            if p.pre["inflight"]:
                ctx.check(len(p.get("answer", TX)) == 1 and is_adt(p.ret, "Ok"), "result reaches the caller", "deliver:recv", "the outcome of the request in flight is not delivered to its caller; " + p.text())
                a = p.get("answer", TX)
                if a and p.pre["msg"][3] == "Err":
                    ctx.check(is_adt(a[0][2], "Err") and CONNERR[1] in terms_in(a[0][2]), "result reaches the caller", "deliver:err", "the caller is not told the connection error; " + p.text())
                if a and p.pre["msg"][3] == "Ok":
                    ctx.check(is_adt(a[0][2], "Ok") and {RHEAD[1], RBODY[1]} <= terms_in(a[0][2]), "result reaches the caller", "deliver:ok", "the caller does not get the received response; " + p.text())
            elif p.pre["msg"][3] == "Err":
                q = [x for x in p.ev if x[0] == "queue"]
                msg = any(x[-1] == "msg" for x in q)
                if p.pre["rx_closed"] == FALSE and p.st.val_int(p.pre["rx_closed"]) == 0:
                    ctx.check(p.has("queue", "close") and p.has("want", "cancel"), "connection failure closes the queue", "close-queue", "the request queue is left open after the connection failed; " + p.text())
                    i, j = p.idx("queue", "close"), max([k for k, x in enumerate(p.ev) if x[0] == "queue" and x[1] in ("recv", "try", "try_recv", "poll_recv")] or [-1])
                    ctx.check(0 <= i < j, "the queue is drained after it was closed", "drain-queue", "a request already queued is not looked for after closing the queue; " + p.text())
                if msg: ctx.check(is_adt(p.ret, "Ok"), "the error goes to one place", "err-once", p.text())
                else: ctx.check(unwrap(p.ret, "Err") == CONNERR, "the error goes to one place", "err-ret", "a connection error is dropped although nobody was told; " + p.text())
        if tag == "queue:Callback::send":
            a = p.get("answer", TX)
            v = p.pre["val"]
            if a: ctx.check(a[0][2][3] == v[3] and (v[3] != "Ok" or unwrap(a[0][2], "Ok") == WHENRES), "the answer is the one given", "send-val", "the reply handle delivers something else than it was given; " + p.text())
        if tag == "h2:SendWhen::poll":
            a = p.get("answer", TX)
            if p.has("when", "ok"): ctx.check(len(a) == 1 and unwrap(a[0][2], "Ok") == WHENRES and unwrap(p.ret, "Ready") is not None, "the stream's outcome is the answer", "when-ok", p.text())
            if p.has("when", "err"): ctx.check(len(a) == 1 and is_adt(a[0][2], "Err") and WHENERR[1] in terms_in(a[0][2]), "the stream's outcome is the answer", "when-err", p.text())
            if p.has("when", "pending") and p.has("canceled?", TX, "no"):
                ctx.check(is_adt(p.ret, "Pending") and not a, "a pending response is waited for", "when-pending", "a request is answered although its response is still outstanding and its caller waits; " + p.text())
            if is_adt(p.ret, "Pending"): ctx.check(p.holds(TX, "self") == 1, "a pending response is waited for", "when-held", p.text())
    for t, n in (("h1:recv_msg", 4), ("h1:poll_msg", 2), ("h2:ClientTask::poll", 100), ("h2:SendWhen::poll", 4), ("queue:Envelope::drop", 2), ("queue:Callback::drop", 2), ("send:Sender::try_send", 1), ("send:UnboundedSender::send", 1)):
        if seen.get(t, 0) < n: ctx.bad("floor:" + t, "only %d handle paths found in %s" % (seen.get(t, 0), t))
    # ---- sender side
    ctx.rule("a sender returns the promise exactly when the envelope with its handle was queued, otherwise it returns the request; the public futures pass the answer on unchanged")
    for tag, p, txs in all_paths_send(ctx, C):
        enq = p.get("enqueue")
        good = bool(enq) and enq[0][1] == "ok"
        if good:
            ctx.check(unwrap(p.ret, "Ok") == RXNEW and len(enq) == 1 and {TX2[1], REQ[1]} <= terms_in(enq[0][2]), "queued or returned", "queue:" + tag, "the request was queued but the promise is not returned (or not both were queued); " + p.text())
        else:
            ctx.check(unwrap(p.ret, "Err") == REQ, "queued or returned", "return:" + tag, "the request was not queued and is not given back; " + p.text())
    ctx.floor("queued or returned", 8)
    cor = [f for f in P.fns.values() if f.local and f.coroutine and "send_request" in f.n and "client::conn" in f.n]
    ANS, RERR, COR = init("ANSWER"), init("RECVERR"), init("COROUTINE")
    h = [(lambda c, e, st: c.mname == "poll" and "oneshot" in c.short, lambda e, st, c: [(PENDING, ("rx", "pending")), (ready(ok(ANS)), ("rx", "ok")), (ready(err(RERR)), ("rx", "err"))])]
    for f in cor:
        for p in C.run(f, [PIN(mref("self")), mref("cx")][:f.argc], {cell("self"): COR}, extra=h):
            if p.has("rx", "pending"): ctx.check(is_adt(p.ret, "Pending"), "the public future passes the answer on", "future:" + f.n, p.text())
            elif p.has("rx", "ok"):
                v = unwrap(p.ret, "Ready")
                d = p.st.val_int(p.e.discr(p.st, ANS, "std::result::Result"))
                same = v == ANS or (v is not None and v[0] == "adt" and ANS[1] in terms_in(v) and ((v[3] == "Ok") == (d == 0)))
                ctx.check(bool(same), "the public future passes the answer on", "future:" + f.n, "the caller's future changes the answer; " + p.text())
            else:
                v = unwrap(p.ret, "Ready", "Err")
                ctx.check(v is not None, "the public future passes the answer on", "future-err:" + f.n, p.text())
    ctx.floor("the public future passes the answer on", 12)
    # ---- dispatcher: a failing connection tells the client side, once
    ctx.rule("when the dispatcher fails, the error is passed to the client/service side exactly once (and to a streaming body), and is returned only if nobody took it")
    ERR = init("POLL_ERROR")
    D = displib.Disp(ctx)
    stub = [("poll_inner", lambda e, st, c: [(PENDING, ("inner", "pending")), (ready(err(ERR)), ("inner", "err")), (ready(ok(init("DISPATCHED"))), ("inner", "ok"))])]
    for tx in (True, False):
        for p in D.run("poll_catch", role="client", stub=stub, body_tx=tx, extra_args=()) if P.fn("Dispatcher::poll_catch").argc == 2 else D.run("poll_catch", role="client", stub=stub, body_tx=tx, extra_args=(init("SHOULD_SHUTDOWN"),)):
            rm = p.get("disp", "recv_msg")
            if p.has("inner", "err"):
                ctx.check(len(rm) == 1 and rm[0][3] == err(ERR), "failure is passed on once", "catch", "a connection failure is not passed on (once); " + p.text())
                if tx: ctx.check(p.has("tx", "send_error"), "failure reaches the streaming body", "catch-body", "the body in transfer is not told about the connection failure; " + p.text())
                if rm: ctx.check((unwrap(p.ret, "Ready", "Ok") is not None) if rm[0][2] == "ok" else unwrap(p.ret, "Ready", "Err") == init("RECV_ERR"), "failure is returned only if nobody took it", "catch-ret", p.text())
            else: ctx.check(not rm, "no failure, no error", "catch-none", p.text())
    ctx.floor("failure is passed on once", 2)
    # ---- nothing may leak a handle
    ctx.rule("no code path forgets (mem::forget, ManuallyDrop, leak) a value that owns a reply handle")
    owners = ("client::dispatch::", "proto::h1::dispatch::Client", "proto::h2::client::", "H2ClientFuture")
    n = 0
    for f in P.fns.values():
        if not f.local: continue
        for stmts, term, cl in f.blocks:
            if term[0] == "call":
                nm = term[1].get("n", "") if isinstance(term[1], dict) else ""
                if any(nm.endswith(x) or x + "::<" in nm for x in ("mem::forget", "ManuallyDrop::new", "Box::leak")):
                    n += 1
                    ctx.check(not any(o in f.n for o in owners), "nothing is forgotten", "forget:" + f.n, "%s forgets a value" % f.n)
    ctx.ok("nothing is forgotten")

def all_paths_send(ctx, C):
    P = C.P
    for A in ("client::dispatch::Sender", "client::dispatch::UnboundedSender"):
        for nm in ("try_send", "send"):
            f = P.fn(A + "::" + nm)
            for p in C.run(f, [mref("self"), REQ], {cell("self"): mk(P, P.adt(A)["path"], inner=init("QUEUE_TX"))}):
                yield "%s::%s" % (A.split("::")[-1], nm), p, [TX2]
