"""HTTP/2 CONNECT tunnels."""
from rt import *
from c25 import le
import c20, c30, h2slib, h2streamlib as H, clientlib, c19
from clientlib import PIN, Cli, client_task, h2_handlers, RFUT, RSP, H2ERR, TXQ
from h2slib import SP
from c29 import pipe_handlers, payload, TX, CAPERR
from h2streamlib import *
LEVEL = "other"
MPSC, CLOSEN, ITEM, ETX, ERX, MTX, EVAL, WBUF = (init(x) for x in ("TUNNEL_QUEUE", "CLOSE_NOTIFY", "QUEUED_WRITE", "ERROR_TX", "ERROR_RX", "TUNNEL_TX", "TUNNEL_ERROR", "CALLER_BYTES"))
NO_ERROR, CANCEL, STREAM_CLOSED = 0, 8, 5

def task_handlers(P):
    def once(st, *pat): return any(x[:len(pat)] == pat for x in (st.aut or ()))
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == MPSC:
            if m == "poll_next":
                if once(st, "next"): return "stop"
                return [(PENDING, ("next", "pending")), (ready(NONE), ("next", "end")), (ready(some(ITEM)), ("next", "item"))]
            if m == "size_hint":
                def n(k):
                    def g(x):
                        if k == 0: return ("tup", (("int", 0), init("HINT_HI")))
                        v = init("QUEUED"); x.facts[v[1]] = ("rng", 1, 2**40, frozenset()); return ("tup", (v, init("HINT_HI")))
                    return g
                return [(n(0), ("queued", "none")), (n(1), ("queued", "some"))]
        if r == CLOSEN and m == "deref": return [(("ref", (("C", CLOSEN), ()), 0), None)]
        if r == CLOSEN:
            if m == "poll_closed": return [(PENDING, ("closed", "no")), (ready(UNIT), ("closed", "yes"))]
            return [(UNIT, ("notify", m))]
        if r == ETX and m == "send": return [(ok(UNIT), ("error_sent", e.snapshot(st, c.args[1])))]
        return None
    return [(lambda c, e, st: True, h)] + pipe_handlers(P)

def run(ctx):
    cfg = "a"; P = ctx.prog(cfg)
    # ---- the write side task
    ctx.rule("tunnel write task: a queued write is taken only when the stream has capacity, and then sent at once, unchanged, without ending the stream; the stream is ended exactly when the writer closed and nothing is queued; errors and resets are given to the writer")
    A = P.adt("proto::h2::upgrade::UpgradedSendStreamTask")
    f = P.trait_method(A["path"], "Future", "poll")
    tick = P.fn("proto::h2::upgrade::UpgradedSendStreamTask::tick", optional=True)
    e = ctx.engine(cfg, rule=Rec(task_handlers(P)))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], h2_tx=TX, rx=MPSC, close_notify=CLOSEN, error_tx=some(ETX))})
    for p in [SP(e, f, st, v, False) for st, v in e.finals] + [SP(e, f, st, None, True) for st, c in e.rule.stopped]:
        t = p.text(); ev = p.ev
        sends = [(i, x) for i, x in enumerate(ev) if x[0] == "send"]
        nxt = [i for i, x in enumerate(ev) if x[0] == "next"]
        for i in nxt:
            caps = [x for x in ev[:i] if x[0] == "capacity"]
            ctx.check(bool(caps) and caps[-1][1] in ("some", "granted"), "a write is taken only with capacity", "task-cap", "a queued write is taken although the stream has no capacity; " + t)
            ctx.check(any(x[0] == "poll_reset" for x in ev[:i]), "resets are noticed", "task-reset", t)
        items = p.get("next", "item")
        data = [(i, x) for i, x in sends if payload(x[2]) is not None]
        ctx.check(len(data) == len(items) and all(ITEM == payload(x[2]) and x[3] == FALSE for i, x in data), "queued writes are sent unchanged", "task-send", "a queued write is lost, changed or ends the stream; " + t)
        ends = [x for i, x in sends if x[3] == TRUE]
        if p.has("next", "end"): ctx.check(len(ends) == 1, "close ends the stream", "task-end", "the writer closed but the stream is not ended; " + t)
        if ends:
            ctx.check(p.has("next", "end") or p.has("queued", "none") and p.has("closed", "yes"), "close ends the stream", "task-spurious", "the stream is ended although the writer has not closed (or writes are queued); " + t)
            ctx.check(not p.again and is_adt(p.ret, "Ready"), "close ends the stream", "task-done", t)
        bad = p.has("poll_reset", "reset") or p.has("poll_reset", "err") or p.has("capacity", "err") or p.has("capacity", "closed") or any(x[4] == "err" for i, x in sends)
        es = p.get("error_sent")
        ctx.check(bool(es) == bool(bad), "failures reach the writer", "task-err", "a failure of the stream is not reported to the writer (or one is invented); " + t)
        if bad: ctx.check(not p.again and is_adt(p.ret, "Ready"), "failures reach the writer", "task-stop", t)
        if not bad and not ends and not p.again: ctx.check(is_adt(p.ret, "Pending") and (p.has("capacity", "pending") or p.has("next", "pending")), "task waits for something", "task-pending", "the tunnel task stops (or waits for nothing) although neither side is done; " + t)
        if p.has("capacity", "pending") and not bad and not ends:
            ctx.check(p.has("queued", "some") or p.has("closed", "no"), "task waits for something", "task-nocap", "without capacity the task does not watch for the writer closing; " + t)
    for g, n in (("a write is taken only with capacity", 4), ("queued writes are sent unchanged", 10), ("close ends the stream", 4), ("failures reach the writer", 8)): ctx.floor(g, n)
    # ---- H2Upgraded
    U = P.adt("proto::h2::upgrade::H2Upgraded"); B = P.adt("proto::h2::upgrade::UpgradedSendStreamBridge")
    def br(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == MTX:
            if m == "poll_ready": return [(PENDING, ("ready", "pending")), (ready(ok(UNIT)), ("ready", "ok")), (ready(err(init("MPSC_ERR"))), ("ready", "gone"))]
            if m in ("start_send", "try_send"): 
                v = e.snapshot(st, c.args[1])
                return [(ok(UNIT), ("queue", "ok", v)), (err(init("MPSC_ERR")), ("queue", "gone", v))]
            return [(UNIT, ("tx", m))]
        if r == ERX and m == "poll": return [(PENDING, ("err", "pending")), (ready(ok(EVAL)), ("err", "value")), (ready(err(init("CANCELED"))), ("err", "gone"))]
        if r == CLOSEN and m == "deref": return [(("ref", (("C", CLOSEN), ()), 0), None)]
        if r == CLOSEN: return [(UNIT, ("notify", m))]
        if m in ("into",) and r == WBUF: return [(("sym", T("copy", r)), None)]
        if s.endswith("Cursor::new"): return [(("sym", T("cursor", e.snapshot(st, c.args[0]))), None)]
        if m in ("new", "other") and ("io::Error" in s or "io::error" in s): return [(("sym", T("ioerr", e.snapshot(st, c.args[-1]))), None)]
        if m in ("from", "into") and "ErrorKind" in c.short + str(c.targs): return [(("sym", T("iokind", e.snapshot(st, c.args[0]))), None)]
        return None
    def up():
        return mk(P, U["path"], send_stream=mk(P, B["path"], tx=MTX, error_rx=ERX, close_notify=CLOSEN), recv_stream=c30.RX, buf=c30.BUF)
    ctx.rule("tunnel write/flush/shutdown: everything accepted is queued whole and its length reported; a gone task yields its error or a broken pipe (write) / clean end (flush, shutdown); shutdown closes the queue and signals the task")
    for nm in ("poll_write", "poll_flush", "poll_shutdown"):
        f = P.trait_method(U["path"], "Write", nm)
        e = ctx.engine(cfg, rule=Rec([(lambda c, e, st: True, br)]))
        args = [PIN(mref("self")), mref("cx")] + ([sref("buf")] if nm == "poll_write" else [])
        e.run(f, args, heap={cell("self"): up(), cell("buf"): WBUF})
        for p in [SP(e, f, st, v, False) for st, v in e.finals]:
            t = p.text(); q = p.get("queue")
            okv = unwrap(p.ret, "Ready", "Ok"); ev_ = unwrap(p.ret, "Ready", "Err")
            if p.has("err", "value"): ctx.check(ev_ is not None and EVAL[1] in terms_in(ev_), "the tunnel's error is reported", nm + "-err", "the error of a lost tunnel is not what the caller gets; " + t)
            if p.has("err", "pending") or p.has("ready", "pending"): ctx.check(is_adt(p.ret, "Pending"), "pending is passed on", nm + "-pending", t)
            if nm == "poll_write":
                if p.has("err", "gone"): ctx.check(ev_ is not None, "writing into a lost tunnel fails", "write-gone", "bytes written into a tunnel that is gone are reported as written; " + t)
                if q: ctx.check(q[0][2][0] == "sym" and WBUF[1] in terms_in(q[0][2]) and "RangeTo" not in show(q[0][2]), "written bytes are queued whole", "write-bytes", "not all of the caller's bytes are queued; " + t)
                if okv is not None:
                    n = length(WBUF)
                    zero = okv == ("int", 0) or (p.st.val_int(n) == 0)
                    if not q: ctx.check(zero and (p.st.val_int(n) == 0 or entails_le(p.st, n, ("int", 0))), "written bytes are queued whole", "write-noqueue", "bytes are reported as written but not queued; " + t)
                    else: ctx.check(q[0][1] == "ok" and c30.lin_eq(okv, n), "written bytes are queued whole", "write-count", "the count reported is not what was queued; " + t)
            elif nm == "poll_flush":
                if okv is not None: ctx.check(p.has("ready", "ok") or p.has("err", "gone"), "flush waits for the queue", "flush", t)
            else:
                ctx.check(p.has("tx", "close_channel") and bool(p.get("notify")), "shutdown closes the queue and signals", "shutdown", "shutdown does not close the tunnel's write side (or does not wake its task); " + t)
                ctx.check(okv is None or p.has("err", "gone"), "shutdown completes when the task is done", "shutdown-early", t)
    g = P.trait_method(B["path"], "Drop", "drop")
    e = ctx.engine(cfg, rule=Rec([(lambda c, e, st: True, br)]))
    for st, v in e.run(g, [mref("self")], heap={cell("self"): mk(P, B["path"], tx=MTX, error_rx=ERX, close_notify=CLOSEN)}):
        ctx.check(any(x[0] == "notify" for x in (st.aut or ())), "shutdown closes the queue and signals", "drop", "dropping the tunnel does not signal its task")
    for g_, n in (("the tunnel's error is reported", 3), ("written bytes are queued whole", 2), ("writing into a lost tunnel fails", 1), ("shutdown closes the queue and signals", 2)): ctx.floor(g_, n)
    ctx.rule("tunnel read: end of stream, or a no-error / cancel reset, is end of input; every other failure is an error")
    f = P.trait_method(U["path"], "Read", "poll_read")
    RC = init("REASON_CODE")
    def rd(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == init("READBUF"):
            return [(UNIT if c.mname != "remaining" else e.typed(st, ("sym", T("room", r)), "usize"), ("rb", c.mname))]
        if r == c30.RERR and c.mname == "is_io": return [(TRUE, ("is_io", TRUE)), (FALSE, ("is_io", FALSE))]
        if r == c30.RERR and c.mname == "into_io": return [(some(("sym", T("ioerr", c30.RERR))), None)]
        return br(e, st, c)
    e = ctx.engine(cfg, rule=Rec([(lambda c, e, st: True, rd)] + c30.h2_recv(P)))
    e.run(f, [PIN(mref("self")), mref("cx"), init("READBUF")], heap={cell("self"): up(), cell("fc"): c30.FC})
    for p in [SP(e, f, st, v, False) for st, v in e.finals]:
        t = p.text(); okv = unwrap(p.ret, "Ready", "Ok"); ev_ = unwrap(p.ret, "Ready", "Err")
        if p.has("data", "pending"): ctx.check(is_adt(p.ret, "Pending"), "pending is passed on", "read-pending", t)
        if p.has("data", "ok") and okv is not None:
            N = length(c30.DATA); full = le(p.st, ("int", 1), N); put = p.has("rb", "put_slice")
            ctx.check(full and put or p.has("rx_eos", TRUE), "empty data is not the end of input", "read-empty", "a data frame that may be empty reads as the end of input although the stream goes on, or bytes are not handed over; " + t)
            ctx.check(put or le(p.st, N, ("int", 0)), "empty data is not the end of input", "read-dropped", "bytes of the peer are not handed over; " + t)
        if p.has("data", "end"): ctx.check(okv is not None and not p.has("rb", "put_slice"), "end of stream is end of input", "read-end", t)
        if p.has("data", "err"):
            if p.has("noreason"): ctx.check(ev_ is not None and c30.RERR[1] in terms_in(ev_), "a lost tunnel is an error", "read-lost", "a lost connection reads as a clean end; " + t)
            else:
                vs, _ = value_set(p.st, RC, range(16))
                if okv is not None: ctx.check(vs <= {NO_ERROR, CANCEL}, "a lost tunnel is an error", "read-reset", "a reset with code %s reads as a clean end; %s" % (sorted(vs), t))
                else: ctx.check(ev_ is not None and c30.RERR[1] in terms_in(ev_) and not (vs & {NO_ERROR, CANCEL}), "a lost tunnel is an error", "read-noerror", "a no-error or cancel reset (codes %s) is reported as an error; %s" % (sorted(vs), t))
    ctx.floor("a lost tunnel is an error", 3); ctx.floor("end of stream is end of input", 1)
    # ---- opening a tunnel
    ctx.rule("opening: the server sends a successful CONNECT response without content-length and without ending the stream, then builds the tunnel from that stream and the request's receive stream and fulfils the waiting upgrade; content in either direction is refused on the stream; the client does the same on a 200 response to CONNECT")
    for p in H.run_server(ctx, cfg, connect=True):
        t = p.text()
        tun = p.get("tunnel")
        if tun:
            x = p.get("send_response", "ok")
            ctx.check(len(x) == 1 and x[0][3] == FALSE and tun[0][1] == TXS and tun[0][2] == PRECV, "tunnel uses the stream", "srv-stream", "the tunnel is not built from the CONNECT stream; " + t)
            ful = p.get("pending_upgrade")
            ctx.check(len(ful) == 1 and ful[0][1] == "fulfill" and H2UP[1] in terms_in(ful[0][2]) and len(p.get("exec_upgrade")) == 1 and p.get("exec_upgrade")[0][1] == UPTASK, "tunnel is handed over and its task runs", "srv-handover", "the tunnel is not handed over (or its task not started); " + t)
            ctx.check(p.has("hrm", "H", "content-length") or p.has("has", "H", "content-length", False) or any(y[0] == "hrm" and y[2] == "content-length" for y in p.ev), "no content-length on a tunnel", "srv-cl", "a successful CONNECT response keeps a content-length; " + t)
            ctx.check(p.has("cl", "none") or p.has("cl", "zero"), "content is refused on its stream", "srv-body", t)
            code = [i for i in p.st.facts if show_t(i).startswith(show(STATUS)) or STATUS[1] in terms_in(("sym", i))]
            ctx.check(in_2xx(p), "tunnel only on success", "srv-status", "a tunnel is opened for a response that is not 2xx; " + t)
        elif p.has("cl", "nonzero"):
            ctx.check(len(p.get("reset")) == 1 and not p.get("send_response"), "content is refused on its stream", "srv-refuse", t)
        elif p.get("send_response", "ok"):
            ctx.check(not (codes(p) & set(range(200, 300))), "tunnel only on success", "srv-notunnel", "a successful response to CONNECT does not open the tunnel; " + t)
    for p in H.run_server(ctx, cfg, connect=False): ctx.check(not p.get("tunnel"), "tunnel only on CONNECT", "srv-noconnect", p.text())
    C = Cli(ctx, cfg)
    RM = P.adt("proto::h2::client::ResponseFutMap")
    f = P.trait_method(RM["path"], "Future", "poll")
    SS = init("CONNECT_SEND_STREAM")
    def rf(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r == RFUT and m == "poll": return [(PENDING, ("resp", "pending")), (ready(ok(RSP)), ("resp", "ok")), (ready(err(H2ERR)), ("resp", "err"))]
        if r == SS and m == "send_reset": return [(UNIT, ("reset", e.snapshot(st, c.args[1])))]
        if s.endswith("content_length_parse_all"):
            def nz(x):
                l = init("CLEN"); x.facts[l[1]] = ("rng", 1, 2**63, frozenset()); return some(l)
            return [(NONE, ("cl", "none")), (some(("int", 0)), ("cl", "zero")), (nz, ("cl", "nonzero"))]
        if r == RSP and s.startswith("http::Response"):
            if m == "headers": return [(sref("rsp_headers"), None)]
            if m == "status": return [(STATUS, None)]
            if m == "into_parts": return [(("tup", (init("RSP_PARTS"), PRECV)), ("rsp_parts",))]
        if s == "http::Response::from_parts": return [(HRES, None)]
        if c.fn is not None and c.fn.local:
            if s.endswith("upgrade::pair"): return [(("tup", (H2UP, UPTASK)), ("tunnel",) + tuple(c.args))]
            if s.endswith("upgrade::pending"): return [(("tup", (PUP, init("ON_UPGRADE"))), ("upgrade",))]
            if s.endswith("Upgraded::new"): return [(("sym", T("upgraded", c.args[0], e.snapshot(st, c.args[1]))), None)]
            if r == PUP: return [(UNIT, ("pending_upgrade", m) + tuple(e.snapshot(st, a) for a in c.args[1:]))]
        if m == "execute_upgrade": return [(UNIT, ("exec_upgrade", e.snapshot(st, c.args[1])))]
        if s.startswith("http::Extensions") and m == "insert": return [(NONE, ("ext", e.snapshot(st, c.args[1])))]
        if m in ("record_non_data",) : return [(UNIT, None)]
        if m == "ensure_not_timed_out": return [(ok(UNIT), None), (err(init("TIMED_OUT")), ("timed_out",))]
        return None
    for con in (True, False):
        e = ctx.engine(cfg, rule=Rec([(lambda c, e, st: True, rf), c20.ERRS]))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, RM["path"], fut=RFUT, ping=some(PPING), send_stream=some(some(SS) if con else NONE), exec=EXEC)})
        for p in [SP(e, f, st, v, False) for st, v in e.finals]:
            t = p.text()
            tun = p.get("tunnel")
            if tun:
                ctx.check(con and tun[0][1] == SS and tun[0][2] == PRECV and codes(p) == {200}, "tunnel uses the stream", "cli-stream", "a tunnel is opened from something else than a 200 response to CONNECT; " + t)
                ful = p.get("pending_upgrade")
                ctx.check(len(ful) == 1 and ful[0][1] == "fulfill" and H2UP[1] in terms_in(ful[0][2]) and len(p.get("exec_upgrade")) == 1 and p.get("exec_upgrade")[0][1] == UPTASK and any(init("ON_UPGRADE")[1] in terms_in(x[1]) for x in p.get("ext")), "tunnel is handed over and its task runs", "cli-handover", "the tunnel does not reach the caller (or its task is not started); " + t)
            elif con and p.has("resp", "ok"):
                if 200 in codes(p): ctx.check(p.has("cl", "nonzero") and len(p.get("reset")) == 1 and unwrap(p.ret, "Ready", "Err") is not None, "content is refused on its stream", "cli-refuse", "a 200 response to CONNECT opens no tunnel; " + t)
            elif p.has("resp", "ok"): ctx.check(unwrap(p.ret, "Ready", "Ok") is not None and not p.get("reset"), "other responses are passed on", "cli-plain", t)
            if p.has("resp", "pending"): ctx.check(is_adt(p.ret, "Pending"), "pending is passed on", "cli-pending", t)
    ctx.rule("a CONNECT request that promises content is refused on its own stream by both sides (server: reset; client: error without sending)")
    S = h2slib.Srv(ctx)
    for p in S.poll(S.serving(), close_pending=FALSE):
        if p.has("connect", "yes") and p.has("cl", "nonzero"): ctx.check(p.again and len([x for x in p.get("respond") if x[1] == "send_reset"]) == 1 and not p.get("service"), "CONNECT with content refused", "acc-refuse", "a CONNECT request with content is not refused on its stream alone; " + p.text())
        elif p.has("accept", "ok") and not p.has("connect", "yes"): ctx.check(not p.get("upgrade"), "tunnel only on CONNECT", "acc-noupgrade", p.text())
        elif p.has("accept", "ok"): ctx.check(len(p.get("upgrade")) == 1 and any(h2slib.PEND[1] in terms_in(x[1]) and h2slib.RSTREAM[1] in terms_in(x[1]) for x in p.get("exec")) and any(x[1] == h2slib.UPG for x in p.get("ext")), "CONNECT is offered as an upgrade", "acc-offer", "a CONNECT request does not carry the upgrade the stream will fulfil; " + p.text())
    f = P.trait_method(P.adt("proto::h2::client::ClientTask")["path"], "Future", "poll")
    for p in C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): client_task(P, False, "Retry")}, kind="Retry", extra=h2_handlers(P, C)):
        if p.has("connect?", TRUE) and p.has("cl", "nonzero"): ctx.check(not p.get("send_request") and len([x for x in p.get("answer") if x[1] == TXQ]) == 1, "CONNECT with content refused", "cli-send-refuse", "the client sends a CONNECT request that promises content; " + p.text())
        elif p.has("connect?", TRUE) and p.get("send_request"): ctx.check(p.has("cl"), "CONNECT with content refused", "cli-send-unchecked", "a CONNECT request is sent without looking at its content-length; " + p.text())
    for g_, n in (("tunnel uses the stream", 2), ("tunnel is handed over and its task runs", 2), ("content is refused on its stream", 2), ("tunnel only on success", 3), ("CONNECT with content refused", 2), ("CONNECT is offered as an upgrade", 1)): ctx.floor(g_, n)

def length(v): return c30.length(v)
def codes(p):
    """status codes possible on the path"""
    best = None
    for i, c in p.st.facts.items():
        if STATUS[1] in terms_in(("sym", i)) or i == STATUS[1]:
            if TERMS[i][0] in ("cmp", "bin", "not"): continue
            vs = {x for x in range(100, 1000) if not c_empty(c_meet_in(c, frozenset((x,))))}
            best = vs if best is None else best & vs
    for i, c in p.st.facts.items():
        t = TERMS[i]
        if t[0] == "cmp" and best is not None and STATUS[1] in terms_in(("sym", i)):
            lf = [y for y in t[2:4] if y[0] == "sym"]; k = [y for y in t[2:4] if y[0] == "int"]
            if len(lf) == 1 and len(k) == 1 and c_single(c) is not None:
                f = (lambda x: int(x == k[0][1])) if t[1] == "Eq" else (lambda x: int(x < k[0][1]) if t[3] == k[0] else int(k[0][1] < x))
                best = {x for x in best if f(x) == c_single(c)}
    return best if best is not None else set(range(100, 1000))
def in_2xx(p): return codes(p) <= set(range(200, 300))
