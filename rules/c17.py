"""Back-pressure: bodies and heads are produced only while the write buffer has room."""
from rt import *
import displib, connlib
LEVEL = "other"

def run(ctx):
    D = displib.Disp(ctx)
    ctx.rule("on every path of the dispatcher's write side the body is polled only after the connection answered, with no operation in between, that it can buffer body data and that body writing is open")
    n = 0
    for role in ("server", "client"):
        for kw in (dict(body_rx=True), dict()):
            for p in D.run("poll_write", role=role, **kw):
                for i, x in enumerate(p.ev):
                    if x[:2] == ("body", "poll_frame"):
                        ctx.check(p.q_before(i, "can_buffer_body") == TRUE, "body polled with room", "poll-room:%s" % role, "the body is polled without asking whether the write buffer has room; " + p.text())
                        ctx.check(p.q_before(i, "can_write_body") == TRUE, "body polled while body writing is open", "poll-open:%s" % role, "the body is polled although body writing is not open; " + p.text())
                    if x[0] == "op" and x[1] in ("write_body", "write_body_and_end"):
                        ctx.check(any(y[:2] == ("body", "poll_frame") for y in p.ev[:i]), "chunk comes from the body", "chunk", p.text())
                    if x[:2] == ("disp", "poll_msg"):
                        ctx.check(p.q_before(i, "can_write_head") == TRUE, "message taken with room for a head", "msg-room:%s" % role, "the next outgoing message is taken without asking whether a head can be written; " + p.text())
                    if x[:2] == ("op", "write_head"):
                        ctx.check(p.q_before(i, "can_write_head") == TRUE, "head written with room", "head-room:%s" % role, "a head is written without asking whether it can be; " + p.text())
                # no room -> flush, and nothing is produced until the flush is done
                fl = [i for i, x in enumerate(p.ev) if x[:2] == ("q", "can_buffer_body") and x[2] == FALSE]
                for i in fl:
                    rest = p.ev[i + 1:]
                    if not rest: ctx.check(p.again, "a full buffer is flushed", "full-flush:%s" % role, "the write side stops on a full buffer without flushing; " + p.text()); continue
                    ops = [y for y in rest if y[0] in ("op", "body", "disp")]
                    ctx.check(bool(ops) and ops[0][:2] == ("op", "poll_flush") or p.again and not ops, "a full buffer is flushed", "full-flush:%s" % role, "with a full write buffer the write side continues without flushing; " + p.text())
                for i, x in enumerate(p.ev):
                    if x[:3] == ("op", "poll_flush", "pending"):
                        ctx.check(i == len(p.ev) - 1 and not p.again and is_adt(p.ret, "Pending"), "a blocked flush pauses production", "flush-pending:%s" % role, "production continues although flushing is blocked; " + p.text())
    ctx.floor("body polled with room", 20); ctx.floor("message taken with room for a head", 4); ctx.floor("a full buffer is flushed", 10)
    # ---- what the connection's answers mean
    ctx.rule("can_buffer_body and can_write_head answer yes only if the transport buffer's own predicates do")
    L = connlib.Lib(ctx)
    Q = L.queries()
    for role in ("server", "client"):
        for r in connlib.READ:
            for w in connlib.WRITE:
                for t in L.run(Q["can_buffer_body"], role, r, w, "Busy"):
                    v = t.st.val_int(t.ret) if t.ret[0] != "bool" else t.ret[1]
                    ctx.check(v == 0 or t.has("can_buffer", TRUE), "can_buffer_body meaning", "cbb", "can_buffer_body answers yes although the buffer is full; " + t.text())
                for t in L.run(Q["can_write_head"], role, r, w, "Busy"):
                    v = t.ret[1] if t.ret[0] == "bool" else t.st.val_int(t.ret)
                    ctx.check(v == 0 or (t.has("can_headers_buf", TRUE) and w == "Init"), "can_write_head meaning", "cwh", "can_write_head answers yes although body bytes are queued or a message is being written; " + t.text())
    buffer_room(ctx)
    queue_room(ctx)
    # ---- reading ahead
    ctx.rule("the dispatcher reads body data only after the body channel reported room, and forwards it before reading more; the connection reads ahead in the middle of an exchange only into an empty buffer")
    for role in ("server", "client"):
        for kw in (dict(body_tx=True), dict()):
            for p in D.run("poll_read", role=role, **kw):
                rd = None
                for i, x in enumerate(p.ev):
                    if x[:2] == ("op", "poll_read_body"):
                        j = [k for k in range(i) if p.ev[k][0] == "tx"]
                        ctx.check(bool(j) and p.ev[j[-1]][1:3] == ("poll_ready", "ok"), "body read with room in the channel", "read-room:%s" % role, "body data is read before the body channel has room; " + p.text())
                        if x[2] in ("data", "trailers"):
                            nx = [y for y in p.ev[i + 1:] if y[0] == "tx"]
                            ctx.check(bool(nx) and nx[0][1] == "try_send_" + ("data" if x[2] == "data" else "trailers"), "read data is forwarded", "read-forward:%s" % role, "a %s frame read from the connection is not forwarded; %s" % (x[2], p.text()))
                    if x[:3] == ("tx", "poll_ready", "pending"):
                        ctx.check(not p.again and is_adt(p.ret, "Pending") and p.tx() in (some(displib.SENDER), some(displib.SENDER2)), "full channel pauses reading", "chan-pending:%s" % role, "reading goes on, or the body is lost, although its reader is not ready; " + p.text())
    ctx.floor("body read with room in the channel", 10)
    for role in ("server", "client"):
        for f in L.ent:
            if f.name != "poll_read_keep_alive": continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        for t in L.run(f, role, r, w, k):
                            for i, x in enumerate(t.ev):
                                if x[0] == "ioread":
                                    ctx.check(any(y[:2] == ("rbempty", TRUE) for y in t.ev[:i]), "read-ahead only into an empty buffer", "read-ahead", "more input is read while earlier input is still unparsed; " + t.text())
    ctx.floor("read-ahead only into an empty buffer", 8)

def wb_handlers(P):
    HREM, QREM, CNT = init("HEAD_REMAINING"), init("QUEUE_REMAINING"), init("QUEUE_COUNT")
    BL = P.adt("BufList")["path"]
    def h(e, st, c):
        if not c.args: return None
        p = recv_path(e, st, c)
        fs = fields_on(p)
        m = c.mname
        if "queue" in fs or recv(e, st, c) == init("WriteBuf.queue"):
            if m == "remaining": return [(nn(QREM), None)]
            if m == "has_remaining": return [((lambda s: absint_gt0(e, s, QREM)), None)]
            if m in ("bufs_cnt", "len"): return [(nn(CNT), None)]
            if m == "is_empty": return None
        if "headers" in fs or recv(e, st, c) == init("WriteBuf.headers"):
            if m == "remaining": return [(nn(HREM), None)]
            if m == "has_remaining": return [((lambda s: absint_gt0(e, s, HREM)), None)]
        return None
    def nn(v):
        def f(s):
            if v[1] not in s.facts: s.facts[v[1]] = ("rng", 0, 2**63, frozenset())
            return v
        return f
    def absint_gt0(e, s, v):
        return ("sym", T("cmp", "Lt", ("int", 0), v))
    return h, HREM, QREM, CNT

def buffer_room(ctx):
    P = ctx.prog()
    B = P.adt("proto::h1::io::Buffered"); WB = P.adt("proto::h1::io::WriteBuf"); WS = P.adt("proto::h1::io::WriteStrategy")
    h, HREM, QREM, CNT = wb_handlers(P)
    MAX = init("MAX_BUF")
    ctx.rule("the write buffer accepts more body only while it holds fewer bytes than its limit, for both buffering strategies, and bounds the number of queued buffers")
    for pipe in (FALSE, TRUE):
        for strat in ("Flatten", "Queue"):
            wb = mk(P, WB["path"], max_buf_size=MAX, strategy=("adt", WS["path"], WS["vix"][strat], strat, ()), headers=init("WriteBuf.headers"), queue=init("WriteBuf.queue"))
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
            f = P.fn("Buffered::can_buffer")
            fin = e.run(f, [sref("self")], heap={cell("self"): mk(P, B["path"], write_buf=wb, flush_pipeline=pipe)}, facts={MAX[1]: ("rng", 0, 2**63, frozenset())})
            for st, v in fin:
                yes = v[1] if v[0] == "bool" else st.val_int(v)
                if v[0] == "sym" and yes is None:
                    # symbolic answer: split it
                    for val in (1, 0):
                        s2 = st.fork()
                        if not e.assume_in(s2, v, frozenset((val,))) : continue
                        judge(ctx, s2, pipe, strat, val, HREM, QREM, CNT, MAX)
                else: judge(ctx, st, pipe, strat, yes, HREM, QREM, CNT, MAX)
    ctx.floor("limit honoured", 4)
    f = P.fn("Buffered::can_headers_buf")
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
    wb = mk(P, WB["path"], headers=init("WriteBuf.headers"), queue=init("WriteBuf.queue"))
    for st, v in e.run(f, [sref("self")], heap={cell("self"): mk(P, B["path"], write_buf=wb)}):
        opts = [(v[1], st)] if v[0] == "bool" else []
        if not opts:
            for val in (1, 0):
                s2 = st.fork()
                if e.assume_in(s2, v, frozenset((val,))): opts.append((val, s2))
        for val, s2 in opts:
            if val: ctx.check(upper_bound(s2, QREM) == 0, "head room means an empty body queue", "chb", "can_headers_buf answers yes while body bytes are queued")
    ctx.floor("head room means an empty body queue", 1)

def judge(ctx, st, pipe, strat, yes, HREM, QREM, CNT, MAX):
    if not yes: return
    total = ("sym", T("bin", "Add", ("sym", T("bin", "Add", HREM, QREM)), ("int", 1)))
    ctx.check(entails_le(st, total, MAX), "limit honoured", "limit:" + strat, "with the %s strategy the write buffer says it can take more although it is not known to hold less than its limit" % strat)
    if strat == "Queue":
        b = upper_bound(st, CNT)
        ctx.check(b is not None and b <= 63, "queued buffers bounded", "count", "the number of queued buffers is not bounded (or exceeds what one vectored write takes)")

def queue_room(ctx):
    """The client's request queue: at most one request waits which the connection has not asked for."""
    P = ctx.prog(); G = "request queue"
    ctx.rule("a request enters the queue of an HTTP/1 client connection only when the connection asked for one or none was ever queued before; a request put there unasked is remembered; a request that was asked for is taken")
    A = P.adt("client::dispatch::Sender"); GIVER, QTX = init("GIVER"), init("QUEUE_TX")
    def h(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == GIVER:
            if c.mname == "give": return [(TRUE, ("give", True)), (FALSE, ("give", False))]
            if c.mname == "is_wanting": return [(TRUE, ("wanting", True)), (FALSE, ("wanting", False))]
        if r == QTX and c.mname == "send": return [(ok(UNIT), ("queued",)), (err(init("REFUSED")), ("queue-closed",))]
        if c.mname == "channel": return [(("tup", (init("TX"), init("RX"))), None)]
        return None
    for nm in ("try_send", "send"):
        f = P.fn("client::dispatch::Sender::" + nm)
        for once in (TRUE, FALSE):
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
            fin = e.run(f, [mref("self"), init("REQ")], heap={cell("self"): mk(P, A, giver=GIVER, inner=QTX, buffered_once=once)})
            for st, v in fin:
                ev = list(st.aut or ()); put = [i for i, x in enumerate(ev) if x[0] in ("queued", "queue-closed")]
                asked = ("give", True) in ev
                after = st.val_int(fget(P, st, e.read(st, (cell("self"), ())), A, "buffered_once", eng=e))
                tx = "%s, one was queued before=%s: %s" % (nm, once == TRUE, ev)
                ctx.check(len(put) <= 1, G, "twice", "a request is queued twice: " + tx)
                if put:
                    ctx.check(("give", True) in ev[:put[0]] or once == FALSE, G, "unasked", "a second request is queued although the connection has not asked for one: " + tx)
                    if not asked: ctx.check(after == 1, G, "forgotten", "a request is queued unasked and this is not remembered, so the queue has no bound: " + tx)
                else: ctx.check((("give", False) in ev or ("wanting", False) in ev) and once == TRUE, G, "refused", "a request is refused although there is room for it: " + tx)
                ctx.check(once == FALSE or after == 1, G, "reset", "that a request was queued unasked is forgotten: " + tx)
    ctx.floor(G, 10)
