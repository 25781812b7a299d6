"""Cross-task signals cannot be lost."""
from rt import *
from hdrlib import cref
import c20, c26, c33, h2streamlib as H
from clientlib import PIN
from h2slib import SP
from c29 import TX
LEVEL = "other"
SHARED, CLOSEN, INNER, TAKER = init("WATCH_SHARED"), init("CLOSE_SHARED"), init("CHANNEL"), init("TAKER")
CXW = init("CX_WAKER")
WOKEN = init("EXEC_WAKER")
SIGNALS = (SHARED, CLOSEN, WOKEN)
BOOLEAN = ("rng", 0, 1, frozenset())

def val(st, v):
    """the one value v can have on this path"""
    if v[0] != "sym": return st.val_int(v)
    s = value_set(st, v, range(0, 4))[0]
    return next(iter(s)) if len(s) == 1 else None

def sync_handlers(extra=()):
    """atomics of the shared signals: every read is a fresh value; AtomicWaker: register/wake events"""
    def h(e, st, c):
        m, s = c.mname, c.short
        if c.args and m in ("deref", "as_ref", "borrow") and recv(e, st, c) in SIGNALS: return [(("ref", (("C", recv(e, st, c)), ()), 0), None)]
        if c.args and m == "clone" and recv(e, st, c) in SIGNALS: return [(recv(e, st, c), None)]
        if m == "waker" and "Context" in s: return [(cref(CXW), None)] if recv_path(e, st, c) == (cell("cx"), ()) else None
        waker = "AtomicWaker" in s; atom = "sync::atomic::Atomic" in s
        if not (waker or atom) or not c.args or m == "new": return None
        p = recv_path(e, st, c)
        own = (p[0][1] if p and p[0][0] == "C" else None, fields_on(p)[:-1]) if p else None
        fld = fields_on(p)[-1] if p and fields_on(p) else None
        own = (own[0], tuple(own[1])) if own else None
        if waker: return [(UNIT if m != "take" else e.fresh(st, "site", s, c.site[0], c.site[1]), (m, own, fld, e.snapshot(st, recv(e, st, c, 1)) if len(c.args) > 1 else None))]
        dom = [FALSE, TRUE] if "bool" in c.name + s + str(c.targs) else [("int", k) for k in range(3)]
        if m == "load": return [(d, ("get", own, fld, d)) for d in dom]
        if m == "store": return [(UNIT, ("set", own, fld, c.args[1], "maybe"))]
        if m == "swap":
            iv = st.val_int(c.args[1])
            return [(d, ("set", own, fld, c.args[1], "maybe" if iv is None else "same" if d[1] == iv else "changed")) for d in dom]
        return [(d, ("odd", own, fld, m)) for d in dom]
    return list(extra) + [(lambda c, e, st: True, h)]

def discipline(ctx, p, G, key):
    """publish, then wake; register, then look again"""
    t = p.text(); ev = p.ev
    for i, x in enumerate(ev):
        if x[0] == "odd": ctx.bad("odd:" + key, "an operation on a signal this rule does not know: %s; %s" % (x[3], t), G)
        if x[0] == "wake":
            ctx.check(any(y[0] == "set" and y[1] == x[1] for y in ev[:i]), G, "publish:" + key, "the other side is woken before the signal is published; " + t)
        if x[0] == "set" and x[4] != "same":
            ctx.check(any(y[0] == "wake" and y[1] == x[1] for y in ev[i:]), G, "wake:" + key, "a signal is published but the other side is not woken afterwards; " + t)
        if x[0] in ("register", "wake"): ctx.check(x[2] is not None and (x[0] != "register" or x[3] is not None), G, "slot:" + key, t)

def pending_ok(p, own, ctx, G, key):
    """the answer 'not yet' rests on a look after the registration"""
    ev = p.ev
    regs = [i for i, x in enumerate(ev) if x[0] == "register" and x[1][0] == own]
    gets = [i for i, x in enumerate(ev) if x[0] == "get" and x[1][0] == own]
    ctx.check(bool(regs), G, "register:" + key, "nothing wakes this side when the signal comes; " + p.text())
    if regs: ctx.check(any(g > regs[-1] for g in gets), G, "recheck:" + key, "the signal is not looked at again after the waker was registered: a signal between the two is lost; " + p.text())

def waker_is_cx(ctx, p, G, key):
    for x in p.ev:
        if x[0] == "register": ctx.check(x[3] == CXW, G, "whose:" + key, "another waker than the current task's is registered; " + p.text())

def demand(ctx, P):
    G = "body demand"
    ctx.rule("body demand (watch channel): every change is stored before the body's producer is woken, and it is woken after every change; a poll of the body that has to wait for data has published the demand; dropping the body publishes the close")
    ctx.rule("the producer asks: when it answers 'not yet' its current waker is registered and the value was read after that; each value gets its meaning (demand: ready, none: pending, closed: error)")
    WS, WR = P.adt("common::watch::Sender"), P.adt("common::watch::Receiver")
    I = P.adt("body::incoming::Incoming")
    f = P.trait_method(I["path"], "Body", "poll_frame")
    e = ctx.engine(rule=Rec(sync_handlers(c26.chan_recv()) + [c20.ERRS]))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, I["path"], kind=c26.kind(P, "Chan", content_length=c26.dlen(P, init("CL")), want_tx=mk(P, WS["path"], shared=SHARED), data_rx=c26.DRX, trailers_rx=c26.TRX))})
    READY = None
    for st, v in e.finals:
        p = SP(e, f, st, v, False)
        discipline(ctx, p, G, "frame")
        s = p.get("set")
        if is_adt(v, "Pending"):
            ctx.check(bool(s) and val(st, s[-1][3]) not in (None, 0), G, "demand", "a poll of the body waits for data without asking for it; " + p.text())
            if s: READY = s[-1][3]
        for x in s: ctx.check(val(st, x[3]) not in (None, 0), G, "demand-value", "a poll of the body signals that it is closed (or an unknown value); " + p.text())
    d = P.trait_method(WS["path"], "Drop", "drop")
    e = ctx.engine(rule=Rec(sync_handlers())); e.run(d, [mref("self")], heap={cell("self"): mk(P, WS["path"], shared=SHARED)})
    for st, v in e.finals:
        p = SP(e, d, st, v, False); discipline(ctx, p, G, "drop")
        s = p.get("set"); ctx.check(len(s) == 1 and val(st, s[0][3]) == 0, G, "drop-closed", "dropping the body does not tell its producer; " + p.text())
    # the values themselves
    g = P.fn("common::watch::Sender::send")
    for n in (0, 1, 2):
        e = ctx.engine(rule=Rec(sync_handlers())); e.run(g, [mref("self"), ("int", n)], heap={cell("self"): mk(P, WS["path"], shared=SHARED)})
        for st, v in e.finals:
            p = SP(e, g, st, v, False); discipline(ctx, p, G, "send")
            s = p.get("set"); gets = p.get("get")
            ctx.check(all(val(st, x[3]) == n for x in s) and (s or any(val(st, x[3]) == n for x in gets)), G, "send-value", "sending %d publishes something else; %s" % (n, p.text()))
    # the producer
    S = P.adt("body::incoming::Sender")
    f = P.fn("body::incoming::Sender::poll_ready")
    def tx(e, st, c):
        if c.args and recv(e, st, c) == init("DATA_TX") and c.mname == "poll_ready": return [(PENDING, ("data_tx", "pending")), (ready(ok(UNIT)), ("data_tx", "ready")), (ready(err(init("SEND_ERR"))), ("data_tx", "gone"))]
        return None
    e = ctx.engine(rule=Rec(sync_handlers([(lambda c, e, st: True, tx)]) + [c20.ERRS]))
    e.run(f, [mref("self"), mref("cx")], heap={cell("self"): mk(P, S["path"], want_rx=mk(P, WR["path"], shared=SHARED), data_tx=init("DATA_TX"))})
    seen = set()
    for st, v in e.finals:
        p = SP(e, f, st, v, False); discipline(ctx, p, G, "ready"); waker_is_cx(ctx, p, G, "ready")
        g = [val(st, x[3]) for x in p.get("get")]
        last = g[-1] if g else None
        if is_adt(v, "Pending"):
            seen.add("pending")
            if not p.has("data_tx", "pending"): pending_ok(p, SHARED, ctx, G, "ready"); ctx.check(last == 1, G, "meaning", "the producer waits although the value is %s; %s" % (last, p.text()))
        elif unwrap(v, "Ready", "Ok") is not None: seen.add("ok"); ctx.check(READY is not None and last == st.val_int(READY) and p.has("data_tx", "ready"), G, "meaning", "the producer is told to go on although the value is %s; %s" % (last, p.text()))
        elif unwrap(v, "Ready", "Err") is not None: seen.add("err"); ctx.check(last == 0 or p.has("data_tx", "gone"), G, "meaning", "the producer is told that the body is gone although the value is %s; %s" % (last, p.text()))
    ctx.check(seen == {"pending", "ok", "err"}, G, "outcomes", "asking for demand only ever gives %s" % sorted(seen))
    ctx.floor(G, 20)

def tunnel(ctx, P):
    G = "tunnel close"
    ctx.rule("tunnel close: shutdown and drop of the upgraded stream store the flag and then wake the write task; the task ends the stream without capacity only if it saw the queue empty after it saw the flag (a write accepted before the close is never lost), and before it waits it registers and looks again")
    U, B = P.adt("proto::h2::upgrade::H2Upgraded"), P.adt("proto::h2::upgrade::UpgradedSendStreamBridge")
    d = P.trait_method(B["path"], "Drop", "drop")
    def ext(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == c33.MTX: return [(UNIT, ("mpsc", c.mname))]
        if r == c33.ERX and c.mname == "poll": return [(PENDING, ("err", "pending")), (ready(err(init("CANCELED"))), ("err", "gone")), (ready(ok(c33.EVAL)), ("err", "value"))]
        if "io::Error" in c.short or "io::error" in c.short: return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), None)]
        return None
    def br(): return mk(P, B["path"], tx=c33.MTX, error_rx=c33.ERX, close_notify=CLOSEN)
    runs = [(d, [mref("self")], {cell("self"): br()}, "drop")]
    sh = P.trait_method(U["path"], "Write", "poll_shutdown")
    runs.append((sh, [PIN(mref("self")), mref("cx")], {cell("self"): mk(P, U["path"], send_stream=br())}, "shutdown"))
    FLAG = None
    for f, a, hp, key in runs:
        e = ctx.engine(rule=Rec(sync_handlers([(lambda c, e, st: True, ext)]))); e.run(f, a, heap=hp)
        for st, v in e.finals:
            p = SP(e, f, st, v, False); discipline(ctx, p, G, key)
            s = p.get("set"); ctx.check(bool(s) and val(st, s[-1][3]) == 1, G, "flag:" + key, "the close is not signalled to the write task; " + p.text())
            if s: FLAG = s[-1][1:3]
            if key == "shutdown":
                i = p.idx("mpsc", "close_channel"); ctx.check(i >= 0, G, "channel", "shutdown leaves the queue open; " + p.text())
    A = P.adt("proto::h2::upgrade::UpgradedSendStreamTask")
    f = P.trait_method(A["path"], "Future", "poll")
    old, c33.CLOSEN = c33.CLOSEN, init("NOT_USED")
    try:
        e = ctx.engine(rule=Rec(sync_handlers(c33.task_handlers(P))))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], h2_tx=TX, rx=c33.MPSC, close_notify=CLOSEN, error_tx=some(c33.ETX))})
    finally: c33.CLOSEN = old
    n = 0
    for st, v in e.finals:
        p = SP(e, f, st, v, False); ev = p.ev; t = p.text()
        discipline(ctx, p, G, "task"); waker_is_cx(ctx, p, G, "task")
        gets = [(i, x) for i, x in enumerate(ev) if x[0] == "get"]
        closed = [i for i, x in gets if val(st, x[3]) == 1]
        ends = [i for i, x in enumerate(ev) if x[0] == "send" and x[3] == TRUE]
        err_ = p.has("poll_reset", "reset") or p.has("poll_reset", "err") or p.has("capacity", "err") or p.has("capacity", "closed") or any(x[0] == "send" and x[4] == "err" for x in ev)
        if ends and not p.has("next", "end"):
            n += 1
            ctx.check(bool(closed) and any(x == ("queued", "none") for x in ev[closed[0] + 1:]), G, "order", "the stream is ended although the queue was last found empty before the close was seen: a write accepted in between is lost; " + t)
        if is_adt(v, "Pending") and not err_:
            if not p.has("queued", "some") and not p.has("next", "pending"):
                n += 1; pending_ok(p, CLOSEN, ctx, G, "task")
                ctx.check(not closed, G, "deaf", "the task waits although it saw the close with nothing queued; " + t)
        for i, x in gets: ctx.check(FLAG == x[1:3], G, "same-flag", "the task looks at another flag than the one the stream sets (%s / %s)" % (x[1:3], FLAG))
    ctx.floor(G, 12)
    ctx.check(n >= 2, G, "none", "the task without capacity was not found")

def channel(ctx, P):
    G = "dispatch readiness"
    ctx.rule("dispatch channel: a connection that waits for a request has polled the queue with its waker and then told the sender that it wants one; closing or dropping it tells the sender")
    R = P.adt("client::dispatch::Receiver")
    def h(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == INNER and c.mname == "poll_recv": return [(PENDING, ("recv", "pending")), (ready(NONE), ("recv", "end")), (ready(some(init("ENVELOPE"))), ("recv", "item"))]
        if r == INNER: return [(UNIT, ("chan", c.mname))]
        if r == TAKER: return [(UNIT, ("taker", c.mname))]
        return None
    def run(f, args):
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)])); e.run(f, args, heap={cell("self"): mk(P, R["path"], inner=INNER, taker=TAKER)})
        return [SP(e, f, st, v, False) for st, v in e.finals]
    n = 0
    for p in run(P.fn("client::dispatch::Receiver::poll_recv"), [mref("self"), mref("cx")]):
        if is_adt(p.ret, "Pending"):
            n += 1
            i = p.idx("recv", "pending"); ctx.check(i >= 0 and ("taker", "want") in p.ev[i:], G, "want", "the connection waits for a request without telling the sender that it may send one; " + p.text())
        else: ctx.check(not p.has("recv", "pending"), G, "spurious", p.text())
    ctx.check(n > 0, G, "pending", "poll_recv never waits")
    for f, a in ((P.trait_method(R["path"], "Drop", "drop"), [mref("self")]), (P.fn("client::dispatch::Receiver::close"), [mref("self")])):
        for p in run(f, a):
            ctx.check(p.has("taker", "cancel"), G, "cancel:" + f.name, "senders are not told that the connection is gone; " + p.text())
            if f.name == "close": ctx.check(p.has("chan", "close"), G, "close", "closing leaves the queue open; " + p.text())
    ctx.floor(G, 5)

def slots(ctx, cfg):
    P = ctx.prog(cfg); G = "every registration"
    ctx.rule("every function that registers in an atomic waker reads a signal after it; the handle that registers for body demand has one owner (it cannot be cloned)")
    ctx.check(not any(f.trait and f.trait.endswith("Clone") and f.n.startswith("<common::watch::Receiver") for f in P.fns.values()), G, "clone", "the watch receiver can be cloned: two tasks would share one waker slot")
    for f in P.fns.values():
        if not f.local or not any(b[1][0] == "call" and "AtomicWaker" in str(b[1][1]) and "register" in str(b[1][1]) for b in f.blocks): continue
        e = ctx.engine(cfg, rule=Rec(sync_handlers()))
        e.run(f, [mref("self")] + [mref("cx")] * (f.argc - 1))
        for st, v in e.finals:
            ev = st.aut or (); regs = [i for i, x in enumerate(ev) if x[0] == "register"]
            for i in regs: ctx.check(any(x[0] in ("get", "set") for x in ev[i:]), G, "recheck:" + f.n, "%s registers a waker and does not look at the signal afterwards" % f.n)
    ctx.floor(G, 3)

QUEUE, DRIVER, TASKS = init("SPAWN_QUEUE"), init("DRIVER"), init("SPAWNED")

def executor(ctx):
    P = ctx.prog("b"); G = "C executor"
    ctx.rule("the C executor reports nothing to do only after it saw, later than its last poll of the tasks, the spawn queue empty and no wake-up pending; spawned tasks taken from the queue are all handed to the driver; a wake-up is recorded")
    X = P.adt("ffi::task::hyper_executor")
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if r in (QUEUE, DRIVER) and m in ("lock", "try_lock"): return [(ok(r), None)] if m == "lock" else None
        if r in (QUEUE, DRIVER) and m in ("deref", "deref_mut"): return [(cref(r), None)]
        if m == "panic_if_poisoned": return [(c.args[0][4][0] if c.args[0][0] == "adt" else c.args[0], None)]
        if m == "is_empty" and r == QUEUE: return [(TRUE, ("take", "empty")), (FALSE, ("full",))]
        if m in ("take", "replace", "drain") and r == QUEUE:
            if st.aut and st.aut[-1] == ("full",): return [(TASKS, ("take", "some"))]
            return [(TASKS, ("take", "empty")), (TASKS, ("take", "some"))]
        if r == TASKS or (c.args and c.args[0] == TASKS):
            last = [x for x in st.aut or () if x[0] == "take"][-1][1]
            if m == "is_empty": return [(TRUE if last == "empty" else FALSE, None)]
            if m == "len": return [(("int", 0 if last == "empty" else 1), None)]
            if m in ("into_iter", "iter", "drain"): return [(TASKS, None)]
            if m == "next":
                done = ("push",) in (st.aut or ())[max(i for i, x in enumerate(st.aut) if x[0] == "take"):]
                return [(NONE, None)] if done or last == "empty" else [(some(init("TASK")), ("item",))]
        if r == DRIVER:
            if m in ("poll_next", "poll_next_unpin"):
                if sum(1 for x in st.aut or () if x[0] == "driver") >= 3: return "stop"
                return [(PENDING, ("driver", "pending")), (ready(NONE), ("driver", "empty")), (ready(some(init("DONE_TASK"))), ("driver", "task"))]
            if m == "push": return [(UNIT, ("push",))]
            if m == "extend": return [(UNIT, ("push",))]
            if m in ("is_empty", "len"): return None
        if m in ("waker_ref", "from_waker", "into_waker", "waker"): return [(init("EXEC_CX"), None)]
        return None
    f = P.fn("ffi::task::hyper_executor::poll_next")
    e = ctx.engine("b", rule=Rec(sync_handlers([(lambda c, e, st: True, h)])))
    e.run(f, [mref("self")], heap={cell("self"): mk(P, X["path"], driver=DRIVER, spawn_queue=QUEUE, is_woken=WOKEN)})
    n = 0
    for st, v in e.finals:
        p = SP(e, f, st, v, False); ev = p.ev; t = p.text()
        takes = [i for i, x in enumerate(ev) if x == ("take", "some")]
        for i in takes: ctx.check(any(x == ("push",) for x in ev[i:]), G, "lost", "a spawned task is taken from the queue and dropped; " + t)
        polls = [i for i, x in enumerate(ev) if x[0] == "driver"]
        ctx.check(bool(polls), G, "nopoll", "the executor returns without polling a task; " + t)
        ctx.check(any(x[0] == "take" for x in ev[:polls[0]]) if polls else False, G, "drain", "the tasks are polled before those spawned since the last time are added; " + t)
        if not polls: continue
        if is_adt(v, "None") and ev[polls[-1]] == ("driver", "pending"):
            n += 1; after = ev[polls[-1]:]
            ctx.check(("take", "empty") in after, G, "spawned", "the executor stops without looking for tasks spawned meanwhile; " + t)
            ctx.check(any((x[0] == "set" and x[4] == "same" and val(st, x[3]) == 0 or x[0] == "get" and val(st, x[3]) == 0) and x[1][0] == WOKEN for x in after), G, "woken", "the executor stops although a task may have been woken during the poll; " + t)
        if ev[polls[-1]] == ("driver", "task"): ctx.check(v == some(init("DONE_TASK")), G, "result", "a finished task is lost; " + t)
    ctx.check(n > 0, G, "none", "the executor never reports that there is nothing to do")
    g = P.trait_method("ffi::task::ExecWaker", "ArcWake", "wake_by_ref")
    e = ctx.engine("b", rule=Rec(sync_handlers())); e.run(g, [mref("self")], heap={cell("self"): WOKEN})
    for st, v in e.finals:
        p = SP(e, g, st, v, False); s = p.get("set")
        ctx.check(bool(s) and val(st, s[-1][3]) == 1 and s[-1][1][0] == WOKEN, G, "wake", "a wake-up is not recorded; " + p.text())
    ctx.floor(G, 8)

def run(ctx):
    P = ctx.prog()
    demand(ctx, P); tunnel(ctx, P); channel(ctx, P); executor(ctx)
    slots(ctx, "a")
