"""The header-read timeout: armed once per head, polled while waiting, disarmed by the head."""
from rt import *
import connlib, c20
LEVEL = "other"
DUR = init("HDR_TIMEOUT"); NOW = init("NOW")

def deadline_ok(e, v):
    """v is now() + the configured duration"""
    if v is None or v[0] != "sym": return False
    t = TERMS[v[1]]
    ops = [x for x in t[1:] if isinstance(x, tuple)]
    return (t[0] == "call" and "add" in t[1].lower() or t[0] == "bin" and "Add" in t[1]) and set(ops) == {NOW, DUR}

def run(ctx):
    P = ctx.prog(); L = connlib.Lib(ctx)
    fns = {f.name: f for f in L.ent}
    TF = connlib.TFUT
    ctx.rule("waiting for a request head with a configured timeout always has it armed for now + the duration, set once per head and not pushed back by later reads, and polled; firing is a timeout error; a parsed head disarms it")
    f = fns["poll_read_head"]
    G = {"arm": "armed when waiting for a head", "poll": "polled while waiting", "clear": "disarmed by the head", "off": "nothing armed unless configured", "else": "left alone by everything else"}
    def b(t, name): return t.st.val_int(t.sf(name))
    for w in connlib.WRITE:
        for k in connlib.KA:
            if not connlib.allowed(f.name, "server", "Init", w, k): continue
            for conf in (True, False):
                for running in (TRUE, FALSE):
                    for fut in (NONE, some(TF)):
                        if running == TRUE and fut == NONE or not conf and (running == TRUE or fut != NONE): continue
                        over = {"h1_header_read_timeout": some(DUR) if conf else NONE, "h1_header_read_timeout_running": running, "h1_header_read_timeout_fut": fut}
                        for t in L.run(f, "server", "Init", w, k, over=over, extra=(c20.ERRS,)):
                            ix = next((i for i, x in enumerate(t.ev) if x[0] == "parse"), None)
                            if ix is None: ctx.bad("no-parse", "waiting for a head without trying to read one: " + t.text(), G["arm"]); continue
                            tm = [(i, x) for i, x in enumerate(t.ev) if x[0] == "timer" and x[1] != "now"]
                            tx = "timeout %s, %s, %s" % ("configured" if conf else "not configured", "already armed" if running == TRUE else "not armed", t.text())
                            if not conf:
                                ctx.check(not tm and not t.get("timeout") and b(t, "h1_header_read_timeout_running") == 0, G["off"], "unconfigured", "a header timeout is armed though none is configured: " + tx); continue
                            if running == TRUE: ctx.check(not tm, G["arm"], "pushed-back", "the timeout is set again while a head is being read, so it can be pushed back for ever: " + tx)
                            else:
                                ctx.check(len(tm) == 1 and tm[0][0] < ix and tm[0][1][1] in ("reset", "sleep_until") and deadline_ok(t.e, tm[0][1][2]), G["arm"], "not-armed", "a head is awaited without the timeout being set to now + the configured duration: " + tx)
                            o = t.ev[ix][1]
                            if o == "pending":
                                if running == FALSE and fut == NONE:
                                    # the new future was stored
                                    ft = t.sf("h1_header_read_timeout_fut")
                                    ctx.check(is_adt(ft, "Some") and init("NEWSLEEP") in (ft[4][0],) or init("NEWSLEEP")[1] in terms_in(ft), G["arm"], "fut-lost", "the armed timeout is not kept: " + tx)
                                polled = t.get("timeout")
                                fired = any(x[1] == "fired" for x in polled)
                                ctx.check(bool(polled), G["poll"], "not-polled", "a head is awaited without waking for its timeout: " + tx)
                                if fired:
                                    er = unwrap(t.ret, "Ready", "Some", "Err")
                                    ctx.check(er is not None and "timeout" in str(c20.kind(er)).lower(), G["poll"], "fired-error", "the timeout fires and the result is %s: %s" % (show(t.ret)[:60], tx))
                                else:
                                    ctx.check(is_adt(t.ret, "Pending") and b(t, "h1_header_read_timeout_running") == 1, G["poll"], "waiting", "the timeout has not fired but the result is %s or it is no longer armed: %s" % (show(t.ret)[:60], tx))
                            elif o == "ok":
                                ctx.check(b(t, "h1_header_read_timeout_running") == 0, G["clear"], "not-cleared", "a parsed head leaves the timeout armed, so the next head is not timed anew: " + tx)
                                ctx.check(not t.get("timeout"), G["clear"], "poll-after", "the timeout is consulted although the head is complete: " + tx)
    ctx.floor(G["arm"], 20); ctx.floor(G["poll"], 10); ctx.floor(G["clear"], 10); ctx.floor(G["off"], 4)
    ctx.rule("no other operation of the connection arms, polls or moves the timeout")
    for f in L.ent:
        if f.name == "poll_read_head" or "timer" in f.name or "timeout" in f.name: continue
        for r in connlib.READ:
            for w in connlib.WRITE:
                for k in ("Busy", "Disabled"):
                    if not connlib.allowed(f.name, "server", r, w, k): continue
                    for running in (TRUE, FALSE):
                        for t in L.run(f, "server", r, w, k, over={"h1_header_read_timeout": some(DUR), "h1_header_read_timeout_running": running, "h1_header_read_timeout_fut": some(TF)}):
                            tm = [x for x in t.ev if x[0] == "timer" and x[1] != "now"]
                            v = b(t, "h1_header_read_timeout_running")
                            ctx.check(not tm and not t.get("timeout") and v is not None and v <= running[1], G["else"], "other:" + f.name, "the header timeout is armed, polled or moved outside reading a head: " + t.text())
    ctx.floor(G["else"], 200)
    config(ctx, P)

def config(ctx, P):
    ctx.rule("a configured timeout without a timer panics, a default one is left off, and with a timer either is used")
    TM, DR = P.adt("common::time::Time"), P.adt("common::time::Dur")
    fs = [f for f in P.fns.values() if f.local and f.argc >= 2 and P.ty(f.locals[1][0])[:1] == ("ref",) and P.ty(f.locals[1][0])[2][:2] == ("adt", TM["path"]) and any(P.ty(f.locals[i][0])[:2] == ("adt", DR["path"]) for i in range(2, f.argc + 1))]
    if not fs: raise mir.AnchorError("function checking a duration against the timer")
    G = "timeout without a timer"
    for f in fs:
        for tv in [v[0] for v in TM["variants"]]:
            for dv in [v[0] for v in DR["variants"]]:
                for inner in (NONE, some(DUR)):
                    tm = ("adt", TM["path"], TM["vix"][tv], tv, tuple(init("T%d" % i) for i in range(len(TM["variants"][TM["vix"][tv]][2]))))
                    dr = ("adt", DR["path"], DR["vix"][dv], dv, (inner,))
                    e = ctx.engine(rule=Rec([]))
                    args = [mref("tm")] + [dr if P.ty(f.locals[i][0])[:2] == ("adt", DR["path"]) else init("A%d" % i) for i in range(2, f.argc + 1)]
                    res = [v for st, v in e.run(f, args, heap={cell("tm"): tm})]
                    tx = "timer %s, duration %s(%s): %s" % (tv, dv, "set" if inner != NONE else "none", [show(v) for v in res] or "panics")
                    if inner == NONE: want = [NONE]
                    elif tv != "Empty": want = [some(DUR)]
                    else: want = [] if dv == "Configured" else [NONE]
                    ctx.check(res == want, G, "check:%s:%s:%s" % (tv, dv, inner != NONE), "the outcome of the timer check is wrong; " + tx)
    ctx.floor(G, 8)
    ctx.rule("the server builder passes its header timeout through that check and gives the connection the result and its timer")
    f = P.fn("server::conn::http1::Builder::serve_connection")
    B = P.adt("server::conn::http1::Builder")
    def h(e, st, c):
        if (c.trait or "").split("::")[-1] == "Clone" and c.args and c.args[0][0] == "ref": return [(e.read(st, c.args[0][1]), None)]
        if c.fn is not None and any(c.fn is x for x in fs): return [(some(DUR), ("checked", TRUE, tuple(e.snapshot(st, a) for a in c.args))), (NONE, ("checked", FALSE, tuple(e.snapshot(st, a) for a in c.args)))]
        if c.fn is not None and c.fn.local and c.mname == "set_http1_header_read_timeout": return [(UNIT, ("settimeout", c.args[1]))]
        if c.fn is not None and c.fn.local and c.mname == "set_timer": return [(UNIT, ("settimer", e.snapshot(st, c.args[1])))]
        if c.fn is not None and c.fn.local and ("proto::h1" in c.short or "proto::h1" in c.fn.n): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), None)]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
    e.run(f, [mref("bld"), init("IO"), init("SVC")])
    bf = {f_[0]: i for i, f_ in enumerate(B["variants"][0][2])}
    G = "the configured timeout reaches the connection"
    for st, v in e.finals:
        ev = st.aut or ()
        ck = [x for x in ev if x[0] == "checked"]; se = [x for x in ev if x[0] == "settimeout"]
        okc = len(ck) == 1 and any("h1_header_read_timeout" in show(a) for a in ck[0][2])
        ctx.check(okc and [x[1] for x in se] == ([DUR] if ck and ck[0][1] == TRUE else []), G, "plumbing", "the header timeout given to the connection is not the checked, configured one: %s" % [(x[0], show(x[-1]) if isinstance(x[-1], tuple) and x[0] != "checked" else x[1]) for x in ev])
        ctx.check(any(x[0] == "settimer" and "timer" in show(x[1]) for x in ev), G, "timer", "the configured timer is not given to the connection: %s" % [show(x[1]) for x in ev if x[0] == "settimer"])
    ctx.floor(G, 2)
