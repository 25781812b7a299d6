"""Upgrades: the connection is handed over with every byte and no shutdown; the waiter is always resolved."""
from rt import *
import models
import connlib, displib, c06, c07, c01, c02, parselib
from displib import DRule, PEND, UPG, OHEAD
from parselib import run_parse
LEVEL = "other"
IO, BUF, SVC, DERR, UPGD = init("TRANSPORT"), init("READ_BYTES"), init("SERVICE"), init("CONN_ERROR"), init("UPGRADED")

def run(ctx):
    P = ctx.prog()
    futures(ctx, P); chain(ctx, P); dispatcher(ctx, P); conn(ctx, P); parse(ctx, P); waiter(ctx, P)

def consumers(P):
    """functions that look at the outcome of a connection"""
    out = []
    for f in P.fns.values():
        if not f.local: continue
        for stmts, term, cl in f.blocks:
            if any(s[0] == "=" and s[2][0] == "discr" and s[2][2] == "proto::Dispatched" for s in stmts): out.append(f); break
    return out

def futures(ctx, P):
    ctx.rule("every consumer of a connection's outcome resolves the pending upgrade exactly once: with the transport and all bytes read, taken from that connection, or with the note that it is handled manually; no upgrade is produced otherwise")
    G = "outcome of a connection"
    D = P.adt("proto::Dispatched"); DI = P.adt("proto::h1::dispatch::Dispatcher")
    out = lambda v: ("adt", D["path"], D["vix"][v], v, (PEND,) if v == "Upgrade" else ())
    def h(e, st, c):
        f = c.fn
        if f is not None and f.local and f.argc:
            t = P.ty(f.locals[1][0])
            while t[0] in ("ref",) or t[0] == "adt" and t[1].endswith("Pin"): t = t[2] if t[0] == "ref" else t[2][0]
            own = t[1] if t[0] == "adt" else None
            if own == DI["path"] and c.mname in ("poll", "poll_catch", "poll_inner"):
                return [(PENDING, ("conn", "pending")), (ready(ok(out("Shutdown"))), ("conn", "shutdown")), (ready(ok(out("Upgrade"))), ("conn", "upgrade")), (ready(err(DERR)), ("conn", "err"))]
            if own == DI["path"] and c.mname == "into_inner": return [(("tup", (IO, BUF, SVC)), ("take",))]
            if own == "proto::h2::client::ClientTask" and c.mname == "poll": return [(PENDING, ("conn", "pending")), (ready(ok(out("Shutdown"))), ("conn", "shutdown")), (ready(err(DERR)), ("conn", "err"))]
        s = c.short
        if s.endswith("Pending::fulfill"): return [(UNIT, ("fulfill",) + tuple(c.args))]
        if s.endswith("Pending::manual"): return [(UNIT, ("manual", c.args[0]))]
        if s.endswith("Upgraded::new"): return [(UPGD, ("upgraded",) + tuple(c.args))]
        return None
    done = set()
    roots = []
    for f in consumers(P):
        g = P.fns[f.root] if f.root and f.root in P.fns and f.root != f.id else f
        roots.append((f, g))
    for f, g in roots:
        if g.id in done: continue
        done.add(g.id)
        pinned = P.ty(g.locals[1][0])[0] == "adt"
        rule = DRule([(lambda c, e, st: True, h)], watch=(PEND,))
        e = ctx.engine(rule=rule, drops=True)
        e.run(g, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)) if pinned else mref("self"), mref("cx")] + [init("ARG%d" % i) for i in range(2, g.argc)], heap={cell("self"): init("SELF")})
        hand = False
        for st, v in e.finals:
            ev = st.aut or ()
            o = [x[1] for x in ev if x[0] == "conn"]
            res = [x for x in ev if x[0] in ("fulfill", "manual")]
            tx = "%s (%s): [%s] returns %s" % (g.n, where(g.span), ", ".join(" ".join(show(y)[:30] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:50])
            if o == ["upgrade"]:
                if not ctx.check(len(res) == 1 and res[0][1] == PEND, G, "resolved:" + g.n, "the waiter of an upgrade is not resolved exactly once: " + tx): continue
                if res[0][0] == "fulfill":
                    up = [x for x in ev if x[0] == "upgraded"]
                    ctx.check(len(up) == 1 and up[0][1:3] == (IO, BUF) and res[0][2] == UPGD and len([x for x in ev if x[0] == "take"]) == 1, G, "bytes:" + g.n, "what is handed over is not the connection's transport with the bytes it has read: " + tx)
                else: ctx.check(not any(x[0] in ("upgraded", "take") for x in ev), G, "manual:" + g.n, tx)
                ctx.check(unwrap(v, "Ready", "Ok") is not None, G, "ok:" + g.n, "a completed upgrade is not reported as the end of the connection: " + tx)
            else:
                ctx.check(not res and not any(x[0] in ("upgraded", "take", "dropped") for x in ev), G, "none:" + g.n, "an upgrade is produced although the connection did not upgrade: " + tx)
                if o and o[-1] == "err": ctx.check(unwrap(v, "Ready", "Err") == DERR, G, "err:" + g.n, tx)
                if o and o[-1] == "pending": ctx.check(is_adt(v, "Pending"), G, "pending:" + g.n, tx)
                if not o: ctx.check(is_adt(v, "Ready"), G, "after:" + g.n, "the connection is not polled: " + tx)
    for tn in ("server::conn::http1::UpgradeableConnection", "client::conn::http1::upgrades::UpgradeableConnection", "server::conn::http1::Connection", "client::conn::http1::Connection"):
        f = P.trait_method(tn, "Future", "poll")
        if f.id not in done: ctx.bad("consumer", "the future of %s does not look at the connection's outcome" % tn, G)
    ctx.floor(G, 20)

def chain(ctx, P):
    ctx.rule("taking a connection apart yields its own transport and its read buffer, untouched, at every level")
    G = "taking the connection apart"
    def h(e, st, c):
        if c.mname == "freeze" and c.args and c.args[0] == BUF: return [(BUF, None)]
        if c.mname == "into_service": return [(SVC, None)]
        return None
    B = P.adt("proto::h1::io::Buffered"); C = P.adt("proto::h1::conn::Conn"); D = P.adt("proto::h1::dispatch::Dispatcher")
    b = mk(P, B["path"], io=IO, read_buf=BUF)
    c = mk(P, C["path"], io=b); d = mk(P, D["path"], conn=c, dispatch=init("DISPATCH"))
    jobs = [(P.fn("Buffered::into_inner"), b), (P.fn("conn::Conn::into_inner"), c), (P.fn("Dispatcher::into_inner"), d)]
    for tn, fld in (("server::conn::http1::Connection", "conn"), ("client::conn::http1::Connection", "inner")):
        A = P.adt(tn)
        f = P.fn(tn + "::into_parts")
        jobs.append((f, mk(P, A["path"], **{fld: d})))
    A = P.adt("server::conn::http1::UpgradeableConnection")
    jobs.append((P.fn("server::conn::http1::UpgradeableConnection::into_parts"), mk(P, A["path"], inner=some(jobs[3][1]))))
    for f, v0 in jobs:
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
        e.run(f, [v0])
        for st, v in e.finals:
            x = v
            if is_adt(x, "Some"): x = x[4][0]
            if x[0] == "tup": io, rb = x[1][0], x[1][1]
            elif x[0] == "adt" and x[1].split("::")[-1] == "Parts":
                a = P.adt(x[1]); io, rb = (fget(P, st, x, a, n, eng=e) for n in ("io", "read_buf"))
            else: io = rb = v
            ctx.check(io == IO, G, "io:" + f.n, "%s does not return the connection's transport: %s" % (f.n, show(v)[:80]))
            ctx.check(rb == BUF, G, "buf:" + f.n, "%s loses or changes the bytes already read: %s" % (f.n, show(v)[:80]))
    ctx.floor(G, 12)

def dispatcher(ctx, P):
    ctx.rule("end of the connection: a pending upgrade is taken once and returned, the transport is not shut down and everything was flushed; without one the outcome is no upgrade, and the transport is shut down if asked to")
    G = "end of a connection"
    D = displib.Disp(ctx)
    stub = [("poll_loop", lambda e, st, c: [(PENDING, ("loop", "pending")), (ready(ok(UNIT)), ("loop", "ok")), (ready(err(init("LOOP_ERR"))), ("loop", "err"))]),
            ("is_done", lambda e, st, c: [(TRUE, ("done", True)), (FALSE, ("done", False))])]
    def pend(e, st, c):
        if c.fn is None or c.fn.id not in D.conn_fns or c.mname not in ("has_pending_upgrade", "pending_upgrade"): return None
        ev = st.aut or ()
        if any(x[:2] == ("op", "pending_upgrade") for x in ev): k = False
        else: k = next((x[1] for x in ev if x[0] == "is_pending"), None)
        o = []
        for b in (True, False):
            if k is not None and b != k: continue
            if c.mname == "has_pending_upgrade": o.append((TRUE if b else FALSE, ("is_pending", b)))
            else: o.append((some(PEND), ("op", "pending_upgrade", "some")) if b else (NONE, ("op", "pending_upgrade", "none")))
        return o
    for role in ("server", "client"):
        for shut in (TRUE, FALSE):
            for p in D.run("poll_inner", role, stub=stub, extra_args=[shut], extra=[(lambda c, e, st: True, pend)]):
                t = p.text()
                up = p.has("op", "pending_upgrade", "some")
                sd = p.has("op", "poll_shutdown")
                d = unwrap(p.ret, "Ready", "Ok") if p.ret is not None else None
                if d is not None and is_adt(d, "Upgrade"):
                    ctx.check(up and d[4][0] == PEND, G, "source", "an upgrade is reported that was not pending: " + t)
                    ctx.check(not sd, G, "no-shutdown", "the transport is shut down although it is handed over: " + t)
                    fl = p.idx("op", "poll_flush_handover", "ok")
                    ctx.check(fl >= 0, G, "flushed", "the transport is handed over before everything was flushed: " + t)
                    ctx.check(p.has("done", True), G, "done", "the connection is handed over before the exchange ended: " + t)
                elif up: ctx.check(unwrap(p.ret, "Ready", "Err") is not None, G, "lost", "a pending upgrade is taken and lost: " + t)
                if sd: ctx.check(p.has("op", "pending_upgrade", "none") and shut == TRUE, G, "shutdown-only-without", "the transport is shut down although it may still be handed over: " + t)
                if d is not None and is_adt(d, "Shutdown") and shut == TRUE: ctx.check(p.has("op", "poll_shutdown", "ok"), G, "shutdown", "an ordinary end without a shutdown of the transport: " + t)
    ctx.floor(G, 10)
    ctx.rule("an incoming head that may upgrade gets a handle of this connection's pending upgrade, any other gets none")
    G = "handle given to the message"
    for role in ("server", "client"):
        for p in D.run("poll_read_head", role):
            if not p.has("op", "poll_read_head", "ok"): continue
            w = [y[2] for y in p.ev if y[0] == "wants" and y[1] == "UPGRADE"]
            t = p.text()
            if p.again: continue
            made = p.get("op", "on_upgrade"); ins = [x for x in p.ev if x[0] == "ext" and UPG[1] in terms_in(x[1])]
            if w and w[-1] == TRUE: ctx.check(len(made) == 1 and len(ins) == 1, G, "given:" + role, "a message that may upgrade gets no handle: " + t)
            else: ctx.check(not made and not ins, G, "none:" + role, "a message that may not upgrade gets a handle: " + t)
    ctx.floor(G, 4)

def conn(ctx, P):
    ctx.rule("the pending upgrade of a connection is set only when the handle is made, taken when the connection ends, and dropped (which resolves the waiter with an error) when the server's response is not an upgrade; nothing else touches it")
    G = "pending upgrade of the connection"
    L = connlib.Lib(ctx)
    UP, NEWTX, NEWRX = init("PENDING_BEFORE"), init("NEW_PENDING"), init("NEW_HANDLE")
    def mkp(e, st, c): return [(("tup", (NEWTX, NEWRX)), ("pair",))]
    extra = ((named("upgrade::pending"), mkp),)
    SC = P.adt("http::StatusCode")
    for f in L.ent:
        for role in ("server", "client"):
            for r in connlib.READ:
                for w in connlib.WRITE:
                    if not connlib.allowed(f.name, role, r, w, "Busy"): continue
                    if f.name == "write_head" and role == "server": continue
                    for t in L.run(f, role, r, w, "Busy", over={"upgrade": some(UP)}, extra=extra):
                        u = t.sf("upgrade")
                        if f.name == "on_upgrade": ctx.check(is_adt(u, "Some") and u[4][0] == NEWTX and t.ret == NEWRX, G, "made", "the handle is not of the pending upgrade that is kept: " + t.text())
                        elif f.name == "pending_upgrade": ctx.check(is_adt(u, "None") and is_adt(t.ret, "Some") and t.ret[4][0] == UP, G, "taken", "the pending upgrade is not taken exactly: " + t.text())
                        elif role == "server" and t.has("encode_head"): ctx.check(is_adt(u, "None") or is_adt(u, "Some") and u[4][0] == UP, G, "refused:" + f.name, t.text())    # an error response of hyper's own
                        else: ctx.check(is_adt(u, "Some") and u[4][0] == UP, G, "kept:" + f.name, "the pending upgrade is lost or replaced: " + t.text())
    q = L.queries()
    f = next(x for x in L.ent if x.name == "write_head")
    H = P.adt("proto::MessageHead")
    CODE = init("STATUS")
    nz = next((p for p in P.adts if p.endswith("StatusCode")), None)
    n = 0
    for mname in ("Connect", "Get", None):
        for lo, hi in ((100, 100), (101, 101), (102, 199), (200, 299), (300, 599)):
            m = NONE if mname is None else some(c02.http_method(P, mname))
            tr = run_head(L, f, P, m, lo, hi, UP, extra, CODE) + run_head(L, f, P, m, lo, hi, UP, extra, CODE, "Disabled")
            for t in tr:
                n += 1
                u = t.sf("upgrade")
                is_up = lo == hi == 101 or mname == "Connect" and lo == 200
                tx = "a %d..%d response to %s: %s" % (lo, hi, mname, t.text())
                if is_up: ctx.check(is_adt(u, "Some") and u[4][0] == UP, G, "accepted", "an accepted upgrade is dropped: " + tx)
                elif t.has("encode_head", "ok"): ctx.check(is_adt(u, "None"), G, "declined", "the response declines the upgrade but it stays pending (the waiter gets a connection that was not upgraded): " + tx)
    ctx.check(n >= 15, G, "heads", "responses analysed: %d" % n)
    for nm, f in q.items():
        if nm != "has_pending_upgrade": continue
        for u, want in ((NONE, 0), (some(UP), 1)):
            for t in L.run(f, "server", "Closed", "Closed", "Disabled", over={"upgrade": u}):
                ctx.check(t.st.val_int(t.ret) == want, G, "query", "has_pending_upgrade answers wrongly: " + t.text())
    ctx.floor(G, 200)

def run_head(L, f, P, method, lo, hi, UP, extra, CODE, k="Busy"):
    head = ("adt", P.adt("proto::MessageHead")["path"], 0, "MessageHead", ())
    SC = P.adt("http::StatusCode")
    H = P.adt("proto::MessageHead")
    hd = mk(P, H, subject=CODE, version=c06.version(P, "Http11"), headers=init("HDRS"), extensions=init("EXTS"))
    def status(e, st, c):
        """the status is some code in lo..hi"""
        if not c.args or recv(e, st, c) != CODE and (len(c.args) < 2 or recv(e, st, c, 1) != CODE): return None
        cls = {"is_informational": 1, "is_success": 2, "is_redirection": 3, "is_client_error": 4, "is_server_error": 5}
        if c.mname in cls: return [(TRUE if lo // 100 <= cls[c.mname] <= hi // 100 and cls[c.mname] == lo // 100 else FALSE, None)]
        if c.mname == "as_u16":
            v = init("STATUS_CODE"); st.facts[v[1]] = ("rng", lo, hi, frozenset()); return [(v, None)]
        if c.mname in ("eq", "ne"):
            k = [models.code_of(e, st, x) for x in c.args if recv(e, st, c, c.args.index(x)) != CODE]
            k = k[0][1] if k and k[0][0] == "int" else None
            if k is None: return None
            y = [TRUE] if lo == hi == k else [FALSE] if not lo <= k <= hi else [TRUE, FALSE]
            return [(x if c.mname == "eq" else TRUE if x == FALSE else FALSE, None) for x in y]
        return None
    rule = Rec([(lambda c, e, st: True, status)] + L.handlers("server", extra))
    e = L.ctx.engine(L.cfg, rule=rule, rec=2)
    st = L.state("KeepAlive", "Init", k, upgrade=some(UP), method=method)
    e.run(f, [mref("self"), hd, NONE], subst=L.subst("server"), heap={cell("self"): st})
    return [connlib.Tr(L, e, f, "server", ("KeepAlive", "Init", k), s, v) for s, v in e.finals]

def parse(ctx, P):
    ctx.rule("a request may upgrade exactly if its method is CONNECT or it is HTTP/1.1 with an Upgrade header; (responses: C02)")
    G = "requests that may upgrade"
    rs, R = run_parse(ctx, "Server", ["upgrade"], cap=1)
    for r in rs:
        p = c01.parsed(P, r)
        if p is None: continue
        up = r.st.val_int(p["upgrade"])
        con = [y[2] for y in r.ev if y[0] == "method" and y[1] == "CONNECT"]
        v11 = any(y[:2] == ("parse", "v11") for y in r.ev)
        hasu = any(n == "upgrade" for i, n in r.lines())
        tx = "%s, %s, Upgrade header: %s; %s" % ("CONNECT" if True in con else "not CONNECT" if con else "any method", "HTTP/1.1" if v11 else "HTTP/1.0", hasu, r.text())
        if up: ctx.check(True in con or v11 and hasu, G, "only", "a request is taken to ask for an upgrade although it does not: " + tx)
        else:
            ctx.check(up == 0 and not (v11 and hasu) and not (True in con and not hasu) and (con or not P), G, "all", "a request that asks for an upgrade is not taken to: " + tx)
    ctx.floor(G, 20)

def waiter(ctx, P):
    ctx.rule("the waiter's future: a connection exactly if one was sent, the sent error or the manual note otherwise, an error if the connection went away, an error if there is no upgrade; fulfil and manual send exactly once on the pair the handle came from")
    G = "waiter"
    A = P.adt("upgrade::OnUpgrade"); PE = P.adt("upgrade::Pending")
    f = P.trait_method(A["path"], "Future", "poll")
    RX, TX, UERR = init("RX"), init("TX"), init("SENT_ERR")
    def h(e, st, c):
        m, s = c.mname, c.short
        if m == "poll" and (c.trait or "").split("::")[-1] == "Future" and "Receiver" in c.name + s or m == "poll" and c.fn is None:
            return [(PENDING, ("rx", "pending")), (ready(ok(ok(UPGD))), ("rx", "ok")), (ready(ok(err(UERR))), ("rx", "sent-err")), (ready(err(init("CANCELED"))), ("rx", "gone"))]
        if m == "lock" or m == "panic_if_poisoned": return [(init("GUARD"), None)]
        if m in ("deref", "deref_mut") and c.args and recv(e, st, c) == init("GUARD"): return [(mref("rx"), None)]
        if s.startswith("error::Error::") and m.startswith("new_"): return [(init("E_" + m), ("err", m))]
        if s.startswith("error::Error::") and m == "with": return [(c.args[0], None)]
        if m == "send" and c.args and c.args[0] == TX: return [(ok(UNIT), ("send", c.args[1])), (err(c.args[1]), ("send", c.args[1]))]
        if "channel" in s and "oneshot" in s: return [(("tup", (TX, RX)), None)]
        if s.endswith("Arc::new") or s.endswith("Mutex::new") or s.endswith("Arc::<T>::new") or s.endswith("Mutex::<T>::new"): return [(c.args[0], None)]
        return None
    def go(f, args, heap=None):
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
        e.run(f, args, heap=heap or {})
        return [(st, v, st.aut or ()) for st, v in e.finals]
    for rx in (NONE, some(init("ARC"))):
        for st, v, ev in go(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx")], {cell("self"): mk(P, A["path"], rx=rx), cell("rx"): RX}):
            o = [x[1] for x in ev if x[0] == "rx"]
            er = [x[1] for x in ev if x[0] == "err"]
            tx = "%s gives %s" % (o or "no upgrade", show(v)[:60])
            if rx == NONE: ctx.check(not o and unwrap(v, "Ready", "Err") is not None, G, "no-upgrade", "waiting where no upgrade is possible does not end with an error: " + tx); continue
            if not ctx.check(len(o) == 1, G, "asked", tx): continue
            want = {"pending": is_adt(v, "Pending"), "ok": unwrap(v, "Ready", "Ok") == UPGD, "sent-err": unwrap(v, "Ready", "Err") == UERR, "gone": unwrap(v, "Ready", "Err") is not None}[o[0]]
            ctx.check(want, G, "result:" + o[0], "the waiter is told something else than what happened: " + tx)
    for nm in ("fulfill", "manual"):
        f = P.fn("upgrade::Pending::" + nm)
        for st, v, ev in go(f, [mk(P, PE["path"], tx=TX)] + ([UPGD] if nm == "fulfill" else [])):
            s = [x[1] for x in ev if x[0] == "send"]
            tx = "%s sends %s" % (nm, [show(x)[:40] for x in s])
            ctx.check(len(s) == 1 and (unwrap(s[0], "Ok") == UPGD if nm == "fulfill" else unwrap(s[0], "Err") is not None), G, nm, "the waiter is not told: " + tx)
    f = P.fn("upgrade::pending")
    for st, v, ev in go(f, []):
        p, o = v[1]
        ctx.check(p[0] == o[0] == "adt" and p[4] == (TX,) and o[4] == (some(RX),), G, "pair", "the pending upgrade and its handle are not two ends of one channel: " + show(v)[:80])
    ctx.floor(G, 9)
