"""HTTP/2 keep-alive pings: the ping automaton as all paths of one poll from every state, with time as symbolic numbers."""
from rt import *
import hdrlib, h2slib, h2streamlib, c20, c30
from clientlib import RFUT
from h2streamlib import PIN
from c15 import times, deref, SEC, eqlin
LEVEL = "other"
NOW, LR, IV, TO, AT, SENT, NXT, NREF, BYTES, LEN = (init(x) for x in ("NOW", "LAST_READ", "INTERVAL", "TIMEOUT", "AT", "SENT_AT", "NEXT_BDP", "REFS", "BYTES", "DATA_LEN"))
SLEEP, PP, TIMER = init("SLEEP"), init("PINGPONG"), init("TIMER")
NUM = {x[1]: ("rng", 0, 2**80, frozenset()) for x in (NOW, LR, IV, TO, AT, SENT, NXT, BYTES, LEN)}
NUM[NREF[1]] = ("rng", 2, 2**40, frozenset())

def handlers(P):
    def h(e, st, c):
        m, s = c.mname, c.short
        if m == "lock": return [(ok(("ref", (cell("SH"), ()), 1)), ("lock",))]
        if m == "strong_count": return [(NREF, ("refs",))]
        if m in ("deref", "deref_mut") and c.args:
            v = c.args[0]; n = 0
            while v[0] == "ref" and n < 5:
                if v[1] == (cell("SH"), ()): return [(v, None)]
                v = e.read(st, v[1]); n += 1
        if c.fn is not None and c.fn.local and "Time::" in s:
            if m == "now": return [(NOW, None)]
            if m == "reset": return [(UNIT, ("reset", e.snapshot(st, deref(e, st, c.args[2]))))]
            if m in ("sleep", "sleep_until"): return [(SLEEP, ("sleep", e.snapshot(st, deref(e, st, c.args[1]))))]
        r = recv(e, st, c) if c.args else None
        if r == SLEEP and m == "poll": return [(ready(UNIT), ("timer", "fired")), (PENDING, ("timer", "waiting"))]
        if r == PP:
            if m == "send_ping": return [(ok(UNIT), ("ping", "ok")), (err(init("PINGERR")), ("ping", "err"))]
            if m == "poll_pong": return [(PENDING, ("pong", "pending")), (ready(ok(init("PONG"))), ("pong", "ok")), (ready(err(init("PONGERR"))), ("pong", "err"))]
        if m in ("wake_by_ref", "wake"): return [(UNIT, ("wake",))]
        if m == "waker": return [(c.args[0], None)]
        if c.fn is not None and c.fn.local and m == "calculate":
            def u(s2):
                w = init("WINDOW"); return some(w)
            return [(NONE, ("bdp", "none")), (u, ("bdp", "update"))]
        if m == "clone" and c.args:
            v = deref(e, st, c.args[0])
            if v[0] == "sym": return [(v, None)]
        return None
    return [(lambda c, e, st: True, h), times()]

def now_plus(st, v, x): return eqlin(v, ((1, NOW), (1, x)))

def ponger(ctx, P):
    ctx.rule("a ping for keep-alive is sent only when a scheduled deadline has fired, nothing was read for the interval and there are open streams or pings while idle are on, and then it is sent; deadline = last read + interval, and the timer is set to it; a deadline made obsolete by a read is made anew, with a wake-up")
    ctx.rule("the connection counts as timed out exactly when a ping is outstanding, no pong is there, and the timer set to the sending time + timeout fired; then everybody can see it; a pong ends the wait, counts as a read and schedules the next deadline; between two polls the timer that matters is being waited for")
    ctx.rule("ping_sent_at is set exactly by a successful send and cleared exactly by a pong; without a ping outstanding no pong is looked for")
    G = "ping automaton"
    A, K, KS, S = (P.adt("proto::h2::ping::" + x) for x in ("Ponger", "KeepAlive", "KeepAliveState", "Shared"))
    B = P.adt("proto::h2::ping::Bdp")
    V = lambda n, *f: ("adt", KS["path"], KS["vix"][n], n, f)
    f = next(f for f in P.fns.values() if f.local and f.n.endswith("Ponger::poll"))
    Pd = P.adt("proto::h2::ping::Ponged")
    for ka in ("none", "Init", "Scheduled", "PingSent"):
        for sent in (False, True):
            for wi in (TRUE, FALSE):
                for bdp in (False, True):
                    if ka == "none" and wi == TRUE: continue
                    kav = NONE if ka == "none" else some(mk(P, K, interval=IV, timeout=TO, while_idle=wi, sleep=SLEEP, timer=TIMER, state=V(ka, AT) if ka == "Scheduled" else V(ka)))
                    sh = mk(P, S, ping_pong=PP, ping_sent_at=some(SENT) if sent else NONE, bytes=some(BYTES) if bdp else NONE, next_bdp_at=NONE, last_read_at=NONE if ka == "none" else some(LR), is_keep_alive_timed_out=FALSE, timer=TIMER)
                    e = ctx.engine(rule=Rec(handlers(P), limit=400)); e.widen_from = 10
                    e.run(f, [mref("self"), mref("cx")], heap={cell("self"): mk(P, A, bdp=some(mk(P, B, ping_delay=init("DELAY"))) if bdp else NONE, keep_alive=kav, shared=init("SHARED")), cell("SH"): sh}, facts=dict(NUM))
                    ctx.check(bool(e.finals), G, "end", "a poll never returns")
                    for st, v in e.finals: one(ctx, P, G, e, st, v, ka, sent, wi, bdp, A, K, KS, S, Pd)
    ctx.floor(G, 300)

def one(ctx, P, G, e, st, v, ka, sent, wi, bdp, A, K, KS, S, Pd):
    ev = list(st.aut or ())
    slf, sh = e.read(st, (cell("self"), ())), e.read(st, (cell("SH"), ()))
    k1 = fget(P, st, slf, A, "keep_alive", eng=e); sa = fget(P, st, sh, S, "ping_sent_at", eng=e); lr = fget(P, st, sh, S, "last_read_at", eng=e)
    to = fget(P, st, sh, S, "is_keep_alive_timed_out", eng=e)
    idle = entails_le(st, NREF, ("int", 2)); busy = entails_le(st, ("int", 3), NREF)
    r = "Pending" if is_adt(v, "Pending") else v[4][0][3] if is_adt(v, "Ready") and v[4][0][0] == "adt" else "?"
    state = None
    if is_adt(k1, "Some"):
        state = fget(P, st, k1[4][0], K, "state", eng=e)
    tx = "from %s, %s, while_idle=%s, bdp=%s, %s: [%s] -> %s, %s" % (ka, "ping outstanding" if sent else "no ping outstanding", wi == TRUE, bdp, "idle" if idle else "open streams" if busy else "idle or not", "; ".join(" ".join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x) for x in ev if x[0] not in ("lock",)), r, state[3] if state and state[0] == "adt" else state)
    pings = [i for i, x in enumerate(ev) if x[0] == "ping"]
    pong = [i for i, x in enumerate(ev) if x[0] == "pong"]
    # -- pings
    okpong = [i for i in pong if ev[i][1] == "ok"]
    ctx.check(len(pings) <= 1 or len(pings) == 2 and any(pings[0] < j < pings[1] for j in okpong), G, "two", "two pings are sent in one poll: " + tx)
    if ka == "none": ctx.check(not pings and not [x for x in ev if x[0] in ("timer", "reset")], G, "off", "keep-alive acts although it is off: " + tx)
    for i in pings:
        resets = [x for x in ev[:i] if x[0] == "reset"]; tm = [j for j in range(i) if ev[j][0] == "timer"]
        lastreset = max([j for j in range(i) if ev[j][0] == "reset"], default=-1)
        base = NOW if any(ev[j][:2] == ("pong", "ok") for j in range(i)) else LR
        ctx.check(bool(tm) and ev[tm[-1]][1] == "fired" and tm[-1] > lastreset and (ka == "Scheduled" or resets), G, "early", "a ping is sent although its deadline has not fired: " + tx)
        at = resets[-1][1] if resets else AT
        d = e.arith(st, "Add", base, IV)
        ctx.check(entails_le(st, d, at), G, "read", "a ping is sent although something was read since its deadline was set: " + tx)
        ctx.check(wi == TRUE or busy, G, "idle", "a ping is sent without open streams: " + tx)
        after = [x for x in ev[i:] if x[0] == "reset"]
        ctx.check(after and now_plus(st, after[0][1], TO), G, "timeout-set", "the timer is not set to the timeout when the ping is sent: " + tx)
    # -- deadlines
    for i, x in enumerate(ev):
        if x[0] == "reset" and not any(p < i for p in pings):
            base = NOW if any(y[:2] == ("pong", "ok") for y in ev[:i]) else LR
            ctx.check(eqlin(x[1], ((1, base), (1, IV))), G, "deadline", "the timer is set to something else than the last read and the interval: " + tx)
    if state is not None and is_adt(state, "Scheduled"):
        rs = [x for x in ev if x[0] == "reset"]
        ctx.check(state[4][0] == (rs[-1][1] if rs else AT) or rs and eqlin(state[4][0], tuple((k_, ("sym", t) if t != 1 else ("int", 1)) for t, k_ in linear(rs[-1][1]).items())), G, "deadline-kept", "the deadline kept is not the timer's: " + tx)
    # -- it is sent when it is due
    if ka == "Scheduled" and not pings:
        fired = [i for i, x in enumerate(ev) if x[:2] == ("timer", "fired")]
        if fired and not pong:
            late = entails_le(st, e.arith(st, "Add", e.arith(st, "Add", AT, ("int", 1)), ("int", 0)), e.arith(st, "Add", LR, IV))
            if not late: ctx.check(wi == FALSE and idle, G, "not-sent", "a deadline passes without a ping although it is due: " + tx)
            else: ctx.check(is_adt(state, "Init") and any(x[0] == "wake" for x in ev), G, "again", "an obsolete deadline is not made anew: " + tx)
    if ka == "Init" and not pong: ctx.check(any(x[0] == "reset" for x in ev) or wi == FALSE and idle, G, "scheduled", "no deadline is set although there is something to watch: " + tx)
    # -- outstanding ping
    okp = [i for i in pings if ev[i][1] == "ok"]
    pk = ev[pong[-1]][1] if pong else None
    had = sent or bool([i for i in okp if not pong or i < pong[-1]])
    out = had and pk != "ok" or bool([i for i in okp if pong and i > pong[-1]])
    ctx.check(is_adt(sa, "Some") == out, G, "outstanding", "whether a ping is outstanding is not recorded: " + tx)
    if okp: ctx.check(not is_adt(sa, "Some") or sa[4][0] == NOW, G, "sent-at", "the time a ping was sent is not recorded: " + tx)
    ctx.check(had if pong else not had, G, "pong", "a pong is awaited without a ping, or not awaited with one: " + tx)
    # -- timeout
    if r == "KeepAliveTimedOut":
        j = max(i for i, x in enumerate(ev) if x[0] == "timer") if any(x[0] == "timer" for x in ev) else -1
        ctx.check(pk == "pending" and (ka == "PingSent" or pings) and j >= 0 and ev[j][1] == "fired" and j > max([i for i, x in enumerate(ev) if x[0] == "reset"], default=-1), G, "timed-out", "the connection counts as dead although no ping has gone unanswered for the timeout: " + tx)
        ctx.check(st.val_int(to) == 1, G, "visible", "streams cannot see that the connection is dead: " + tx)
    else:
        ctx.check(st.val_int(to) == 0, G, "flag", "the connection is marked dead without being reported: " + tx)
        if pk == "pending" and state is not None and is_adt(state, "PingSent"):
            j = max([i for i, x in enumerate(ev) if x[0] == "timer" and i > pong[-1]], default=-1)
            ctx.check(j >= 0 and ev[j][1] == "waiting", G, "waited", "the timeout of an outstanding ping is not waited for: " + tx)
        if state is not None and is_adt(state, "Scheduled"):
            t = [(i, x[1]) for i, x in enumerate(ev) if x[0] == "timer"]
            lastreset = max([i for i, x in enumerate(ev) if x[0] == "reset"], default=-1)
            ctx.check(t and t[-1][0] > lastreset and (t[-1][1] == "waiting" or wi == FALSE and idle), G, "waits", "a deadline is not waited for: " + tx)
    if pk == "ok":
        if ka != "none": ctx.check(is_adt(lr, "Some") and lr[4][0] == NOW, G, "pong-read", "a pong does not count as a read: " + tx)
        if state is not None: ctx.check(not is_adt(state, "PingSent") or any(i > pong[-1] for i in pings), G, "pong-state", "a pong does not end the wait: " + tx)
    elif ka != "none": ctx.check(is_adt(lr, "Some") and lr[4][0] == LR, G, "read-time", "the time of the last read changes without a read: " + tx)
    if r == "SizeUpdate": ctx.check(pk == "ok" and bdp and ("bdp", "update") in ev, G, "size", "a window update is reported without a new estimate: " + tx)
    elif ("bdp", "update") in ev: ctx.bad("size-lost", "a new estimate is lost: " + tx, G)
    if r == "?": ctx.bad("result", "the result of a poll is not decided: " + tx, G)

def recorder(ctx, P):
    ctx.rule("everything read counts as a read for keep-alive; a ping for the bandwidth estimate is sent only if none is outstanding; a dead connection is reported to every stream, and only a dead one")
    G = "reads recorded"
    R, S = P.adt("proto::h2::ping::Recorder"), P.adt("proto::h2::ping::Shared")
    fs = {f.name: f for f in P.fns.values() if f.local and f.blocks and f.argc and f.n.split("::")[-2:-1] == ["Recorder"]}
    for need in ("record_data", "record_non_data", "ensure_not_timed_out"):
        if need not in fs: raise mir.AnchorError("Recorder::" + need)
    for name, f in fs.items():
        if name not in ("record_data", "record_non_data", "ensure_not_timed_out"): continue
        for on in (False, True):
            for lr in (False, True):
                for sent in (False, True):
                    for by in (False, True):
                        for nx in (False, True):
                            for dead in (TRUE, FALSE):
                                if not on and (lr or sent or by or nx or dead == TRUE): continue
                                sh = mk(P, S, ping_pong=PP, ping_sent_at=some(SENT) if sent else NONE, bytes=some(BYTES) if by else NONE, next_bdp_at=some(NXT) if nx else NONE, last_read_at=some(LR) if lr else NONE, is_keep_alive_timed_out=dead, timer=TIMER)
                                e = ctx.engine(rule=Rec(handlers(P), limit=100))
                                e.run(f, [mref("self")] + ([LEN] if f.argc == 2 else []), heap={cell("self"): mk(P, R, shared=some(init("SHARED")) if on else NONE), cell("SH"): sh}, facts=dict(NUM))
                                ctx.check(bool(e.finals), G, "end:" + name, "%s never returns" % name)
                                for st, v in e.finals:
                                    ev = st.aut or (); s2 = e.read(st, (cell("SH"), ()))
                                    g = lambda n: fget(P, st, s2, S, n, eng=e)
                                    tx = "%s, %s, keep-alive %s, bandwidth estimate %s%s%s: [%s]" % (name, "enabled" if on else "disabled", lr, by, ", ping outstanding" if sent else "", ", next sample set" if nx else "", "; ".join(" ".join(map(str, x)) for x in ev if x[0] != "lock"))
                                    if not on:
                                        ctx.check(not ev and not (v[0] == "adt" and is_adt(v, "Err")), G, "disabled:" + name, "a disabled recorder acts: " + tx); continue
                                    if name == "ensure_not_timed_out":
                                        ctx.check(is_adt(v, "Err" if dead == TRUE else "Ok"), G, "dead", "a stream of a %s connection sees %s: %s" % ("dead" if dead == TRUE else "living", show(v)[:40], tx))
                                    elif lr: ctx.check(is_adt(g("last_read_at"), "Some") and g("last_read_at")[4][0] == NOW, G, "read:" + name, "a read does not postpone the next ping: " + tx)
                                    else: ctx.check(is_adt(g("last_read_at"), "None"), G, "enabled:" + name, "keep-alive starts by a read: " + tx)
                                    pg = [x for x in ev if x[0] == "ping"]
                                    ctx.check(not pg or (name == "record_data" and not sent and by), G, "ping:" + name, "a ping is sent although one is outstanding or nothing is sampled: " + tx)
                                    ctx.check(len(pg) <= 1, G, "pings:" + name, "several pings are sent for one read: " + tx)
                                    if name == "record_data" and by and not sent and not pg: ctx.check(nx and entails_le(st, NOW, NXT), G, "sample", "no sample starts although none is running: " + tx)
                                    sa = g("ping_sent_at")
                                    ctx.check(is_adt(sa, "Some") == (sent or ("ping", "ok") in ev), G, "outstanding:" + name, "whether a ping is outstanding is not recorded: " + tx)
    ctx.floor(G, 100)

def channel(ctx, P):
    ctx.rule("a new connection's ping state: keep-alive exactly as configured, no ping outstanding, the read time recorded exactly if keep-alive is on; only the connection itself and the returned recorder hold it (two holders), so that more than two means open streams")
    G = "new ping state"
    f = next(f for f in P.fns.values() if f.local and f.n.endswith("ping::channel"))
    A, K, S, R, Cf = (P.adt("proto::h2::ping::" + x) for x in ("Ponger", "KeepAlive", "Shared", "Recorder", "Config"))
    for bdp in (False, True):
        for ka in (False, True):
            if not bdp and not ka: continue
            made = []
            def h(e, st, c):
                if c.mname == "new" and "Arc" in c.short: return [(init("SHARED"), ("arc", e.snapshot(st, c.args[0])))]
                if c.mname == "new" and "Mutex" in c.short: return [(c.args[0], None)]
                if c.mname == "clone" and c.args and deref(e, st, c.args[0]) == init("SHARED"): return [(init("SHARED"), ("share",))]
                return None
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)] + handlers(P), limit=100))
            args = []
            for i in range(1, f.argc + 1):
                t = P.ty(f.locals[i][0])
                args.append(mk(P, Cf, bdp_initial_window=some(init("WND")) if bdp else NONE, keep_alive_interval=some(IV) if ka else NONE, keep_alive_timeout=TO, keep_alive_while_idle=init("WI")) if t[0] == "adt" and t[1] == Cf["path"] else TIMER if t[0] == "adt" and t[1].endswith("Time") else PP)
            e.run(f, args, facts=dict(NUM))
            ctx.check(bool(e.finals), G, "end", "channel never returns")
            for st, v in e.finals:
                ev = st.aut or ()
                arc = [x[1] for x in ev if x[0] == "arc"]
                tx = "bdp=%s, keep-alive=%s" % (bdp, ka)
                if len(arc) != 1 or v[0] != "tup": ctx.bad("shape", "the shared state is not made once: " + tx, G); continue
                rec = next((x for x in v[1] if x[0] == "adt" and x[1] == R["path"]), None); pg = next((x for x in v[1] if x[0] == "adt" and x[1] == A["path"]), None)
                ctx.check(sum(1 for x in ev if x[0] == "share") == 1 and rec is not None and pg is not None, G, "holders", "a new connection's ping state has %d holders: %s" % (1 + sum(1 for x in ev if x[0] == "share"), tx))
                g = lambda n: fget(P, st, arc[0], S, n, eng=e)
                ctx.check(is_adt(g("ping_sent_at"), "None") and st.val_int(g("is_keep_alive_timed_out")) == 0, G, "fresh", "a new connection has a ping outstanding or is dead: " + tx)
                ctx.check(is_adt(g("last_read_at"), "Some" if ka else "None") and (not ka or g("last_read_at")[4][0] == NOW), G, "read", "the read time of a new connection is %s: %s" % (show(g("last_read_at"))[:40], tx))
                ctx.check(is_adt(g("bytes"), "Some" if bdp else "None"), G, "bytes", "the sample of a new connection is %s: %s" % (show(g("bytes"))[:40], tx))
                kv = fget(P, st, pg, A, "keep_alive", eng=e) if pg else ("?",)
                ctx.check(is_adt(kv, "Some" if ka else "None"), G, "on", "keep-alive is %s: %s" % (show(kv)[:40], tx))
                if ka and is_adt(kv, "Some"):
                    q = lambda n: fget(P, st, kv[4][0], K, n, eng=e)
                    ctx.check(q("interval") == IV and q("timeout") == TO and q("while_idle") == init("WI") and is_adt(q("state"), "Init"), G, "config", "keep-alive is not configured as asked: interval %s, timeout %s, while_idle %s, %s: %s" % (show(q("interval")), show(q("timeout")), show(q("while_idle")), show(q("state")), tx))
                ctx.check(is_adt(fget(P, st, pg, A, "bdp", eng=e), "Some" if bdp else "None") if pg else False, G, "bdp", "the bandwidth estimate is on or off wrongly: " + tx)
    f = next(f for f in P.fns.values() if f.local and f.n.endswith("ping::Config::is_enabled"))
    for bdp in (False, True):
        for ka in (False, True):
            e = ctx.engine(rule=Rec([], limit=50))
            e.run(f, [mref("self")], heap={cell("self"): mk(P, Cf, bdp_initial_window=some(init("WND")) if bdp else NONE, keep_alive_interval=some(IV) if ka else NONE)})
            for st, v in e.finals: ctx.check(st.val_int(v) == int(bdp or ka), G, "enabled", "pings are enabled: %s with bdp=%s, keep-alive=%s" % (show(v), bdp, ka))
    ctx.floor(G, 10)

def peel(e, st, v):
    n = 0
    while n < 10:
        n += 1
        if v[0] == "ref": v = e.read(st, v[1])
        elif v[0] == "adt" and v[1].split("::")[-1] == "Pin": v = v[4][0]
        else: return v
    return v

def uses(ctx, P):
    ctx.rule("a connection found dead is ended: the server aborts it, the client's connection future finishes; frames of bodies, trailers, response heads and new requests are recorded as reads")
    G = "use of the ping state"
    S = h2slib.Srv(ctx)
    n = 0
    for p in S.poll(S.serving(ping=some(("tup", (h2slib.RECORDER, h2slib.PONGER)))), ping=True):
        if p.has("pong", "KeepAliveTimedOut"):
            n += 1
            ctx.check(any(x[0] == "hc" and x[1] == "abrupt_shutdown" for x in p.ev[p.idx("pong", "KeepAliveTimedOut"):]), G, "server-dead", "a dead connection is not ended: " + p.text())
        elif p.has("hc", "abrupt_shutdown"): ctx.check(False, G, "server-alive", "a living connection is aborted: " + p.text()) if not any(x[0] == "svc" or x[0] == "service" for x in p.ev) else None
    ctx.check(n > 0, G, "server-poll", "the server never looks for pongs")
    # the client's connection future
    CA = P.adt("proto::h2::client::Conn")
    f = P.trait_method(CA["path"], "Future", "poll")
    HC, PG = init("H2CONN"), init("PONGER")
    Pd = P.adt("proto::h2::ping::Ponged")
    def h(e, st, c):
        r = peel(e, st, c.args[0]) if c.args else None
        if r == PG and c.mname == "poll": return [(PENDING, ("pong", "pending"))] + [(ready(S.pong(k)), ("pong", k)) for k in ("SizeUpdate", "KeepAliveTimedOut")]
        if r == HC:
            if c.mname == "poll": return [(PENDING, ("conn", "pending")), (ready(ok(UNIT)), ("conn", "ok")), (ready(err(init("H2ERR"))), ("conn", "err"))]
            if c.mname == "set_initial_window_size": return [(ok(UNIT), ("window",)), (err(init("WERR")), ("window", "err"))]
            if c.mname == "set_target_window_size": return [(UNIT, ("hc", c.mname))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)], limit=100))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, CA, ponger=PG, conn=HC)})
    for st, v in e.finals:
        ev = st.aut or ()
        tx = "%s -> %s" % (ev, show(v)[:60])
        ctx.check(any(x[0] == "pong" for x in ev), G, "client-poll", "the client's connection does not look for pongs: " + tx)
        if ("pong", "KeepAliveTimedOut") in ev: ctx.check(is_adt(v, "Ready"), G, "client-dead", "a dead connection goes on: " + tx)
        else: ctx.check(any(x[0] == "conn" or x == ("window", "err") for x in ev), G, "client-alive", "a living connection is ended or not polled: " + tx)
    ctx.floor(G, 8)

def reads(ctx, P):
    ctx.rule("each place that takes data, trailers, a response head or a request from an HTTP/2 stream reports the read, with its length, before it hands it on")
    G = "reads reported"
    I = P.adt("body::incoming::Incoming"); K = P.adt("body::incoming::Kind"); D = P.adt("body::length::DecodedLength")
    f = next((g for g in P.fns.values() if g.local and g.name == "poll_frame" and g.selfty is not None and "Incoming" in str(P.ty(g.selfty))), None) or P.trait_method(I["path"], "Body", "poll_frame")
    for done in (TRUE, FALSE):
        vi = K["vix"]["H2"]
        kind = ("adt", K["path"], vi, "H2", tuple({"data_done": done, "recv": c30.RX, "content_length": ("adt", D["path"], 0, D["variants"][0][0], (init("CL"),))}.get(x[0], init("H2." + x[0])) for x in K["variants"][vi][2]))
        e = ctx.engine(rule=Rec(c30.h2_recv(P)))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, I["path"], kind=kind), cell("fc"): c30.FC})
        took(ctx, G, e, "body")
    U = P.adt("proto::h2::upgrade::H2Upgraded")
    f = P.trait_method(U["path"], "Read", "poll_read")
    for m in (0, 1):
        e = ctx.engine(rule=Rec(c30.h2_recv(P)))
        buf = init("BUF")
        e.run(f, [PIN(mref("self")), mref("cx"), init("READBUF")], heap={cell("self"): mk(P, U["path"], recv_stream=c30.RX, buf=buf, ping=init("PING")), cell("fc"): c30.FC})
        took(ctx, G, e, "tunnel")
    RM = P.adt("proto::h2::client::ResponseFutMap"); f = P.trait_method(RM["path"], "Future", "poll")
    def rf(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == RFUT and c.mname == "poll": return [(PENDING, ("resp", "pending")), (ready(ok(init("RSP"))), ("resp", "ok")), (ready(err(init("H2ERR"))), ("resp", "err"))]
        if c.mname in ("record_data", "record_non_data") and c.fn is not None and c.fn.local: return [(UNIT, ("rec", c.mname))]
        return None
    n = 0
    for con in (NONE, some(init("SS"))):
      e = ctx.engine(rule=Rec([(lambda c, e, st: True, rf), c20.ERRS], limit=300))
      e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, RM["path"], fut=RFUT, ping=some(init("PING")), send_stream=some(con))})
      for st, v in e.finals:
        ev = st.aut or ()
        if ("resp", "ok") in ev: n += 1; ctx.check(("rec", "record_non_data") in ev, G, "response", "a response head is not reported as a read: %s -> %s" % (ev, show(v)[:80]))
    S = h2slib.Srv(ctx)
    for p in S.poll(S.serving(ping=some(("tup", (h2slib.RECORDER, h2slib.PONGER))))):
        if p.has("accept", "ok"): n += 1; ctx.check(p.has("rec", "record_non_data"), G, "request", "a request is not reported as a read: " + p.text())
    ctx.floor(G, 6)

def took(ctx, G, e, what):
    for st, v in e.finals + [(s, None) for s, c in e.rule.stopped]:
        ev = st.aut or ()
        tx = "%s: [%s] -> %s" % (what, "; ".join(" ".join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x) for x in ev), "loops" if v is None else show(v)[:80])
        if v is None: continue
        rec = [x for x in ev if x[:2] == ("rec", "record_data")]
        if ("data", "ok") in ev: ctx.check(len(rec) == 1 and c30.lin_eq(rec[0][2], c30.length(c30.DATA)), G, what + "-data", "received data is not reported as a read once, with its length: " + tx)
        else: ctx.check(not rec, G, what + "-none", "data is reported as read although none was: " + tx)
        if ("trailers", "some") in ev: ctx.check(("rec", "record_non_data") in ev, G, what + "-trailers", "received trailers are not reported as a read: " + tx)

def run(ctx):
    P = ctx.prog()
    ponger(ctx, P); recorder(ctx, P); channel(ctx, P); uses(ctx, P); reads(ctx, P)
