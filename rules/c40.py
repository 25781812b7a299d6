"""Every path to a pending result has arranged for the task to be woken."""
from rt import *
import os, time, multiprocessing
import displib
LEVEL = "other"

# ---------------------------------------------------------------------------------------------
# which calls poll something, and with what

def tyof(P, f, i):
    t = f.locals[i][0]
    return P.ty(t) if isinstance(t, int) else t

def is_poll(t): return isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("task::Poll")

def has_ctx(t, d=0):
    """is this type the task context (or a reference to it)"""
    if not isinstance(t, tuple): return False
    if t[0] == "adt": return t[1].endswith("task::Context") or t[1].endswith("hyper_context")
    if t[0] in ("ref", "ptr", "rawptr"): return any(has_ctx(x, d + 1) for x in t if isinstance(x, tuple)) if d < 3 else False
    return False

class Polls:
    def __init__(s, P):
        s.P = P; s.calls = {}
    def is_callback(s, site):
        """the call of a function value"""
        t = s.P.fns[site[0]].blocks[site[1]][1]
        return t[0] == "call" and isinstance(t[1], dict) and "n" not in t[1]
    def dest_is_poll(s, site):
        f = s.P.fns.get(site[0])
        if f is None: return False
        if site not in s.calls:
            t = f.blocks[site[1]][1]
            r = False
            if t[0] == "call":
                d = t[3]
                l, proj = (d[0], d[1]) if isinstance(d, (list, tuple)) else (d, [])
                r = not proj and is_poll(tyof(s.P, f, l))
            s.calls[site] = r
        return s.calls[site]

CX = cell("cx")
def given(e, st, c, i):
    """is argument i the context this function was given"""
    v = c.args[i]; n = 0
    while n < 8:
        if v[0] == "ref":
            if v[1][0] == CX: return True
            v = e.read(st, v[1])
        elif v[0] == "adt" and len(v[4]) == 1: v = v[4][0]
        elif v[0] == "tup" and len(v[1]) == 1: v = v[1][0]
        else: break
        n += 1
    return v == init("CX")

# ---------------------------------------------------------------------------------------------
# exits that are pending without an arrangement of their own. Each is tied to the state in which
# another part of the same task (polled in the same turn) owns the wake-up.

GUARDED = (cell("shared"), ())

def facts_on(st, *ends):
    for i, c in st.facts.items():
        t = show_t(i)
        if any(t.endswith(x) for x in ends): yield t, c

def one_of(c, v): return c[0] == "in" and set(c[1]) == {v}

def g_fused(P, e, st, f):
    "the future had already completed (it is only polled again by mistake)"
    return any(("is_terminated" in show_t(i)) and "FusedStream" not in show_t(i) and one_of(c, 1) for i, c in st.facts.items())

def g_keep_alive_read(P, e, st, f):
    "reading is over, or the buffer already holds bytes of the next message, or half-closing is allowed: nothing to learn from the transport"
    closed = P.adt("proto::h1::conn::Reading")["vix"]["Closed"]
    if any(one_of(c, closed) for t, c in facts_on(st, "discr(uneval(heap).state.reading)")): return True
    if any(one_of(c, 1) for t, c in facts_on(st, ".state.allow_half_close")): return True
    return any(t.startswith("len(") and c[0] == "rng" and c[1] >= 1 for t, c in facts_on(st, ")"))

def g_read_head(P, e, st, f):
    "the error has been turned into a response to write, and is kept to be reported after it"
    C = P.adt("proto::h1::conn::Conn")
    S = fget(P, st, e.read(st, (cell("a1"), ())), C, "state", eng=e)
    er = fget(P, st, S, P.adt("proto::h1::conn::State"), "error", eng=e)
    if is_adt(er, "Some"): return True
    # left behind by a helper: when the helper says Ok it has kept the error
    t = TERMS[er[1]] if er[0] == "sym" else ("",)
    while t[0] == "fld" and t[1][0] == "sym": t = TERMS[t[1][1]]
    if t[0] != "hav": return False
    h = P.fn("::".join(str(t[1]).split("::")[-2:]), optional=True)
    if h is None: return False
    e2 = _CTX.engine(e.cfg if hasattr(e, "cfg") else "a", rule=Rec([], opaque=("write_head", "has_h2_prefix")))
    e2.run(h, [mref("a1")] + [init("b%d" % i) for i in range(2, h.argc + 1)])
    oks = [s for s, v in e2.finals if is_adt(v, "Ok")]
    def kept(s):
        S = fget(P, s, e2.read(s, (cell("a1"), ())), C, "state", eng=e2)
        return is_adt(fget(P, s, S, P.adt("proto::h1::conn::State"), "error", eng=e2), "Some")
    return bool(oks) and all(kept(s) for s in oks)

def g_in_flight(P, e, st, f):
    "a request is still being answered: the service's future is polled by the writing side"
    return any(one_of(c, 1) for t, c in facts_on(st, "in_flight))"))

def g_ponger(P, e, st, f):
    "no ping is on its way and no keep-alive timer is scheduled: the next event is the connection's"
    ev = st.aut or ()
    pong = ("ready", "poll_pong") in ev
    SH = P.adt("proto::h2::ping::Shared")
    sent = fget(P, st, e.read(st, GUARDED), SH, "ping_sent_at", eng=e)
    if not pong and not ("failed", "poll_pong") in ev and not any(one_of(c, 0) for t, c in facts_on(st, ".ping_sent_at)")) and not is_adt(sent, "None"): return False
    if ("failed", "poll_pong") in ev or ("send_ping", "failed") in ev: return True           # so does the connection
    a = e.read(st, (cell("a1"), ()))
    ka = fget(P, st, a, P.adt("proto::h2::ping::Ponger"), "keep_alive", eng=e)
    K = P.adt("proto::h2::ping::KeepAlive"); KS = P.adt("proto::h2::ping::KeepAliveState")
    is_ = lambda v, a, n: is_adt(v, n) or v[0] == "sym" and any(one_of(c, a[n]) for t, c in facts_on(st, "discr(%s)" % show(v)))
    if is_(ka, {"None": 0}, "None"): return True
    s = fget(P, st, e.project(st, ka, ("f", 0, "0", "Some", 1)), K, "state", eng=e)
    if is_(s, KS["vix"], "Init"): return True
    # or the timer has run out on an idle connection that is not pinged while idle
    return is_(s, KS["vix"], "Scheduled") and ("ready", "poll") in ev and any(one_of(c, 0) for t, c in facts_on(st, ".while_idle")) \
        and any("REFS" in show_t(i) for i in st.facts)

JOINT = {"Conn::<I, B, T>::poll_read_keep_alive": g_keep_alive_read, "Conn::<I, B, T>::poll_read_head": g_read_head,
         "as proto::h1::dispatch::Dispatch>::poll_ready": g_in_flight, "ping::Ponger::poll": g_ponger}
FUSED = ("futures_core::Future>::poll",)
BYHAND = ("Dispatcher::<D, Bs, I, T>::poll_read", "Dispatcher::<D, Bs, I, T>::poll_write", "Dispatcher::<D, Bs, I, T>::poll_loop", "Dispatcher::<D, Bs, I, T>::poll_inner")
PASS = ("map", "map_ok", "map_err", "from", "clone", "branch", "from_residual", "from_output", "into")

def joint(n):
    for k, g in JOINT.items():
        if n.endswith(k): return g

# what a C callback answers when it keeps the context and will wake it (capi/include/hyper.h)
C_PENDING = (1, 0xFFFFFFFF)

def explore(ctx, cfg, f, th, inline, dbg=False, strong=False):
    """-> (finals, pendings, [violation text], callees)"""
    P = ctx.prog(cfg); K = Polls(P)
    cxs = [i for i in range(1, f.argc + 1) if has_ctx(tyof(P, f, i))]
    callees = set(); bounds = set()
    def item(site):
        g = P.fns[site[0]]; d = g.blocks[site[1]][1][3]
        t = tyof(P, g, d[0] if isinstance(d, (list, tuple)) else d)
        return any(isinstance(x, tuple) and x[0] == "adt" and x[1].endswith("option::Option") and "Infallible" not in str(x) and "'!'" not in str(x) for y in t[2:] for x in (y if isinstance(y, (tuple, list)) else ()))
    def mark(st, evt):
        if evt not in (st.aut or ()): st.aut = (st.aut or ()) + (evt,)
    def h(e, st, c):
        if c.mname in ("register", "wake_by_ref", "wake") and "Waker" in c.short:
            mark(st, ("arranged", c.mname)); return None
        if c.mname == "waker" and "Context" in c.short: return None
        if c.short == "std::sync::Mutex::lock" and joint(f.n):      # one lock: what was found under it stays known
            return [(ok(mref("shared")), None)]
        if c.mname == "strong_count" and joint(f.n): return [(init("REFS"), None)]
        if c.mname == "send_ping" and "PingPong" in c.short: return [(ok(UNIT), ("arranged", "send_ping")), (err(init("PING_ERR")), ("send_ping", "failed"))]   # h2 wakes the connection to send it
        if c.site[0] == f.key and K.is_callback(c.site) and any(given(e, st, c, i) for i in range(len(c.args))):
            muts = []
            for a in c.args: e.mut_refs(st, a, muts)
            for i, pth in enumerate(muts):
                if pth[0] != CX: e.havoc(st, pth, c, i)
            return [(init("ANSWER"), ("asked", "C callback"))]
        if not K.dest_is_poll(c.site): return None
        if c.mname in PASS: return None
        g = any(given(e, st, c, i) for i in range(len(c.args)))
        local = c.fn is not None and c.fn.local and c.fn.argc and not c.fn.coroutine
        if local and not g: return None
        if local:
            callees.add(c.fn.key)
            if c.fn.key in inline: return None
        weak = local and joint(c.fn.n) or (c.trait or "").endswith("h1::dispatch::Dispatch") and c.mname == "poll_ready"
        muts = []
        for a in c.args: e.mut_refs(st, a, muts)
        for i, pth in enumerate(muts):
            if pth[0] != CX: e.havoc(st, pth, c, i)
        s2 = st.fork()
        r = e.fresh(st, "site", c.short, c.site[0], c.site[1])
        if c.mname == "poll_pong":
            s3 = st.fork(); mark(s3, ("failed", c.mname)); mark(st, ("ready", c.mname))
            if not g: return None
            return ("states", e.finish(s3, c.dest, c.target, ready(err(r))) + e.finish(st, c.dest, c.target, ready(ok(r))))
        mark(st, ("ready", c.mname))
        bounds.add(c.site)
        if g and not weak:
            if strong and item(c.site):       # an item that comes out of a part after another one was pending: that part may have more
                s3 = st.fork()
                if ("arranged", "a part") in (st.aut or ()): st.aut = tuple(x for x in st.aut if x[0] != "late") + (("late", c.mname),)
                out = e.finish(s3, c.dest, c.target, ready(NONE)) + e.finish(st, c.dest, c.target, ready(some(r)))
            else: out = e.finish(st, c.dest, c.target, ready(r))
            if strong:
                s2.aut = tuple(x for x in s2.aut or () if x[0] != "late")
                mark(s2, ("arranged", "a part"))
                out = e.finish(s2, c.dest, c.target, PENDING) + out
            return ("states", out)
        if weak: mark(s2, ("weak", c.mname))
        elif not g and c.site[0] in P.fns and any(has_ctx(tyof(P, P.fns[c.site[0]], o[1][0])) for o in P.fns[c.site[0]].blocks[c.site[1]][1][2] if o[0] in ("cp", "mv") and not o[1][1]):
            mark(s2, ("foreign", c.mname))
        return ("states", e.finish(s2, c.dest, c.target, PENDING) + e.finish(st, c.dest, c.target, ready(r)))
    class R(Rec):
        def opaque(self, e, c):
            g = c.fn
            return g is not None and g.local and len(g.blocks) > th and not is_poll(tyof(P, g, 0)) and not any(has_ctx(tyof(P, g, i)) for i in range(1, g.argc + 1))
    e = ctx.engine(cfg, rule=R([(lambda c, e, st: True, h)]))
    if strong: e.max_states = 60000
    args = []
    for i in range(1, f.argc + 1):
        t = tyof(P, f, i)
        if i in cxs: args.append(mref("cx"))
        elif t[0] == "ref": args.append(mref("a%d" % i))
        elif t[0] == "adt" and t[1].endswith("Pin"): args.append(("adt", t[1], 0, "Pin", (mref("a%d" % i),)))
        else: args.append(init("a%d" % i))
    e.run(f, args)
    bad, npend = [], 0
    for st, v in e.finals:
        if v[0] != "adt":
            bad.append("its result could not be decided (%s)" % show(v)[:60]); continue
        if not is_adt(v, "Pending"): continue
        npend += 1
        for x in st.aut or ():
            if x[0] == "foreign": bad.append("pending on %s, which was not given this task's context" % x[1])
        for x in st.aut or ():
            if x[0] == "late":
                bad.append("pending right after %s gave an item: it may have more, and has not been asked again" % x[1])
        if any(x[0] == "arranged" for x in st.aut or ()): continue
        if ("asked", "C callback") in (st.aut or ()) and any(one_of(st.facts.get(init("ANSWER")[1], ("",)), x) for x in C_PENDING): continue
        if any(f.n.endswith(x) for x in FUSED) and g_fused(P, e, st, f): continue
        g = joint(f.n)
        if g and g(P, e, st, f): continue
        wk = [x[1] for x in st.aut or () if x[0] == "weak"]
        if wk and f.n.endswith("Dispatcher::<D, Bs, I, T>::poll_read_head"): continue
        if dbg: print("  --", st.aut); [print("       ", show_t(i)[:140], str(c)[:60]) for i, c in st.facts.items()]
        fs = ["%s is %s" % (show_t(i)[:60], sorted(c[1])[0] if c[0] == "in" and len(c[1]) == 1 else "%s" % (c[1:3],)) for i, c in st.facts.items()]
        bad.append("pending although nothing that was polled is pending (polled: %s) on the path where %s" %
                   (", ".join(x[1] + " ready" if x[0] == "ready" else x[1] for x in st.aut or ()) or "nothing", "; ".join(fs[-5:]) or "always"))
    return len(e.finals), npend, bad, callees, len(bounds)

def safe(ctx, cfg, key, inline=frozenset(), dbg=False):
    f = ctx.prog(cfg).fns[key]
    last = None
    for th, strong in ((14, cfg == "a"), (14, False), (4, False), (0, False)):
        try: return explore(ctx, cfg, f, th, inline, dbg, strong)
        except Exception as x: last = "%s: %s" % (type(x).__name__, str(x)[:160])
    return last

_CTX = None
def _work(a): return a, safe(_CTX, *a)

def entries(P):
    out = []
    for f in P.fns.values():
        if not f.local or f.coroutine or not is_poll(tyof(P, f, 0)): continue
        if any(f.n.endswith(x) for x in BYHAND): continue
        if not any(has_ctx(tyof(P, f, i)) for i in range(1, f.argc + 1)): continue
        out.append(f.key)
    return out

# ---------------------------------------------------------------------------------------------

def generic(ctx, cfg):
    """every poll function by itself: what it polls with its context answers pending or anything ready"""
    G = "a pending result rests on a pending part"
    P = ctx.prog(cfg)
    keys = entries(P)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = dict(((a[1], a[2]), r) for a, r in pool.imap_unordered(_work, [(cfg, k, frozenset()) for k in keys], 1))
        callers = {}
        for (k, _), r in res.items():
            if not isinstance(r, str):
                for g in r[3]: callers.setdefault(g, []).append(k)
        # a private helper may leave the arrangement to its callers: then they are judged with it looked into
        again = []
        for k in keys:
            r = res[(k, frozenset())]; f = P.fns[k]
            if isinstance(r, str) or not r[2] or f.pub or f.trait or joint(f.n): continue
            if callers.get(k): again += [(cfg, c, frozenset([k])) for c in callers[k]]; res[(k, frozenset())] = r[:2] + ([],) + r[3:]
        for a, r in pool.imap_unordered(_work, again, 1): res[(a[1], a[2])] = r
    nf = npd = nb = 0
    for (k, inl), r in sorted(res.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
        f = P.fns[k]
        if isinstance(r, str):
            ctx.bad("undecided:%s:%s" % (cfg, f.n), "%s (%s) cannot be followed to all its results (%s)" % (f.n, where(f.span), r), G); continue
        nf += 1; npd += r[1]; nb += r[4]
        ctx.ok(G, max(1, r[0])); ctx.fns.add(k); ctx.paths += r[0]
        for t in sorted(set(r[2]))[:3]: ctx.bad("pending:%s" % f.n, "%s (%s) is %s [configuration %s]" % (f.n, where(f.span), t, cfg))
    ctx.ok("poll functions (%s)" % cfg, nf); ctx.ok("polled parts (%s)" % cfg, nb)
    ctx.note("%s: %d poll functions, %d call sites at which a part is polled, %d pending results of their own" % (cfg, nf, nb, npd))

def dispatcher(ctx):
    """the HTTP/1 dispatcher: reading, writing and flushing share one task"""
    D = displib.Disp(ctx)
    pend = lambda p: [x for x in p.ev if x[0] in ("op", "disp", "tx", "body", "stub") and "pending" in x[2:3]]
    G = "the dispatcher's reading side"
    for role in ("server", "client"):
        for tx in (False, True):
            for p in D.run("poll_read", role=role, body_tx=tx):
                if p.again or p.ret is None or not is_adt(p.ret, "Pending"): continue
                ctx.check(bool(pend(p)), G, "read:%s" % role, "reading stops as pending although nothing it asked is pending; " + p.text())
    ctx.floor(G, 8)
    G = "the dispatcher's writing side"
    for role in ("server", "client"):
        for rx in (False, True):
            for p in D.run("poll_write", role=role, body_rx=rx):
                if p.again or p.ret is None or not is_adt(p.ret, "Pending"): continue
                n = len(p.ev)
                qs = {x[1]: x[2] for x in p.ev if x[0] in ("q", "dq")}
                idle = is_adt(p.rx(), "None") and p.q_before(n, "can_write_body") == FALSE and (p.q_before(n, "can_write_head") == FALSE or qs.get("should_poll") == FALSE)
                ctx.check(bool(pend(p)) or idle, G, "write:%s" % role, "writing stops as pending although nothing it asked is pending and there is something to write; " + p.text())
    ctx.floor(G, 8)
    G = "the dispatcher goes idle only with nothing left to do"
    def outs(nm, k):
        def h(e, st, c):
            if sum(1 for x in st.aut or () if x[:2] == ("stub", nm)) >= k: return "stop"
            return [(PENDING, ("stub", nm, "pending")), (ready(ok(UNIT)), ("stub", nm, "ok"))]
        return h
    stub = [(nm, outs(nm, k)) for nm, k in (("poll_read", 2), ("poll_write", 3), ("poll_flush", 3))]
    for role in ("server", "client"):
        for kw in (dict(body_rx=True), dict()):
            for p in D.run("poll_loop", role=role, stub=stub, **kw):
                if p.again or p.ret is None: continue
                t = p.text()
                if ("yield",) in p.ev: ctx.ok(G); continue
                ctx.check(not is_adt(p.ret, "Pending"), G, "loop-pending:%s" % role, "the loop is pending without having scheduled itself; " + t)
                last = {nm: max([i for i, x in enumerate(p.ev) if x[:2] == ("stub", nm)], default=-1) for nm in ("poll_read", "poll_write", "poll_flush")}
                for nm, i in last.items(): ctx.check(i >= 0, G, "unasked:%s:%s" % (nm, role), "the turn ends without %s; %s" % (nm, t))
                if min(last.values()) < 0: continue
                ctx.check(("op", "wants_read_again", FALSE) in p.ev[last["poll_read"]:] and ("op", "wants_read_again", TRUE) not in p.ev[last["poll_read"]:], G, "more-to-read:%s" % role,
                          "the dispatcher goes idle although (or without asking whether) there is more to read; " + t)
                qs = [x[2] for x in p.ev if x[:2] == ("q", "can_write_body")]
                if kw and p.closing() != 1 and (not qs or qs[-1] != FALSE):
                    w = last["poll_write"]
                    fl = [x[2] for x in p.ev if x[:2] == ("stub", "poll_flush")]
                    first = min(i for i, x in enumerate(p.ev) if x[:2] == ("stub", "poll_flush"))
                    ctx.check(p.ev[w][2] == "pending" and (w > first or all(x == "pending" for x in fl)), G, "more-to-write:%s" % role,
                              "the dispatcher goes idle although more of the body could be written; " + t)
    ctx.floor(G, 12)
    G = "a pending connection has had its turn"
    def lp(e, st, c): return [(PENDING, ("stub", "poll_loop", "pending")), (ready(ok(UNIT)), ("stub", "poll_loop", "ok"))]
    for role in ("server", "client"):
        for sh in (TRUE, FALSE):
            for p in D.run("poll_inner", role=role, stub=[("poll_loop", lp)], extra_args=[sh]):
                if p.again or p.ret is None or not is_adt(p.ret, "Pending"): continue
                ctx.check(any(x[:2] == ("stub", "poll_loop") for x in p.ev), G, "turn:%s" % role, "the connection is pending without having read, written and flushed; " + p.text())
    ctx.floor(G, 4)

def run(ctx):
    global _CTX
    _CTX = ctx
    ctx.rule("on every path on which a poll function returns Pending, a part that was polled with the very context it was given has answered Pending, or the waker was registered, or its own wake-up was scheduled (a C callback counts when it got the context and answered pending)")
    ctx.rule("five exits rest on another part of the same task instead, and are accepted only in the state that makes it so: reading for keep-alive (reading over, half-closing allowed, or bytes buffered), a read error turned into a response, the server waiting for the service's answer, the pinger with no ping or keep-alive timer outstanding, a task future polled again after it completed")
    ctx.rule("the HTTP/1 dispatcher: reading and writing are pending only when something they asked is, or with nothing to write; a turn reads, writes and flushes, and ends only when there is nothing more to read and the body is pending, or the dispatcher schedules itself")
    for cfg in ("a", "b"): ctx.prog(cfg)
    dispatcher(ctx)
    generic(ctx, "a")
    generic(ctx, "b")
    ctx.floor("poll functions (a)", 60); ctx.floor("poll functions (b)", 60)
    ctx.floor("a pending result rests on a pending part", 1000)
