"""100 Continue: only when asked, when the body is wanted, before a response, once."""
from rt import *
import connlib, c06, c01, parselib, displib
from parselib import run_parse
LEVEL = "other"
LIT = "HTTP/1.1 100 Continue\r\n\r\n"

def msg(P, ver, zero, expect, upgrade=FALSE):
    D = P.adt("body::length::DecodedLength")
    dl = ("adt", D["path"], 0, D["variants"][0][0], (("int", 0) if zero else init("BODY_LEN"),))
    head = mk(P, P.adt("proto::MessageHead"), version=c06.version(P, ver), subject=init("SUBJ"), headers=init("HDRS"), extensions=init("EXTS"))
    return mk(P, P.adt("proto::h1::ParsedMessage"), head=head, decode=dl, expect_continue=expect, keep_alive=init("MSG_KEEP_ALIVE"), wants_upgrade=upgrade)

def text_of(v):
    while v is not None and v[0] in ("rf",): v = v[1]
    if v is None: return None
    if v[0] in ("str", "bytes"): return v[1] if isinstance(v[1], str) else bytes(v[1]).decode("latin1")
    if v[0] == "arr" and all(x[0] == "int" for x in v[1]): return bytes(x[1] for x in v[1]).decode("latin1")
    return None

def run(ctx):
    P = ctx.prog(); L = connlib.Lib(ctx)
    fns = {f.name: f for f in L.ent}
    ctx.rule("the interim response is queued only while reading is in the state that awaits it and no response has started, exactly once, and that state is left")
    G1, G2 = "interim response queued when the body is first read", "nothing queued by reading otherwise"
    rd = [f for f in L.ent if f.name.startswith(("poll_read", "poll_drain", "close_", "disable", "on_upgrade", "pending", "take_error", "wants"))]
    if len(rd) < 5: raise mir.AnchorError("reading operations of the connection")
    for role in ("server", "client"):
        for f in L.ent:
            if f.name.startswith(("write_", "end_")): continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in ("Busy", "Disabled"):
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        for t in L.run(f, role, r, w, k):
                            q = [x for x in t.ev if x[0] == "hbuf" or x[0] == "io" and x[1] == "buffer"]
                            if r == "Continue" and f.name == "poll_read_body" and w == "Init":
                                room = not any(x[0] == "can_headers_buf" and x[1] == FALSE for x in t.ev)
                                ctx.check([text_of(x[2]) for x in q if x[0] == "hbuf"] == [LIT] and len(q) == 1 or not room and not q and t.post[0] in ("Continue",), G1, "continue:%s" % role, "a body with a pending Expect is read and what is queued is %s: %s" % ([show(x[2])[:60] if x[2] else x for x in q], t.text()))
                                if q: ctx.check(t.post[0] != "Continue", G1, "again:%s" % role, "the interim response is queued and may be queued again: " + t.text())
                                dec = next((i for i, x in enumerate(t.ev) if x[0] == "decode"), None)
                                if q and dec is not None: ctx.check(t.ev.index(q[0]) < dec, G1, "order:%s" % role, "the body is read before the interim response is queued: " + t.text())
                            else:
                                ctx.check(not q, G2, "queue:%s:%s" % (role, f.name), "%s queues bytes (%s): %s" % (f.name, [text_of(x[2]) if x[0] == "hbuf" else x[1] for x in q], t.text()))
                            if r != "Continue": ctx.check(t.post[0] != "Continue" or f.name == "poll_read_head", G2, "enter:%s:%s" % (role, f.name), "an Expect becomes pending again: " + t.text())
    ctx.floor(G1, 4); ctx.floor(G2, 200)
    # ---- entered only for a request that expects it
    ctx.rule("that state is entered exactly for a parsed message that expects it, is above HTTP/1.0 and has a body; then, and only then, the application's wish for the body is awaited")
    G = "state after a parsed head"
    f = fns["poll_read_head"]
    for ver in ("Http09", "Http10", "Http11", "H2"):
        for zero in (True, False):
            for ex in (TRUE, FALSE):
                m = msg(P, ver, zero, ex)
                ph = (named("Buffered::parse"), lambda c, e=None, s=None: None)
                def parse(e, st, c): return [(ready(ok(m)), ("parse", "ok"))]
                for w in ("Init",):
                    for t in L.run(f, "server", "Init", w, "Idle", extra=((named("Buffered::parse"), parse),), facts={init("BODY_LEN")[1]: ("rng", 1, 2**64 - 1, frozenset())}):
                        want = ex == TRUE and not zero and ver in ("Http11", "H2")
                        ctx.check((t.post[0] == "Continue") == want, G, "enter:%s:%s:%s" % (ver, zero, ex[1]), "a %s request, %s body, expect=%s: reading becomes %s; %s" % (ver, "no" if zero else "with", ex[1], t.post[0], t.text()))
                        v = unwrap(t.ret, "Ready", "Some", "Ok")
                        wants = v[1][2] if v and v[0] == "tup" else None
                        n = None
                        if wants is not None:
                            x = wants
                            while x[0] == "adt" and x[4]: x = x[4][0]
                            n = t.st.val_int(x)
                        ctx.check(n is not None and bool(n & expect_bit(ctx, P)) == want, G, "wants:%s:%s:%s" % (ver, zero, ex[1]), "the dispatcher is told wants=%s for a %s request, %s body, expect=%s" % (n, ver, "no" if zero else "with", ex[1]))
    ctx.floor(G, 16)
    # ---- parser
    ctx.rule("a request expects it exactly if its Expect line is 100-continue (case-insensitively); a response never does")
    G = "expectation of a parsed request"
    rs, R = run_parse(ctx, "Server", ["expect"], cap=2)
    for r in rs:
        p = c01.parsed(P, r)
        if p is None: continue
        E = [i for i, n in r.lines() if n == "expect"]
        x = r.st.val_int(p["expect"])
        eq = [next((y[3] for y in reversed(r.ev) if y[0] == "cmp" and r.root(y[1]) and r.root(y[1])[:2] == ("whole", r.hval(i)) and y[2].lower() == "100-continue" and y[4] == "eq_ignore_ascii_case"), None) for i in E]
        good = x == 0 and not any(eq) or x == 1 and any(eq) or x == 0 and len(E) > 1 and False in eq
        ctx.check(good and (x == 1 or len(E) != 1 or eq == [False]), G, "expect", "a request is taken to expect a 100 Continue: %s, its Expect lines match: %s; %s" % (x, eq, r.text()))
    ctx.floor(G, 4)
    dispatch(ctx, P)
    wanter(ctx, P)

def expect_bit(ctx, P):
    return 1

def dispatch(ctx, P):
    ctx.rule("the body channel of such a request waits for the application, that of others does not; the body is read from the connection only when the channel says it is wanted")
    D = displib.Disp(ctx)
    G = "body channel of a request"
    for p in D.run("poll_read_head"):
        for x in p.get("newbody", "channel"):
            w = [y[2] for y in p.ev if y[0] == "wants" and y[1] == "EXPECT"]
            wv = p.st.val_int(x[3])
            ctx.check(bool(w) and wv == w[-1][1], G, "wanter", "a request that expects a 100 Continue (%s) gets a body channel with wanter=%s: %s" % (w, show(x[3])[:40], p.text()))
    ctx.floor(G, 2)
    G = "reading the body waits for the application"
    for p in D.run("poll_read", body_tx=True):
        i = p.idx("op", "poll_read_body")
        if i < 0: continue
        j = p.idx("tx", "poll_ready", "ok")
        ctx.check(0 <= j < i, G, "wanted", "the body is read before its channel asked for it: " + p.text())
    ctx.floor(G, 2)

def wanter(ctx, P):
    ctx.rule("such a channel is ready only after the application polled the body (its want moved on)")
    G = "channel readiness"
    f = P.fn("body::incoming::Sender::poll_ready"); W = {}
    new = P.fn("Incoming::new_channel")
    for flag in (TRUE, FALSE):
        e = ctx.engine(rule=Rec([(lambda c, e, st: c.fn is not None and c.fn.local and "watch::channel" in c.short or c.short.endswith("watch::channel"), lambda e, st, c: [(("tup", (init("WTX"), init("WRX"))), ("watch", e.as_int(c.args[0])))])]))
        for st, v in e.run(new, [init("LEN"), flag]):
            W.setdefault(flag[1], set()).add(tuple(st.val_int(x[1]) for x in st.aut or () if x[0] == "watch"))
    ctx.check(all(len(s) == 1 and len(next(iter(s))) == 1 for s in W.values()) and len(W) == 2 and W[0] != W[1], G, "initial", "the initial want of a body channel is %s" % W)
    pend, rdy = next(iter(W.get(1, {(None,)})))[0], next(iter(W.get(0, {(None,)})))[0]
    S = f
    outs = {}
    for val in (pend, rdy):
        def load(e, st, c): return [(("int", val), ("want", val))]
        e = ctx.engine(rule=Rec([(lambda c, e, st: c.fn is not None and c.fn.local and c.mname == "load", load),
             (lambda c, e, st: c.mname == "poll_ready" and c.fn is not S, lambda e, st, c: [(ready(ok(UNIT)), ("chan", "ok")), (PENDING, ("chan", "pending")), (ready(err(init("CE"))), ("chan", "err"))])]))
        for st, v in e.run(f, [mref("self"), mref("cx")]):
            outs.setdefault(val, set()).add((is_adt(v, "Pending"), bool([x for x in st.aut or () if x[0] == "chan"])))
    ctx.check(outs.get(pend) == {(True, False)}, G, "pending", "a channel nobody asked of reports %s (want: pending, without asking further)" % outs.get(pend))
    ctx.check((False, True) in outs.get(rdy, ()), G, "ready", "a wanted channel never gets ready: %s" % outs.get(rdy))
    # the application's poll sends the ready value
    pf = next((f for f in P.fns.values() if f.local and f.name == "poll_frame" and f.selfty is not None and P.ty(f.selfty)[:2] == ("adt", P.adt("body::incoming::Incoming")["path"])), None)
    if pf is None: raise mir.AnchorError("Incoming::poll_frame")
    sends = []
    for f in P.fns.values():
        if not f.local or "tests" in f.n or "common::watch::" in f.n: continue
        for stmts, term, cl in f.blocks:
            if term[0] == "call" and "id" in term[1]:
                t = P.fns.get(term[1].get("res", {}).get("id") or term[1]["id"])
                if t is not None and t.n.endswith("watch::Sender::send"): sends.append(f)
    ctx.check(bool(sends) and all("body::incoming::Incoming" in f.n for f in sends), G, "who-wants", "the want of a body is signalled from %s, not only from the application's handle" % sorted({f.n for f in sends}))
    e = ctx.engine(rule=Rec([(lambda c, e, st: c.fn is not None and c.fn.n.endswith("watch::Sender::send"), lambda e, st, c: [(UNIT, ("send", e.as_int(c.args[1])))]),
        (method("poll_next", "poll"), lambda e, st, c: [(PENDING, ("poll", c.mname))])], limit=60))
    K = P.adt("body::incoming::Kind"); I = P.adt("body::incoming::Incoming")
    names = [x[0] for x in K["variants"][K["vix"]["Chan"]][2]]
    D = P.adt("body::length::DecodedLength")
    kv = ("adt", K["path"], K["vix"]["Chan"], "Chan", tuple(("adt", D["path"], 0, D["variants"][0][0], (init("N"),)) if n == "content_length" else init("CH_" + n) for n in names))
    for st, v in e.run(pf, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx")], heap={cell("self"): mk(P, I["path"], kind=kv)}):
        ev = st.aut or ()
        ctx.check(ev and ev[0][0] == "send" and st.val_int(ev[0][1]) == rdy, G, "poll-wants", "the application polls the body without its want being signalled first: %s" % [(x[0],) for x in ev])
    ctx.floor(G, 5)
