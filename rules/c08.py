"""Head parsing is bounded: buffer, header count and target length."""
from rt import *
import c02, c20, parselib, connlib
from c25 import add, sub, le
LEVEL = "other"
I0 = ("int", 0)
NEXT, MAX, EX, N, DEC = init("NEXT"), init("MAX"), init("EXACT"), init("NREAD"), init("DECREASE")
U63 = ("rng", 0, 2**63 - 1, frozenset())

def lt_facts(pairs):
    """facts a <= b"""
    return {T("cmp", "Lt", b, a): ("in", frozenset((0,))) for a, b in pairs}

def num_handlers():
    """min, max, saturating arithmetic and bit scans as case splits over the whole range"""
    def h(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        a = c.args
        num = lambda v: v[0] in ("sym", "int")
        if m in ("min", "max") and len(a) == 2 and num(a[0]) and num(a[1]):
            out = []
            for x, s in bools(e, st, e.compare(st, "Le", a[0], a[1], "usize")): out += e.finish(s, c.dest, c.target, a[0] if bool(x) == (m == "min") else a[1])
            return ("states", out)
        if m == "clamp" and len(a) == 3 and num(a[0]):
            out = []
            for x, s in bools(e, st, e.compare(st, "Lt", a[0], a[1], "usize")):
                if x: out += e.finish(s, c.dest, c.target, a[1]); continue
                for y, s2 in bools(e, s, e.compare(s, "Lt", a[2], a[0], "usize")): out += e.finish(s2, c.dest, c.target, a[2] if y else a[0])
            return ("states", out)
        if m in ("saturating_sub", "checked_sub") and len(a) == 2:
            out = []
            for x, s in bools(e, st, e.compare(st, "Lt", a[0], a[1], "usize")):
                v = I0 if x else sub(*a)
                out += e.finish(s, c.dest, c.target, v if m[0] == "s" else NONE if x else some(v))
            return ("states", out)
        if m == "saturating_mul" and len(a) == 2 and a[1][0] == "int" and a[1][1] > 0 and a[0][0] == "sym":
            out = []; k = a[1][1]
            for lo, hi, big in ((0, (2**64 - 1) // k, False), ((2**64 - 1) // k + 1, 2**64 - 1, True)):
                s = st.fork()
                if e.assume_rng(s, a[0], lo, hi): out += e.finish(s, c.dest, c.target, ("int", 2**64 - 1) if big else ("sym", T("bin", "Mul", a[0], a[1])))
            return ("states", out)
        if m in ("leading_zeros", "ilog2", "checked_ilog2") and a and a[0][0] == "sym":
            out = []
            for k in range(-1, 64):
                s = st.fork()
                if not e.assume_rng(s, a[0], 0 if k < 0 else 2**k, 0 if k < 0 else 2**(k + 1) - 1): continue
                v = ("int", 63 - k) if m == "leading_zeros" else ("int", k) if m == "ilog2" else NONE if k < 0 else some(("int", k))
                out += e.finish(s, c.dest, c.target, v)
            return ("states", out)
        if m in ("next_power_of_two",) and a and a[0][0] == "sym":
            out = []
            for k in range(0, 64):
                s = st.fork()
                if e.assume_rng(s, a[0], 0 if k == 0 else 2**(k - 1) + 1, 2**k): out += e.finish(s, c.dest, c.target, ("int", 2**k))
            return ("states", out)
        return None
    return [(lambda c, e, st: bool(c.args), h)]

def run(ctx):
    P = ctx.prog()
    B = P.adt("proto::h1::io::Buffered"); RS = P.adt("proto::h1::io::ReadStrategy")
    W = P.adt("proto::h1::io::WriteBuf")
    INIT = 8192
    PRE = {x[1]: U63 for x in (MAX, EX, N)}
    PRE[NEXT[1]] = ("rng", INIT, 2**63 - 1, frozenset())
    PRE.update(lt_facts([(NEXT, MAX)]))
    PRE[MAX[1]] = ("rng", INIT, 2**63 - 1, frozenset())
    PRE[EX[1]] = ("rng", 1, 2**63 - 1, frozenset())
    strategies = [("adaptive", mk(P, RS, "Adaptive", decrease_now=d, next=NEXT, max=MAX), MAX, NEXT) for d in (TRUE, FALSE)]
    xv = next(v for v in RS["variants"] if v[0] == "Exact")
    strategies.append(("exact", mk(P, RS, "Exact", **{xv[2][0][0]: EX}), EX, EX))

    # ---- the loop that reads a head
    ctx.rule("reading a head: another read is made only when the buffer, checked after parsing found no complete head, is below the configured maximum; at or above it the result is the too-large error; end of input is the incomplete error; each read asks the buffer for at most what is left up to the maximum and never for nothing")
    f = P.fn("Buffered::parse")
    G = "reading on needs room"
    for tag, strat, mx, nx in strategies:
        def on(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            k = sum(1 for x in (st.aut or ()) if x[0] in ("head", "read"))
            if c.fn is not None and c.fn.local and m == "parse_headers" or m == "parse" and (c.trait or "").endswith("Http1Transaction"):
                if sum(1 for x in (st.aut or ()) if x[0] == "head") >= 3: return "stop"
                return [(ok(some(init("MSG"))), ("head", "complete")), (ok(NONE), ("head", "none")), (err(init("PARSE_ERR")), ("head", "err"))]
            if m == "poll_read_from_io":
                def n(s):
                    s.facts[N[1]] = ("rng", 1, 2**63 - 1, frozenset()); return ready(ok(N))
                L = ("sym", T("len", ("init", "READ_BUF", k)))
                return [(PENDING, ("read", "pending", L)), (ready(err(init("IO_ERR"))), ("read", "err", L)), (ready(ok(I0)), ("read", "eof", L)), (n, ("read", "data", L))]
            if not c.args: return None
            p = recv_path(e, st, c)
            if p and "read_buf" in (fields_on(p) or ()) or recv(e, st, c) == init("READ_BUF"):
                L = ("sym", T("len", ("init", "READ_BUF", k)))
                st.facts.setdefault(L[1], U63)
                if m in ("len", "remaining"): return [(L, None)]
                if m in ("is_empty", "has_remaining"): return [(e.compare(st, "Eq" if m == "is_empty" else "Lt", L if m == "is_empty" else I0, I0 if m == "is_empty" else L, "usize"), None)]
                if m in ("deref", "deref_mut", "as_ref", "as_mut"): return [(c.args[0], None)]
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("buf", m))]
            return None
        R = Rec([(lambda c, e, st: True, on), c20.ERRS] + num_handlers())
        e = ctx.engine(rule=R)
        e.run(f, [mref("self"), mref("cx"), parselib.ctx_value(P)], heap={cell("self"): mk(P, B["path"], read_buf=init("READ_BUF"), read_buf_strategy=strat, partial_len=NONE), cell("cached"): NONE, cell("reqm"): NONE, cell("oninf"): NONE}, facts=dict(PRE))
        for st, v in [(s, x) for s, x in e.finals] + [(s, None) for s, c in R.stopped]:
            ev = st.aut or ()
            t = "%s (%s), %s read size: [%s] returns %s" % (f.n, where(f.span), tag, ", ".join(" ".join(map(str, x[:2])) for x in ev), "(reads on)" if v is None else show(v)[:80])
            for i, x in enumerate(ev):
                if x[0] != "read": continue
                pr = ev[i - 1] if i else None
                if pr is None or pr[0] != "head": continue       # a read before any parse: the buffer may hold anything; judged by the one after
                L = x[2]
                ctx.check(pr[1] == "none", G, "read-after:" + pr[1], "more is read although the head was already decided; " + t)
                ctx.check(le(st, add(L, ("int", 1)), mx), G, "unbounded:" + tag, "more of a head is read although the buffer may already hold the maximum; " + t)
            ctx.check(not ev or ev[0][0] == "head", G, "parse-first", "a read is made before the bytes at hand were looked at; " + t)
            if v is None: continue
            h = [x for x in ev if x[0] == "head"][-1][1] if any(x[0] == "head" for x in ev) else None
            er = unwrap(v, "Ready", "Err")
            last = ev[-1] if ev else None
            if er is not None:
                k = c20.kind(er)
                if k == "new_too_large":
                    L = ("sym", T("len", ("init", "READ_BUF", sum(1 for x in ev if x[0] in ("head", "read")))))
                    ctx.check(h == "none" and last[0] == "head" and le(st, mx, L), G, "too-large-early:" + tag, "a head is refused as too large although the maximum is not reached; " + t)
                elif k == "new_incomplete": ctx.check(last[:2] == ("read", "eof"), G, "incomplete", "a head is reported incomplete without the input having ended; " + t)
                elif last and last[:2] == ("read", "err"): ctx.check(k == "new_io" and init("IO_ERR")[1] in terms_in(er), G, "io-kind", "a transport error while reading a head is reported as %s; " % k + t)
                elif last and last == ("head", "err"): ctx.check(init("PARSE_ERR")[1] in terms_in(e.snapshot(st, er)), G, "parse-kind", "a parse error is replaced; " + t)
                else: ctx.bad("err-why", "reading a head fails without cause (%s); " % k + t, G)
            elif is_adt(v, "Pending"): ctx.check(last[:2] == ("read", "pending"), G, "pending", "waits although the transport is not pending; " + t)
            else: ctx.check(unwrap(v, "Ready", "Ok") == init("MSG") and last == ("head", "complete"), G, "complete", t)
            if last == ("head", "complete"): ctx.check(unwrap(v, "Ready", "Ok") == init("MSG"), G, "lost", "a complete head is not returned; " + t)
    ctx.floor(G, 40)

    # ---- one read
    g = P.fn("Buffered::poll_read_from_io")
    RC, RL = init("RB_CAP"), init("RB_LEN")
    G = "one read stays below the maximum"
    C = P.adt("rt::io::ReadBufCursor")
    for tag, strat, mx, nx in strategies:
        def io(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            if not c.args: return None
            p = recv_path(e, st, c)
            if p and "read_buf" in (fields_on(p) or ()) or recv(e, st, c) == init("READ_BUF"):
                if m in ("len", "remaining"): return [(RL, None)]
                if m == "capacity": return [(RC, None)]
                if m == "is_empty": return [(e.compare(st, "Eq", RL, I0, "usize"), None)]
                if m in ("reserve", "try_reclaim", "resize"): return [(UNIT if m == "reserve" else TRUE, ("grow", m, c.args[1]))]
                if m == "chunk_mut": return [(mref("chunk"), ("chunk",))]
                if m == "advance_mut": return [(UNIT, ("advance", c.args[1]))]
                if m in ("deref", "deref_mut", "as_ref", "as_mut"): return [(c.args[0], None)]
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("buf", m))]
            if m == "poll_read": return [(ready(ok(UNIT)), ("io", "ok")), (ready(err(init("IO_ERR"))), ("io", "err")), (PENDING, ("io", "pending"))]
            if m in ("uninit", "unfilled", "filled", "as_uninit_slice_mut", "record"): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("record", e.snapshot(st, c.args[1])) if m == "record" else None)]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, io)] + num_handlers()))
        facts = dict(PRE); facts.update({RC[1]: U63, RL[1]: U63}); facts.update(lt_facts([(RL, RC)]))
        e.run(g, [mref("self"), mref("cx")], heap={cell("self"): mk(P, B["path"], read_buf=init("READ_BUF"), read_buf_strategy=strat), cell("chunk"): init("CHUNK")}, facts=facts)
        for st, v in e.finals:
            ev = st.aut or ()
            t = "%s (%s), %s read size: [%s] returns %s" % (g.n, where(g.span), tag, ", ".join(" ".join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:60])
            gr = [x for x in ev if x[0] == "grow"]
            for x in gr:
                st_room = le(st, add(RL, x[2]), mx) or le(st, x[2], I0)
                ctx.check(x[1] == "reserve" and st_room, G, "reserve:" + tag, "the buffer is grown by %s beyond the maximum %s it may hold; %s" % (show(x[2])[:60], show(mx), t))
            if any(x[0] == "chunk" for x in ev) and le(st, RC, RL) and le(st, add(RL, ("int", 1)), mx): ctx.check(bool(gr), G, "no-room:" + tag, "a read is made into a full buffer; " + t)
            for x in ev:
                if x[0] == "buf": ctx.bad("buf:" + x[1], "an operation on the read buffer is not understood; " + t, G)
            ctx.ok(G)
    ctx.floor(G, 20)

    # ---- the strategy
    ctx.rule("read sizes: the adaptive size starts at 8192 and stays between 8192 and the configured maximum whatever is read; the maximum never changes; a maximum below 8192 is refused; the exact size is its own maximum; the write buffer gets the same maximum")
    G = "read size stays within its limits"
    for nm, want in (("next", lambda tag, mx, nx: nx), ("max", lambda tag, mx, nx: mx)):
        q = P.fn("ReadStrategy::" + nm)
        for tag, strat, mx, nx in strategies:
            e = ctx.engine(); e.run(q, [mref("s")], heap={cell("s"): strat}, facts=dict(PRE))
            for st, v in e.finals: ctx.check(v == want(tag, mx, nx), G, "%s:%s" % (nm, tag), "%s (%s) answers %s" % (q.n, where(q.span), show(v)))
    q = P.fn("ReadStrategy::record")
    for tag, strat, mx, nx in strategies:
        e = ctx.engine(rule=Rec(num_handlers())); e.run(q, [mref("s"), N], heap={cell("s"): strat}, facts=dict(PRE))
        for st, v in e.finals:
            s = e.read(st, (cell("s"), ()))
            t = "%s (%s) leaves %s" % (q.n, where(q.span), show(s)[:120])
            if tag == "exact": ctx.check(s == strat, G, "record-exact", "the exact read size changes; " + t); continue
            ctx.check(is_adt(s, "Adaptive"), G, "record-form", t)
            n2, m2 = (fget(P, st, s, RS, k, variant=RS["vix"]["Adaptive"], eng=e) for k in ("next", "max"))
            ctx.check(m2 == MAX, G, "record-max", "the maximum changes; " + t)
            ctx.check(le(st, n2, MAX) or e.interval(st, n2) and n2[0] == "int" and n2[1] <= INIT, G, "record-hi", "the next read may exceed the maximum; " + t)
            ctx.check(le(st, ("int", INIT), n2), G, "record-lo", "the next read size may fall below %d; " % INIT + t)
    q = P.fn("Buffered::set_max_buf_size")
    e = ctx.engine(rule=Rec(num_handlers()))
    A = init("ANY_MAX")
    e.run(q, [mref("self"), A], heap={cell("self"): mk(P, B["path"], read_buf_strategy=init("OLD"), write_buf=mk(P, W["path"], max_buf_size=init("OLDW")))}, facts={A[1]: ("rng", 0, 2**63 - 1, frozenset())})
    for st, v in e.finals:
        s = e.read(st, (cell("self"), ()))
        x = fget(P, st, s, B, "read_buf_strategy", eng=e)
        t = "%s (%s) sets %s" % (q.n, where(q.span), show(x)[:100])
        okk = is_adt(x, "Adaptive")
        ctx.check(okk, G, "set-form", t)
        if okk:
            n2, m2 = (fget(P, st, x, RS, k, variant=RS["vix"]["Adaptive"], eng=e) for k in ("next", "max"))
            ctx.check(m2 == A, G, "set-max", "the maximum set is not the one given; " + t)
            ctx.check(le(st, ("int", INIT), n2) and le(st, n2, A), G, "set-next", "the first read is outside %d..maximum; %s" % (INIT, t))
        w = fget(P, st, fget(P, st, s, B, "write_buf", eng=e), W, "max_buf_size", eng=e)
        ctx.check(w == A, G, "set-write", "the write buffer gets the maximum %s; %s" % (show(w), t))
    q = P.fn("Buffered::set_read_buf_exact_size")
    e = ctx.engine()
    e.run(q, [mref("self"), A], heap={cell("self"): mk(P, B["path"], read_buf_strategy=init("OLD"))})
    for st, v in e.finals:
        x = fget(P, st, e.read(st, (cell("self"), ())), B, "read_buf_strategy", eng=e)
        ctx.check(is_adt(x, "Exact") and x[4][0] == A, G, "set-exact", "%s sets %s" % (q.n, show(x)))
    q = P.trait_method(RS["path"], "Default", "default")
    e = ctx.engine(); e.run(q, [])
    for st, v in e.finals:
        n2, m2 = (fget(P, st, v, RS, k, variant=RS["vix"]["Adaptive"], eng=e) for k in ("next", "max"))
        ctx.check(n2 == ("int", INIT) and m2 == ("int", 8192 + 4096 * 100), G, "default", "%s is %s, documented: start 8192, maximum ~400KB (417792)" % (q.n, show(v)))
    # who else touches the strategy
    for x in P.fns.values():
        if not x.local: continue
        for stmts, term, cl in x.blocks:
            for s in stmts:
                if s[0] == "assign" and "read_buf_strategy" in str(s[1]): ctx.check(x.n.split("::")[-1] in ("set_max_buf_size", "set_read_buf_exact_size"), "the limit is set in known places", "set:" + x.n, "%s (%s) replaces the read limit" % (x.n, where(x.span)))
    ctx.floor(G, 25)

    # ---- header count, target length
    ctx.rule("parsing: the number of header slots offered to the parser is the configured limit, or 100; the list of accepted lines is as long; a request target is accepted only up to 65534 bytes, and a longer one is the target-too-long error")
    G = "header slots"; TL = ("sym", T("len", init("TARGET")))
    E = P.adt("error::Parse")
    for role in ("Server", "Client"):
        for mh, want in ((NONE, ("int", 100)), (some(init("MAXH")), init("MAXH"))):
            if role == "Server": rs, R = parselib.run_parse(ctx, role, [], cap=1, h1_max_headers=mh)
            else:
                rs, R = c02.responses(ctx, P, NONE, 1, (), h1_max_headers=mh)
                rs = rs + [parselib.Run(R.eng, a, ok(NONE)) for a, b in R.stopped]
            for r in rs:
                t = "%s with limit %s: %s" % (role, show(want), r.text()[:200])
                ps = r.get("parse")
                for x in ps: ctx.check(slots(x[2]) == want, G, "slots:" + role, "the parser is offered %s header slots, configured are %s; %s" % (show(slots(x[2])) if slots(x[2]) else show(x[2])[:60], show(want), t))
                if not ps: ctx.check(not r.get("split"), G, "noparse", t)
                sv = r.get("svec")
                ctx.check(all(slots(("sym", T("svec", *x[1]))) == want for x in sv), G, "indices:" + role, "a list of header positions has another size than the configured limit; " + t)
                if role == "Server" and r.outcome() in ("v11", "v10"):
                    long = le(r.st, ("int", 65535), TL); short = le(r.st, TL, ("int", 65534))
                    if unwrap(r.v, "Ok", "Some") is not None: ctx.check(short, "target length", "uri-accept", "a request target of more than 65534 bytes is accepted; " + t)
                    er = unwrap(r.v, "Err")
                    if er is not None and is_adt(er, "UriTooLong"): ctx.check(long, "target length", "uri-refuse", "a request target of at most 65534 bytes is refused as too long; " + t)
                    if long: ctx.check(er is not None and is_adt(er, "UriTooLong"), "target length", "uri-kind", "a too long request target is not reported as such; " + t)
    ctx.floor(G, 40); ctx.floor("target length", 4)

    positions(ctx, ctx.prog())
    map_growth(ctx)
    # ---- reads of a connection outside heads
    ctx.rule("outside of head parsing a connection reads from its transport only when its read buffer is empty, so what is buffered ahead is at most one read")
    q = P.trait_method(B["path"], "MemRead", "read_mem")
    G = "reads only into an empty buffer"
    def mem(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if m == "poll_read_from_io": return [(PENDING, ("read", "pending")), (ready(err(init("IO_ERR"))), ("read", "err")), (ready(ok(init("NREAD"))), ("read", "data"))]
        if not c.args: return None
        p = recv_path(e, st, c)
        if p and "read_buf" in (fields_on(p) or ()):
            if m in ("is_empty", "has_remaining"):
                y, n = (TRUE, FALSE) if m == "is_empty" else (FALSE, TRUE)
                return [(y, ("empty", True)), (n, ("empty", False))]
            if m in ("len", "remaining"): return [(RL, None)]
            if m == "split_to": return [(init("TAKEN"), ("take", c.args[1]))]
            if m in ("deref", "as_ref"): return [(c.args[0], None)]
        if m == "freeze": return [(c.args[0], None)]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, mem)] + num_handlers()))
    e.run(q, [mref("self"), mref("cx"), init("WANT")], heap={cell("self"): mk(P, B["path"], read_buf=init("READ_BUF"))}, facts={RL[1]: U63, init("WANT")[1]: U63, N[1]: U63})
    for st, v in e.finals:
        ev = st.aut or ()
        t = "%s (%s): [%s] returns %s" % (q.n, where(q.span), ", ".join(" ".join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:60])
        rd = [x for x in ev if x[0] == "read"]
        if rd: ctx.check(len(rd) == 1 and (("empty", True) in ev or st.val_int(RL) == 0), G, "read_mem", "body bytes are read although some are still buffered; " + t)
        for x in ev:
            if x[0] == "take": ctx.check(le(st, x[1], init("WANT")), G, "take", "more is taken than was asked for; " + t)
        ctx.ok(G)
    L = connlib.Lib(ctx)
    seen = 0
    for fn in L.ent:
        if not fn.name.startswith(("poll_read", "poll_drain")): continue
        for role in ("server", "client"):
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA[:1]:
                        if not connlib.allowed(fn.name, role, r, w, k): continue
                        for tr in L.run(fn, role, r, w, k):
                            for j in [j for j, x in enumerate(tr.ev) if x[0] == "ioread"]:
                                em = [x for x in tr.ev[:j] if x[0] in ("rbempty", "ioread", "io")]
                                ctx.check(bool(em) and em[-1] == ("rbempty", TRUE), G, "conn:%s:%s" % (fn.name, role), "the connection reads on although bytes may still be buffered; " + tr.text())
    ctx.floor(G, 8)

def slots(v):
    """number of slots of a fresh vector value"""
    t = TERMS[v[1]] if v[0] == "sym" else None
    if t is None or t[0] != "svec": return None
    a = t[1:]
    if len(a) == 2: return a[1]                      # an element repeated n times
    t = TERMS[a[0][1]] if a and a[0][0] == "sym" else None
    if t and t[0] == "repeat": return t[2] if isinstance(t[2], tuple) else ("int", t[2])
    return None

def positions(ctx, P):
    """record_header_indices over lists of 0 to 3 lines"""
    import c43
    from hdrlib import IT, cref, strip
    ctx.rule("positions of header lines: for every line of a head, in order, the place and the length of its name and value in the buffer are recorded; a name of more than 65535 bytes is the too-large error (HeaderName takes no longer one, and the parser panics on what it does not take), no shorter one is refused for its length")
    G = "header positions"
    f = P.fn("proto::h1::role::record_header_indices")
    hd = next(a for p, a in P.adts.items() if p.endswith("httparse::Header") or p == "httparse::Header")
    LEN = lambda x: ("sym", T("plen", x)); PTR = lambda x: ("sym", T("ptr", x))
    for n in range(0, 4):
        NM = [init("NAME%d" % k) for k in range(n)]; VL = [init("VALUE%d" % k) for k in range(n)]; BY = init("BYTES")
        def h(e, st, c):
            m = c.mname or c.name.split("::")[-1]
            if not c.args: return None
            if m == "iter_mut" and strip(e, st, c.args[0]) == init("SLOTS"): return [(IT([mref("slot%d" % k) for k in range(n + 1)]), None)]
            if m == "write" and c.args[0][0] == "ref" and len(c.args) == 2: return [(c.args[0], ("at", c.args[0][1], e.snapshot(st, c.args[1])))]
            x = strip(e, st, c.args[0])
            while x[0] == "rf": x = x[1]
            if x in NM or x in VL or x == BY:
                if m == "len": st.facts.setdefault(LEN(x)[1], U63); return [(LEN(x), None)]
                if m in ("as_ptr", "as_bytes", "deref", "as_ref", "as_mut_ptr"): return [(PTR(x) if "ptr" in m else c.args[0], None)]
                if m == "is_empty": st.facts.setdefault(LEN(x)[1], U63); return [(e.compare(st, "Eq", LEN(x), I0, "usize"), None)]
            if x[0] == "sym" and TERMS[x[1]][0] == "ptr" and m in ("addr", "expose_provenance", "cast"): return [(x, None)]
            if m in ("get_mut", "index_mut") and x == init("SLOTS") and c.args[1][0] == "int": return [(mref("slot%d" % c.args[1][1]) if m[0] == "i" else some(mref("slot%d" % c.args[1][1])), None)]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)] + c43.slice_handlers() + num_handlers()))
        hs = ("arr", tuple(mk(P, hd, name=cref(a), value=cref(b)) for a, b in zip(NM, VL)))
        e.run(f, [cref(BY), cref(hs), mref("slots")], heap={cell("slots"): init("SLOTS")}, facts={LEN(x)[1]: U63 for x in NM + VL})
        ctx.check(bool(e.finals), G, "end", "%s never returns" % f.n)
        for st, v in e.finals:
            t = "%s (%s) for %d lines -> %s" % (f.n, where(f.span), n, show(v)[:60])
            lens = [(le(st, LEN(x), ("int", 65535)), le(st, ("int", 65536), LEN(x))) for x in NM]
            if is_adt(v, "Ok"):
                for k, (short, long) in enumerate(lens): ctx.check(short, G, "long", "line %d is accepted although its name may have more than 65535 bytes; %s" % (k, t))
                at = [x for x in st.aut or () if x[0] == "at"]
                ctx.check(len(at) == n, G, "count", "%d positions are recorded for %d lines; %s" % (len(at), n, t))
                for k, (x, a, b) in enumerate(zip(at, NM, VL)):
                    want = [y for z in (a, b) for y in (c25_lin(("sub", PTR(z), PTR(BY))), c25_lin(("end", PTR(z), PTR(BY), LEN(z))))]
                    fl = [y for p_ in x[2][4] for y in (p_[1] if p_[0] == "tup" else p_[4])] if x[2][0] == "adt" else []
                    ctx.check(x[1] == mref("slot%d" % k)[1] and len(fl) == 4 and [plin(y) for y in fl] == want, G, "place", "the place recorded for line %d is %s; %s" % (k, show(x[2])[:120], t))
            else:
                w = unwrap(v, "Err")
                ctx.check(w is not None and is_adt(w, "TooLarge") and any(l for s_, l in lens), G, "refused", "lines are refused although every name is short, or with another error; " + t)
    ctx.floor(G, 20)

def plin(v):
    d = {}
    for k, x in (linear(v) or {}).items():
        y = ("sym", k) if isinstance(k, int) and k != 1 else k
        while isinstance(y, tuple) and y[0] == "sym" and TERMS[y[1]][0] == "cast": y = TERMS[y[1]][1]
        d[y] = d.get(y, 0) + x
    return tuple(sorted((repr(k), x) for k, x in d.items() if x))
def c25_lin(w):
    v = sub(w[1], w[2])
    return plin(v if w[0] == "sub" else add(v, w[3]))

GROW = ("append", "insert", "reserve", "with_capacity", "extend", "or_insert", "or_insert_with", "insert_entry")

def map_growth(ctx):
    """A HeaderMap has a maximum size of its own; what the peer sends must meet the operations that report it."""
    P = ctx.prog(); G = "growth of header maps"
    ctx.rule("whatever the configured number of headers, a header map filled from the peer's bytes grows only by operations that report the map's own maximum; the panicking ones are not reachable from the parsers and body decoders")
    roots = [f for f in P.fns.values() if f.local and f.blocks and (f.n.endswith("Http1Transaction>::parse") or f.n.split("::")[-2:] == ["Decoder", "decode"])]
    if len(roots) < 3: raise mir.AnchorError("parse of both roles, Decoder::decode")
    seen, todo = {}, [(f, f.n) for f in roots]
    while todo:
        f, root = todo.pop()
        if id(f) in seen: continue
        seen[id(f)] = f
        for stmts, term, cl in f.blocks:
            if term[0] != "call" or not isinstance(term[1], dict): continue
            n = term[1].get("n", "")
            base, _, m = n.rpartition("::")
            if "http::HeaderMap" in base or "http::header::map" in base or "header::HeaderMap" in base:
                ctx.check(m not in GROW, G, "%s:%s" % (f.n, m), "%s (%s) lets the peer's fields grow a header map with %s, which panics when the map is full; reached from %s" % (f.n, where(f.span), n, root))
            for i in (term[1].get("id"), (term[1].get("res") or {}).get("id") if isinstance(term[1].get("res"), dict) else None):
                g = P.fns.get(i)
                if g is not None and g.local and g.blocks: todo.append((g, root))
        for g in P.fns.values():
            if g.local and g.blocks and g.key.startswith(f.key + "::{closure"): todo.append((g, root))
    ctx.check(len(seen) >= 10, G, "reach", "hardly any function is reachable from the parsers and decoders: %s" % sorted(f.n for f in seen.values()))
    ctx.floor(G, 3)
    G = "full header maps"
    ctx.rule("a head whose fields do not fit into a header map is the too-large error on every path; no field is left out silently")
    parselib.FULL = True
    def once(e, st, c):
        if "httparse" in c.short and c.mname.startswith("parse") and any(x[0] == "end" for x in st.aut or ()): return "stop"
        return None
    try:
        for role in ("Server", "Client"):
            for case in (TRUE, FALSE):
                runs, R = parselib.run_parse(ctx, role, ["host"], cap=1, limit=400, extra=[(lambda c, e, st: True, once)], preserve_header_case=case)
                ctx.check(bool(runs), G, "end:" + role, "the parser of the %s never returns" % role)
                for r in runs:
                    full = [x for x in (r.st.aut or ()) if x[0] == "mapfull"]
                    if not full: continue
                    x = unwrap(r.v, "Err")
                    ctx.check(x is not None and is_adt(x, "TooLarge"), G, "%s:%s" % (role, full[0][1]), "%s: fields that do not fit into the header map (%s) do not make the head too large but %s" % (role, full[0][1], show(r.v)[:80]))
    finally: parselib.FULL = False
    ctx.floor(G, 8)
