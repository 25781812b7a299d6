"""Body size hints and end-of-stream flags never lie."""
from rt import *
import c20, c26, c30, displib
from c26 import *
LEVEL = "other"
U64 = 2**64
MAXLEN = U64 - 3

def run(ctx):
    P = ctx.prog("a")
    I, K, f = incoming(P)
    D = P.adt("body::length::DecodedLength")
    CL = init("CL")
    CLS = {"known": ("rng", 0, MAXLEN, frozenset()), "chunked": ("rng", U64 - 2, U64 - 2, frozenset()), "close": ("rng", U64 - 1, U64 - 1, frozenset())}
    def l0(v): return v[4][0] if v[0] == "adt" else v
    # ---- arithmetic of lengths
    ctx.rule("lengths: the constants for chunked and close-delimited lie above every accepted length; a checked length is kept as it is and refused above that; unknown input becomes chunked; a known length converts to Some of itself, an unknown one to None")
    def fnrun(g, args, heap=None, facts=None, n=1):
        e = ctx.engine(rule=Rec([c20.ERRS])); e.run(g, args, heap=heap or {}, facts=facts)
        return e
    into = P.fn("DecodedLength::into_opt"); chk = P.fn("DecodedLength::checked_new"); sub = P.fn("DecodedLength::sub_if")
    for nm, fact in CLS.items():
        e = fnrun(into, [dlen(P, CL)], facts={CL[1]: fact})
        for st, v in e.finals:
            good = unwrap(v, "Some") == CL if nm == "known" else is_adt(v, "None")
            ctx.check(bool(good), "into_opt is exact", "into:" + nm, "a %s length is converted to %s; %s (%s)" % (nm, show(v), into.n, where(into.span)))
        if not e.finals: ctx.bad("into:" + nm, "into_opt gives no answer")
    N = init("N")
    for nm, fact in (("ok", ("rng", 0, MAXLEN, frozenset())), ("big", ("rng", U64 - 2, U64 - 1, frozenset()))):
        e = fnrun(chk, [N], facts={N[1]: fact})
        for st, v in e.finals:
            good = unwrap(v, "Ok") is not None and l0(unwrap(v, "Ok")) == N if nm == "ok" else is_adt(v, "Err")
            ctx.check(bool(good), "checked lengths are kept or refused", "checked:" + nm, "a length that %s is turned into %s; %s (%s)" % ("can be represented" if nm == "ok" else "would collide with the unknown lengths", show(v), chk.n, where(chk.span)))
    ctx.floor("into_opt is exact", 3); ctx.floor("checked lengths are kept or refused", 2)
    fr = [g for g in P.fns.values() if g.local and g.name == "from" and g.selfty is not None and P.ty(g.selfty)[0] == "adt" and P.ty(g.selfty)[1] == D["path"]]
    for g in fr:
        for nm, arg, fact in (("none", NONE, None), ("some", some(N), ("rng", 0, MAXLEN, frozenset())), ("big", some(N), ("rng", U64 - 2, U64 - 1, frozenset()))):
            e = fnrun(g, [arg], facts={N[1]: fact} if fact else None)
            for st, v in e.finals:
                x = l0(v)
                good = x == N if nm == "some" else st.val_int(x) == U64 - 2
                ctx.check(bool(good), "optional lengths are exact", "from:" + nm, "an announced length (%s) becomes %s; %s" % (nm, show(v), g.n))
    ctx.floor("optional lengths are exact", 3)
    AMT = init("AMT")
    def after(st, e): return l0(e.read(st, (cell("len"), ())))
    for nm, fact in CLS.items():
        facts = {CL[1]: fact, AMT[1]: ("rng", 0, MAXLEN, frozenset())}
        e = fnrun(sub, [mref("len"), AMT], heap={cell("len"): dlen(P, CL)}, facts=facts)
        for st, v in e.finals:
            x = e.project(st, e.read(st, (cell("len"), ())), ("f", 0, D["variants"][0][2][0][0], None, None))
            lx = linear(x)
            d = lin_sub(lx, linear(CL)) if lx is not None else None
            want = {} if nm != "known" else {("sym", AMT[1]): -1}
            got = {k: y for k, y in (d or {}).items() if y} if d is not None else None
            same = st.val_int(x) is not None and fact[1] == fact[2] and st.val_int(x) == fact[1] if nm != "known" else False
            ctx.check(same or got == want, "a length shrinks by what was delivered", "sub:" + nm, "after %s bytes a %s length is %s; %s (%s)" % ("n", nm, show(x), sub.n, where(sub.span)))
    ctx.floor("a length shrinks by what was delivered", 3)
    # ---- frames
    ctx.rule("body: on every path that delivers a chunk the length goes down by exactly the chunk's length, once; on every other path it is unchanged; unknown lengths stay unknown")
    for nm, fact in CLS.items():
        for tag, paths in (("Chan", lambda: chan_paths(ctx, P, CL, {CL[1]: fact})), ("H2", lambda: h2_paths(ctx, P, FALSE, CL, {CL[1]: fact})), ("H2", lambda: h2_paths(ctx, P, TRUE, CL, {CL[1]: fact}))):
            g, e, fin = paths()
            for st, v in fin:
                ev = st.aut or ()
                got = any(x[:2] == ("data", "ok") for x in ev)
                chunk = CHUNK if tag == "Chan" else c30.DATA
                x = kfield(P, e, st, "content_length", tag)
                x = e.project(st, x, ("f", 0, D["variants"][0][2][0][0], None, None)) if x[0] != "adt" else x[4][0]
                t = "(%s length) length afterwards %s; %s" % (nm, show(x)[:60], text(g, st, v))
                lx = linear(x); d = lin_sub(lx, linear(CL)) if lx is not None else None
                d = {k: y for k, y in (d or {}).items() if y} if d is not None else None
                same = d == {} or fact[1] == fact[2] and st.val_int(x) == fact[1]
                if nm == "known" and got:
                    ln = ("sym", T("len", ("rf", chunk)))
                    ctx.check(d == {("sym", ln[1]): -1}, "counted exactly", "count:%s" % tag, "a delivered chunk is not counted exactly; " + t)
                elif nm != "known": ctx.check(same, "unknown stays unknown", "unknown:%s:%s" % (tag, nm), "an unknown length changes; " + t)
                else: ctx.check(same, "nothing delivered, nothing counted", "nocount:%s" % tag, "the length changes although no chunk was delivered; " + t)
    ctx.floor("counted exactly", 2); ctx.floor("unknown stays unknown", 20); ctx.floor("nothing delivered, nothing counted", 10)
    # ---- hints
    ctx.rule("hints: exact(n) for a known length n and for no body exact(0); the open hint for unknown lengths; end-of-stream only for no body, a length of zero, or where the HTTP/2 stream says so")
    sh = P.trait_method(I["path"], "Body", "size_hint"); es = P.trait_method(I["path"], "Body", "is_end_stream")
    def hints(e, st, c):
        m = c.mname
        if "SizeHint" in c.short:
            if m == "with_exact": return [(init("HINT"), ("hint", "exact", c.args[0]))]
            if m in ("default", "new"): return [(init("HINT"), ("hint", "open"))]
            if m.startswith("set_"): return [(UNIT, ("hint", m, c.args[1]))]
        if c.args and recv(e, st, c) == c30.RX and m == "is_end_stream": return [(TRUE, ("rx_eos", TRUE)), (FALSE, ("rx_eos", FALSE))]
        return None
    H = [(lambda c, e, st: True, hints)]
    states = [("Empty", kind(P, "Empty"), None)]
    for nm, fact in [x for x in CLS.items() if x[0] != "known"] + [("zero", ("rng", 0, 0, frozenset())), ("more", ("rng", 1, MAXLEN, frozenset()))]:
        states += [("Chan:" + nm, kind(P, "Chan", content_length=dlen(P, CL), want_tx=WTX, data_rx=DRX, trailers_rx=TRX), fact),
                   ("H2:" + nm, kind(P, "H2", content_length=dlen(P, CL), recv=c30.RX), fact)]
    for tag, kv, fact in states:
        nm = tag.split(":")[-1]
        e = ctx.engine(rule=Rec(H)); e.run(sh, [mref("self")], heap={cell("self"): mk(P, I["path"], kind=kv)}, facts={CL[1]: fact} if fact else None)
        if not e.finals: ctx.bad("hint:" + tag, "size_hint gives no answer")
        for st, v in e.finals:
            h = [x for x in st.aut or () if x[0] == "hint"]
            t = "the size hint of a body (%s) is %s; %s (%s)" % (tag, ", ".join(show(y) if isinstance(y, tuple) else y for x in h for y in x[1:]), sh.n, where(sh.span))
            if nm in ("chunked", "close"): good = h == [("hint", "open")]
            elif tag == "Empty": good = len(h) == 1 and h[0][1] == "exact" and st.val_int(h[0][2]) == 0
            else: good = len(h) == 1 and h[0][1] == "exact" and (h[0][2] == CL or st.val_int(h[0][2]) is not None and st.val_int(h[0][2]) == st.val_int(CL))
            ctx.check(bool(good), "the hint is the length", "hint:" + tag, t)
        e = ctx.engine(rule=Rec(H)); e.run(es, [mref("self")], heap={cell("self"): mk(P, I["path"], kind=kv)}, facts={CL[1]: fact} if fact else None)
        if not e.finals: ctx.bad("eos:" + tag, "is_end_stream gives no answer")
        for st, v in e.finals:
            b = st.val_int(v)
            t = "a body (%s) reports end-of-stream %s; %s (%s)" % (tag, show(v), es.n, where(es.span))
            eos = [x[1] for x in st.aut or () if x[0] == "rx_eos"]
            if tag == "Empty": good = b == 1
            elif tag.startswith("H2"): good = b == 0 or eos == [TRUE]
            elif nm in ("zero",): good = b in (0, 1)
            else: good = b == 0
            if b == 1 and tag.startswith("H2"): good = eos == [TRUE]
            ctx.check(bool(good), "end-of-stream only at the end", "eos:" + tag, t)
    ctx.floor("the hint is the length", 9); ctx.floor("end-of-stream only at the end", 9)
    # ---- constructors
    ctx.rule("construction: a body carries the length it was created with, except that an HTTP/2 stream that already ended has length zero; the dispatcher makes an empty body exactly for the length zero and otherwise one with the parsed length")
    g = P.fn("Incoming::h2")
    for eos in (TRUE, FALSE):
        for nm, fact in CLS.items():
            def rx(e, st, c):
                if c.args and recv(e, st, c) == c30.RX and c.mname == "is_end_stream": return [(eos, ("rx_eos", eos))]
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, rx)]))
            e.run(g, [{"recv": c30.RX}.get(x, x) if isinstance(x, str) else x for x in args_of(P, g, {"h2::RecvStream": c30.RX, D["path"]: dlen(P, CL)})], facts={CL[1]: fact})
            for st, v in e.finals:
                k = fget(P, st, v, I, "kind", eng=e)
                names = [x[0] for x in K["variants"][K["vix"]["H2"]][2]]
                if not is_adt(k, "H2"): ctx.bad("h2new", "an HTTP/2 body is created as " + show(k)); continue
                x = l0(k[4][names.index("content_length")]); dn = k[4][names.index("data_done")]
                x = e.project(st, x, ("f", 0, D["variants"][0][2][0][0], None, None)) if x[0] == "adt" else x
                want0 = eos == TRUE
                ctx.check((st.val_int(x) == 0) if want0 else (x == CL or st.val_int(x) is not None and st.val_int(x) == st.val_int(CL)), "bodies carry their length", "h2new:%s" % ("ended" if want0 else "open"), "an HTTP/2 body whose stream has %s, with a %s length, is created with length %s; %s (%s)" % ("ended" if want0 else "not ended", nm, show(x), g.n, where(g.span)))
                ctx.check(dn == FALSE, "bodies carry their length", "h2new:done", "an HTTP/2 body is created as if its data had been read; %s" % g.n)
    g = P.fn("Incoming::new_channel")
    e = ctx.engine(rule=Rec([])); e.run(g, [dlen(P, CL), init("WANTER")], facts={CL[1]: CLS["known"]})
    for st, v in e.finals:
        b = v[1][1] if v[0] == "tup" else v
        k = fget(P, st, b, I, "kind", eng=e)
        x = l0(k[4][[x[0] for x in K["variants"][K["vix"]["Chan"]][2]].index("content_length")]) if is_adt(k, "Chan") else None
        ctx.check(x == CL, "bodies carry their length", "channew", "a channel body is created with length %s; %s (%s)" % (show(x) if x else show(k), g.n, where(g.span)))
    ctx.floor("bodies carry their length", 8)
    DS = displib.Disp(ctx)
    rl = init("BODY_LEN")
    for role in ("server", "client"):
        for p in DS.run("poll_read_head", role=role, body_tx=False):
            nb = p.get("newbody")
            if not p.has("op", "poll_read_head", "ok"): ctx.check(not nb, "a body per head", "dnone", p.text()); continue
            ctx.check(len(nb) == 1, "a body per head", "dbody", p.text())
            if not nb: continue
            x = p.e.project(p.st, rl, ("f", 0, D["variants"][0][2][0][0], None, None))
            z = p.st.val_int(x) == 0
            if nb[0][1] == "empty": ctx.check(z, "an empty body exactly for length zero", "dempty", "a body that is not known to be empty is given as empty; " + p.text())
            else: ctx.check(len(nb[0]) > 2 and (nb[0][2] == rl or nb[0][2][0] == "adt" and nb[0][2][4][0] == x) and not z, "an empty body exactly for length zero", "dchan", "the body is created with another length than the parsed one; " + p.text())
    ctx.floor("an empty body exactly for length zero", 4)

def args_of(P, g, m):
    out = []
    for i in range(g.argc):
        t = P.ty(g.locals[i + 1][0])
        out.append(m.get(t[1], init("arg%d" % i)) if t[0] == "adt" else init("arg%d" % i))
    return out
