"""The Date of responses: one if the application set none and the option is on, the application's own otherwise; kept current; spelled names."""
from rt import *
import outlib, hdrlib, enclib, h2streamlib, c13, displib
from enclib import CL, TE
LEVEL = "other"
NOW, NEXT, SEC = init("NOW"), init("NEXT_UPDATE"), 10**9

def cache_adt(P): return next(a for p, a in P.adts.items() if p.endswith("CachedDate"))
def whole(P, v):
    """is this value all bytes of the cached date"""
    while v[0] == "sym":
        t = TERMS[v[1]]
        if t[0] == "call" and t[1].split("::")[-1] in ("index", "deref", "as_ref", "as_slice", "borrow"):
            if len(t) > 3 and not (t[3][0] == "adt" and t[3][1].endswith("RangeFull") or t[3][0] == "adt" and t[3][1].endswith("RangeFrom") and t[3][4][0] == ("int", 0)): return False
            v = t[2]
        elif t[0] == "deref": v = t[1]
        elif t[0] == "fld":
            return t[1][0] == "sym" and t[1] in (init("DATECACHE"), init("self")) and "bytes" in repr(t[2:])
        else: return False
        while v[0] == "rf": v = v[1]
    return False

def heads(ctx, P):
    ctx.rule("HTTP/1: a response head has exactly one Date line, the whole cached date, if the application set none and the option is on; exactly the application's own Date lines if it set some; none if it set none and the option is off - in either way of writing names")
    G = "Date of HTTP/1 responses"
    for case, title in ((False, False), (True, False), (False, True)):
        for date in (TRUE, FALSE):
            for m, ver, body, cls, n in (("Get", "Http11", "none", ["date", "other"], 3), ("Get", "Http11", "unknown", ["date", "connection"], 2), ("Head", "Http11", "known", ["date", CL], 2), (None, "Http10", "unknown", ["date", TE], 2), ("Connect", "Http11", "zero", ["date", "trailer"], 1), ("Get", "H2", "known", ["date"], 2)):
                if (case or title) and n > 2: n = 2
                for r in enclib.encode(ctx, P, m, ver, body, cls, maxl=n, case=case, title=title, date=date, ka=FALSE, cap=1 if not case else 2):
                    if unwrap(r.v, "Ok") is None: continue
                    p = r.parsed(); tx = "date_header=%s, %s" % (date == TRUE, r.desc())
                    if isinstance(p, str): ctx.bad("shape", p + ": " + tx, G); continue
                    d = [v for nme, v, _ in p[1] if nme == "date"]
                    own = [[("val", v)] for v in r.of("date")]
                    if own: ctx.check([outlib.flat(x) for x in d] == own, G, "own", "a response with %d own Date lines is sent with %d (%s): %s" % (len(own), len(d), [[g[0] for g in x] for x in d], tx))
                    elif date == FALSE: ctx.check(not d, G, "off", "a Date is sent although the option is off: " + tx)
                    else:
                        ctx.check(len(d) == 1, G, "one", "a response without Date line is sent with %d: %s" % (len(d), tx))
                        for x in d: ctx.check(len(x) == 1 and x[0][0] == "?" and whole(P, x[0][1]), G, "value", "the generated Date is not the cached date as a whole: %s: %s" % ([show(g[1]) if isinstance(g[1], tuple) else g for g in x], tx))
    ctx.floor(G, 300)

def http2(ctx, P):
    ctx.rule("HTTP/2: a response is sent with a Date from the cache if the application set none and the option is on; an existing Date, or any with the option off, is not touched")
    G = "Date of HTTP/2 responses"
    ids = [f.id for f in updaters(P)]
    def lk(e, st, c):
        if c.mname in ("with", "try_with") and "LocalKey" in c.short and any(i in repr(c.args[1]) for i in ids): return [(h2streamlib.DATEV, ("date",))]
        return None
    for connect in (False, True):
        for date in (TRUE, FALSE):
            for p in h2streamlib.run_server(ctx, connect=connect, date=date, extra=[(lambda c, e, st: True, lk)]):
                if not p.has("send_response"): continue
                i = next(i for i, x in enumerate(p.ev) if x[0] == "send_response")
                ev = p.ev[:i]
                sets = [x for x in ev if x[0] == "hset" and x[3] == "date"]; rm = [x for x in ev if x[0] == "hrm" and x[2] == "date" or x[0] == "hclear"]
                had = [x[3] for x in ev if x[0] == "has" and x[2] == "date"]
                tx = "date_header=%s: %s" % (date == TRUE, p.text())
                ctx.check(not rm, G, "removed", "a Date is removed from a response: " + tx)
                if date == FALSE: ctx.check(not sets, G, "off", "a Date is set although the option is off: " + tx)
                elif had and had[0] is True: ctx.check(not sets, G, "own", "the application's Date is changed: " + tx)
                else: ctx.check(had == [False] and len(sets) == 1 and sets[0][4] == h2streamlib.DATEV, G, "missing", "a response without Date is sent without the cached one: " + tx)
    ctx.floor(G, 10)

def times():
    """points in time and durations as nanoseconds"""
    def h(e, st, c):
        m, s = c.mname, c.short
        g = lambda i: e.read(st, c.args[i][1]) if c.args[i][0] == "ref" else c.args[i]
        if s.endswith("SystemTime::now"): return [(NOW, ("now",))]
        if "Duration" in s and c.args and m in ("new", "from_secs", "from_nanos", "from_millis", "from_micros"):
            x = c.args[0]
            if m == "new":
                if x[0] == "int" and c.args[1][0] == "int": return [(("int", x[1] * SEC + c.args[1][1]), None)]
                return None
            k = {"from_secs": SEC, "from_nanos": 1, "from_millis": 10**6, "from_micros": 10**3}[m]
            if k == 1: return [(x, None)]
            return [(("int", x[1] * k), None)] if x[0] == "int" else None
        if m == "duration_since":
            def ok_(s2):
                v = ("sym", T("elapsed", e.snapshot(s2, g(0)), e.snapshot(s2, g(1)))); s2.facts.setdefault(v[1], ("rng", 0, 2**90, frozenset())); return ok(v)
            return [(ok_, None), (err(init("BEFORE")), None)]
        if m == "unwrap_or_default" and "Result" in s:
            v = c.args[0]
            if is_adt(v, "Ok"): return [(v[4][0], None)]
            if is_adt(v, "Err"): return [(("int", 0), None)]
        if m == "subsec_nanos":
            v = g(0)
            if v[0] == "int": return [(("int", v[1] % SEC), None)]
            n = ("sym", T("subsec", e.snapshot(st, v))); st.facts.setdefault(n[1], ("rng", 0, SEC - 1, frozenset()))
            return [(n, None)]
        if m in ("add", "sub", "checked_add", "checked_sub") and len(c.args) == 2 and any(x in s for x in ("SystemTime", "Duration", "Instant")):
            v = e.arith(st, "Add" if m.endswith("add") else "Sub", g(0), g(1))
            return [(v if not m.startswith("c") else some(v), None)]
        if m in ("gt", "ge", "lt", "le") and any(x in s for x in ("PartialOrd", "SystemTime", "Instant", "Duration")) and len(c.args) == 2:
            return [(e.compare(st, {"gt": "Gt", "ge": "Ge", "lt": "Lt", "le": "Le"}[m], deref(e, st, c.args[0]), deref(e, st, c.args[1])), None)]
        if m == "from" and len(c.args) == 1 and ("num" in s or "u64" in s): return [(c.args[0], None)]
        return None
    return (lambda c, e, st: True, h)
def deref(e, st, v):
    n = 0
    while v[0] == "ref" and n < 5: v = e.read(st, v[1]); n += 1
    return v

def cache(ctx, P):
    ctx.rule("the cached date is formatted anew from the current time, from the start of the buffer, and good for at most one second, whenever that second has passed; the text is copied in place in full; the HTTP/2 value is made of the same bytes")
    G = "date cache"
    A = cache_adt(P)
    names = [f[0] for f in A["variants"][0][2]]
    self_t = lambda f: P.ty(f.locals[1][0])
    mine = [f for f in P.fns.values() if f.local and f.argc and f.blocks and self_t(f)[0] == "ref" and self_t(f)[2][0] == "adt" and self_t(f)[2][1] == A["path"]]
    pub = updaters(P)
    if not pub: raise mir.AnchorError("date::update*")
    def h(e, st, c):
        m = c.mname
        if m in ("with", "try_with") and "LocalKey" in c.short:
            return ("states", hdrlib.clo(e, st, c, c.args[1], [sref("DATECACHE")], lambda e, s2, v: e.finish(s2, c.dest, c.target, v)))
        if m in ("borrow_mut", "borrow", "get_mut", "deref_mut", "deref") and c.args and (recv(e, st, c) == init("DATECACHE") or recv_path(e, st, c) and recv_path(e, st, c)[0] == cell("CD")): return [(("ref", (cell("CD"), ()), 1), None)]
        if m in ("new_display", "new_debug", "new") and "Argument" in c.short: return [(("sym", T("arg", m, e.snapshot(st, deref(e, st, c.args[0])))), None)] if len(c.args) == 1 else [(("sym", T("args", *[e.snapshot(st, a) for a in c.args])), None)]
        if m == "write_fmt":
            return [(ok(UNIT), ("render", e.snapshot(st, deref(e, st, c.args[1])), fget(P, st, e.read(st, (cell("CD"), ())), A, "pos", eng=e)))]
        if "HeaderValue" in c.short and m in ("from_bytes", "from_maybe_shared", "from_str", "try_from"):
            v = e.snapshot(st, c.args[0])
            return [(ok(("sym", T("datevalue", v))), ("hval", v)), (err(init("BADVAL")), "die")]
        return None
    for f in pub:
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h), times()], limit=200))
        e.run(f, [], heap={cell("DATECACHE"): init("DATECACHE"), cell("CD"): mk(P, A, next_update=NEXT, pos=init("POS"), bytes=init("BYTES"), header_value=init("HV")) if "header_value" in names else mk(P, A, next_update=NEXT, pos=init("POS"), bytes=init("BYTES"))},
              facts={NOW[1]: ("rng", 0, 2**80, frozenset()), NEXT[1]: ("rng", 0, 2**80, frozenset())})
        ctx.check(bool(e.finals), G, "end:" + f.n.split("::")[-1], "%s never returns" % f.n)
        for st, v in e.finals:
            ev = st.aut or (); ren = [x for x in ev if x[0] == "render"]
            cd = e.read(st, (cell("CD"), ()))
            nx = fget(P, st, cd, A, "next_update", eng=e)
            tx = "%s: %s, next update %s" % (f.n, [x[0] for x in ev], show(nx))
            if not ren:
                ctx.check(entails_le(st, NOW, NEXT), G, "stale", "the date is not formatted anew although its time is over: " + tx)
                ctx.check(nx == NEXT, G, "postponed", "the next update is put off without formatting: " + tx)
            else:
                ctx.check(len(ren) == 1 and NOW[1] in terms_in(ren[0][1]) and any(TERMS[t][0] == "call" and "HttpDate" in TERMS[t][1] for t in terms_in(ren[0][1])), G, "format", "what is formatted is not the current time as an HTTP date: %s: %s" % (show(ren[0][1])[:200], tx))
                ctx.check(st.val_int(ren[0][2]) == 0, G, "start", "the date is not written from the start of the buffer: " + tx)
                ctx.check(entails_le(st, nx, e.arith(st, "Add", NOW, ("int", SEC))), G, "period", "the date may stay longer than a second: " + tx)
                if "header_value" in names:
                    hv = fget(P, st, cd, A, "header_value", eng=e)
                    ctx.check(hv[0] == "sym" and TERMS[hv[1]][0] == "datevalue" and any(x[0] == "hval" for x in ev[ev.index(ren[0]):]), G, "http2", "the HTTP/2 value is not made anew: %s: %s" % (show(hv)[:80], tx))
            if "header" in f.n.split("::")[-1]:
                hv = fget(P, st, cd, A, "header_value", eng=e)
                while v[0] == "ref": v = e.read(st, v[1])
                ctx.check(v == hv or v[0] == "sym" and TERMS[v[1]][0] == "call" and TERMS[v[1]][1].endswith("clone") and hv in [TERMS[v[1]][2], TERMS[v[1]][2][1] if TERMS[v[1]][2][0] == "rf" else None], G, "returned", "the value returned is not the current one: %s: %s" % (show(v)[:80], tx))
    # the text lands in the buffer in order and in full
    f = P.trait_method(A["path"], "Write", "write_str")
    S, PO = init("S"), init("POS")
    def w(e, st, c):
        if c.mname in ("index_mut",) and len(c.args) == 2: return [(("ref", (cell("WIN"), ()), 1), ("win", e.snapshot(st, c.args[0]), e.snapshot(st, c.args[1])))]
        if c.mname in ("as_bytes", "as_ref"): return [(c.args[0], None)]
        if c.mname == "copy_from_slice": return [(UNIT, ("copy", e.snapshot(st, deref(e, st, c.args[1]))))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, w)], limit=100))
    e.run(f, [mref("self"), sref("S")], heap={cell("self"): mk(P, A, pos=PO, bytes=init("BYTES")), cell("S"): S, cell("WIN"): init("WINDOW")}, facts={PO[1]: ("rng", 0, 29, frozenset())})
    for st, v in e.finals:
        ev = st.aut or (); win = [x for x in ev if x[0] == "win"]; cp = [x for x in ev if x[0] == "copy"]
        pos = fget(P, st, e.read(st, (cell("self"), ())), A, "pos", eng=e)
        ln = [t for t in terms_in(pos) if TERMS[t][0] == "len"]
        L_ = ("sym", ln[0]) if ln else None
        good = len(win) == 1 and len(cp) == 1 and cp[0][1] == S and L_ is not None and win[0][2][0] == "adt" and win[0][2][4][0] == PO and eqlin(win[0][2][4][1], ((1, PO), (1, L_))) and eqlin(pos, ((1, PO), (1, L_))) and S[1] in terms_in(L_)
        ctx.check(good and is_adt(v, "Ok"), G, "write", "formatted text is not put behind what is in the buffer: %s, pos %s" % ([(x[0], show(x[-1])[:60]) for x in ev], show(pos)[:60]))
    ctx.floor(G, 8)

def eqlin(v, parts):
    l = linear(v)
    if l is None: return False
    d = dict(l)
    for k, p in parts:
        for x, y in linear(p).items(): d[x] = d.get(x, 0) - k * y
    return all(not y for y in d.values())
def updaters(P):
    return [f for f in P.fns.values() if f.local and f.blocks and f.argc == 0 and f.n.split("::")[-2:-1] == ["date"] and f.n.split("::")[-1].startswith("update")]

def refresh(ctx, P):
    ctx.rule("the server's dispatcher refreshes the date each time it is polled, before anything else")
    G = "date refreshed"
    D = displib.Disp(ctx)
    f = P.trait_method("proto::h1::role::Server", "Http1Transaction", "update_date")
    ctx.check(any(u.id in repr(f.blocks) for u in updaters(P)), G, "server", "Server::update_date does not refresh the cached date")
    role = ("adt", D.roles["server"], ())
    calls = {}
    def sub(c): return None
    for name in ("poll_catch", "poll_without_shutdown"):
        g = D.fn(name)
        def h(e, st, c):
            if c.mname == "update_date": return [(UNIT, ("update",))]
            if c.fn is not None and c.fn.local and c.mname not in ("poll_catch", "poll_inner", "poll_without_shutdown") and c.args:
                return "stop" if c.mname.startswith("poll_") and not any(x[0] == "work" for x in st.aut or ()) and not st_work(st, c.mname) else None
            return None
        def st_work(st, n): st.aut = (st.aut or ()) + (("work", n),); return False
        R = Rec([(lambda c, e, st: True, h)], limit=200)
        e = ctx.engine(rule=R)
        e.run(g, [mref("self"), mref("cx")] + [init("arg%d" % i) for i in range(2, g.argc)])
        ends = [st for st, *_ in R.stopped]
        ctx.check(bool(ends), G, "work:" + name, "%s does no work" % name)
        for st in ends + [st for st, _ in e.finals]:
            ev = [x[0] for x in st.aut or ()]
            if "work" in ev: ctx.check("update" in ev[:ev.index("work")], G, "before:" + name, "%s works before the date is refreshed: %s" % (name, st.aut))
    ctx.floor(G, 3)

def spelling(ctx, P):
    ctx.rule("title case changes nothing but the case of letters: the name written has the same bytes up to upper-casing, the first letter and every letter behind a dash in upper case")
    G = "title case"
    f = next(f for f in P.fns.values() if f.local and f.n.split("::")[-1] == "title_case")
    KINDS = (("in", frozenset([45])), ("in", frozenset(range(97, 123))), ("in", frozenset(range(33, 127)) - {45} - set(range(97, 123))))
    import itertools
    for L_ in range(0, 6 if ctx.tier == "thorough" else 5):
        for kinds in itertools.product(KINDS, repeat=L_):
            arr = [init("B%d" % i) for i in range(L_)]
            def up(e, st, c):
                p, v, n = None, c.args[0], 0
                while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
                if c.mname not in ("make_ascii_uppercase", "to_ascii_uppercase"): return None
                if v[0] == "sym" and c13.byte_set(st, v) & set(range(97, 123)):
                    s = c13.byte_set(st, v); v = ("sym", T("upper", v))
                    st.facts[v[1]] = ("in", frozenset(x - 32 if 97 <= x <= 122 else x for x in s))
                if c.mname == "to_ascii_uppercase": return [(v, None)]
                e.write(st, p, v); return [(UNIT, None)]
                return None
            R = Rec([(lambda c, e, st: c.mname in ("make_ascii_uppercase", "to_ascii_uppercase"), up)] + c13.slice_handlers() + c13.arr_handlers() + hdrlib.iter_handlers() + [(lambda c, e, st: c.mname == "reserve", lambda e, st, c: [(UNIT, None)])], limit=300)
            e = ctx.engine(rule=R); e.widen_from = 30
            e.run(f, [mref("dst"), hdrlib.cref(("arr", tuple(arr)))], heap={cell("dst"): ("arr", ())}, facts={x[1]: k for x, k in zip(arr, kinds)})
            tx = "name of bytes [%s]" % " ".join("-" if 45 in k[1] else "a" if 97 in k[1] else "." for k in kinds)
            ctx.check(bool(e.finals), G, "end", "title_case never returns: " + tx)
            for st, v in e.finals:
                out = e.read(st, (cell("dst"), ()))
                if out[0] != "arr": ctx.bad("undecided", "what title_case writes is not decided: %s: %s" % (show(out)[:60], tx), G); continue
                base = lambda x: TERMS[x[1]][1] if x[0] == "sym" and TERMS[x[1]][0] == "upper" else x
                ctx.check([base(x) for x in out[1]] == arr, G, "bytes", "title case changes the name: %s" % tx)
                if len(out[1]) == L_:
                    for i, x in enumerate(out[1]):
                        first = i == 0 or kinds[i - 1] == KINDS[0]
                        if kinds[i] == KINDS[1]: ctx.check((x != base(x)) == first, G, "case", "a letter %s is%s in upper case: %s" % ("at a word's start" if first else "inside a word", "" if x != base(x) else " not", tx))
    ctx.floor(G, 100)

def run(ctx):
    P = ctx.prog()
    heads(ctx, P); http2(ctx, P); cache(ctx, P); refresh(ctx, P); spelling(ctx, P)
