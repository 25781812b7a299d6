"""A malformed request gets the right error status and then a closed connection."""
from rt import *
import c02, c20, connlib, displib, parselib
from c25 import le
LEVEL = "other"
PAGE, ELEN = init("ERROR_PAGE"), init("BUFFERED_LEN")
NAMES = {400: "BAD_REQUEST", 414: "URI_TOO_LONG", 431: "REQUEST_HEADER_FIELDS_TOO_LARGE"}

def errval(P, K, kv):
    """(value of hyper's error with that kind, heap)"""
    E, I = P.adt("error::Error"), P.adt("error::ErrorImpl")
    return mk(P, E["path"], inner=mref("errimpl")), {cell("errimpl"): mk(P, I["path"], kind=kv, cause=NONE), cell("err"): mk(P, E["path"], inner=mref("errimpl"))}

def status_of(P, e, st, v):
    """number of a constant StatusCode"""
    S = P.adt("http::StatusCode")
    x = e.project(st, v, ("f", 0, S["variants"][0][2][0][0], None, None))
    for _ in range(3):
        n = st.val_int(x)
        if n is not None: return n
        if x[0] == "adt" and len(x[4]) == 1: x = x[4][0]
        else: x = e.project(st, x, ("f", 0, "0", None, None))
    return st.val_int(x)

def page_of(ctx, P, role, kv):
    """[(status or None, text)] the automatic response of a role to an error of that kind"""
    f = P.trait_method("proto::h1::role::" + role, "Http1Transaction", "on_error")
    v, h = errval(P, None, kv)
    def m(e, st, c):
        if c.mname in ("default",) and not c.args: return [(init("DEFAULT_%s" % c.site[1]), None)]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, m)]))
    e.run(f, [sref("err")], heap=h)
    out = []
    MH = P.adt("proto::MessageHead")
    for st, r in e.finals:
        if is_adt(r, "None"): out.append((None, r))
        elif is_adt(r, "Some"): out.append((status_of(P, e, st, fget(P, st, r[4][0], MH, "subject", eng=e)) or "?", r))
        else: out.append(("?", r))
    return out, f

def run(ctx):
    P = ctx.prog()
    K, PA, HD = P.adt("error::Kind"), P.adt("error::Parse"), P.adt("error::Header")
    var = lambda a, n, *x: ("adt", a["path"], a["vix"][n], n, tuple(x))
    # ---- kind of failure -> page
    ctx.rule("every kind of hyper error a server may be given is answered by at most one fixed status: 431 for too large or too many headers, 414 for a too long target, 400 for the other failures to parse a request, and nothing for all others; a client never answers")
    G = "error page by kind"
    table = {}
    want = {"TooLarge": 431, "UriTooLong": 414, "Method": 400, "Uri": 400, "Version": 400, "Header": 400}
    FREE = {"Status", "VersionH2", "Internal"}   # never the result of parsing a request (VersionH2: no page, checked below)
    for v in PA["variants"]:
        subs = [var(HD, x[0]) for x in HD["variants"]] if v[0] == "Header" else [None]
        for s in subs:
            pv = var(PA, v[0], *([s] if s else []))
            for role in ("Server", "Client"):
                got, f = page_of(ctx, P, role, var(K, "Parse", pv))
                for n, r in got:
                    w = want.get(v[0]) if role == "Server" else None
                    if role == "Server": table.setdefault(v[0], set()).add(n)
                    if role == "Server" and v[0] in FREE - {"VersionH2"}: continue
                    ctx.check(n == w, G, "page:%s:%s" % (role, v[0]), "%s (%s): a %s failure is answered with %s instead of %s" % (f.n, where(f.span), show(pv), n, w))
    for v in K["variants"]:
        if v[0] == "Parse": continue
        got, f = page_of(ctx, P, "Server", var(K, v[0], *[init("KIND_%d" % i) for i in range(len(v[2]))]))
        for n, r in got: ctx.check(n is None, G, "page:kind:" + v[0], "%s (%s): an error of kind %s is answered with a page (%s)" % (f.n, where(f.span), v[0], n))
    ctx.floor(G, 20)

    # ---- failure of the parser -> status
    ctx.rule("every way parsing a request can fail ends in the status for it: bad method, target, version, header or framing 400, too many headers 431, too long target 414; a response that cannot be parsed is a parse error of the same kinds")
    G = "parse failure to status"
    by = {"HeaderName": 400, "HeaderValue": 400, "NewLine": 400, "Token/method": 400, "Token/uri": 400, "TooManyHeaders": 431, "Version": 400}
    detail = {"Token/method": "Method", "Token/uri": "Uri", "Version": "Version", "HeaderName": "Header", "HeaderValue": "Header", "NewLine": "Header", "TooManyHeaders": "TooLarge", "Token": "Header", "Status": "Status"}
    TL = ("sym", T("len", init("TARGET")))
    rs, R = parselib.run_parse(ctx, "Server", ["transfer-encoding", "content-length"], cap=2)
    for r in rs:
        o = r.outcome(); er = unwrap(r.v, "Err"); t = "request " + r.text()[:240]
        if o in by:
            ctx.check(er is not None and is_adt(er, detail[o]), G, "server:" + o, "%s of the parser is reported as %s; %s" % (o, show(er) if er else "no error", t))
            ctx.check(er is not None and table.get(er[3]) == {by[o]}, G, "server-status:" + o, "a request refused by the parser (%s) gets %s instead of %d; %s" % (o, table.get(er[3]) if er else None, by[o], t))
        elif er is not None and o in ("v11", "v10"):
            bad = r.get("bad")
            inv = [n for _, n in r.lines() if n == "invalid"]
            w = {("bad", "method"): 400, ("bad", "uri"): 400, ("bad", "indices"): 431}.get(bad[-1][:2] if bad else None)
            if w is None and not bad and le(r.st, ("int", 65535), TL): w = 414
            if inv: continue                                  # cannot happen: the parser accepted the name
            if w is None and is_adt(er, "TooLarge") and "content-length" in [n for _, n in r.lines()]: w = 431     # a length that no body can have
            if w is None: w = 400; ctx.check(is_adt(er, "Header"), G, "server-framing", "a framing error is reported as %s; %s" % (show(er), t))
            ctx.check(er[0] == "adt" and table.get(er[3]) == {w}, G, "server-status2:%s:%s" % (bad[-1][1] if bad else "", w), "a request refused for %s gets %s instead of %d; %s" % (bad or "its framing or size", table.get(er[3]) if er[0] == "adt" else show(er), w, t))
    rs, R = c02.responses(ctx, P, NONE, 1, (), h09_responses=FALSE)
    for r in rs:
        o = r.get("parse")[-1][1] if r.get("parse") else None; er = unwrap(r.v, "Err")
        if o in detail: ctx.check(er is not None and is_adt(er, detail[o]), G, "client:" + o, "%s of the parser is reported as %s; response %s" % (o, show(er) if er else "no error", r.text()[:200]))
    ctx.floor(G, 20)
    # constructors used by the reading loop
    for name, kd in (("new_too_large", ("Parse", "TooLarge")), ("new_incomplete", ("IncompleteMessage", None)), ("new_version_h2", ("Parse", "VersionH2"))):
        f = P.fn("error::Error::" + name)
        e = ctx.engine(); e.run(f, [])
        for st, v in e.finals:
            kv = kind_in(P, e, st, v)
            ctx.check(kv is not None and kv[3] == kd[0] and (kd[1] is None or kv[4][0][3] == kd[1]), "named errors have their kind", "ctor:" + name, "%s (%s) makes an error of kind %s" % (f.n, where(f.span), show(kv) if kv else show(v)))
    for f in P.fns.values():
        if f.local and f.name == "from" and f.argc == 1 and P.ty(f.locals[1][0]) == ("adt", PA["path"], ()) and (P.ty(f.locals[0][0])[:2] == ("adt", P.adt("error::Error")["path"])):
            e = ctx.engine(); e.run(f, [init("PARSE_KIND")])
            for st, v in e.finals:
                kv = kind_in(P, e, st, v)
                ctx.check(kv is not None and kv[3] == "Parse" and kv[4][0] == init("PARSE_KIND"), "named errors have their kind", "from-parse", "%s (%s) turns a parse failure into %s" % (f.n, where(f.span), show(kv) if kv else show(v)))
    ctx.floor("named errors have their kind", 4)

    # ---- what the connection does with it
    ctx.rule("a head that could not be read closes reading for good; if the head was being parsed (or a response was awaited): nothing written yet and a complete HTTP/2 preface in the buffer gives the version error without a page, otherwise the page is written once with no body and the error kept, and with no page or a response already begun the error is returned; if nothing had arrived the connection ends silently")
    G = "failed head closes reading"; G2 = "page only before a response"
    L = connlib.Lib(ctx)
    fn = next(f for f in L.ent if f.name == "poll_read_head")
    RB = connlib.RBUF
    PREF = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
    def ext(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if m == "on_error" and (c.trait or "").endswith("Http1Transaction") or c.fn is not None and c.fn.local and m == "on_error":
            return [(some(PAGE), ("on_error", True, strip_(e, st, c.args[0]))), (NONE, ("on_error", False, strip_(e, st, c.args[0])))]
        if m == "write_head" and c.fn is not None and c.fn.local:
            err_now = None
            return [(UNIT, ("page", e.snapshot(st, c.args[1]), e.snapshot(st, c.args[2])))]
        if c.fn is not None and c.fn.local and c.fn.n.startswith("error::Error::is_") and c.args and recv(e, st, c) == connlib.PERR:
            pr = [x for x in (st.aut or ()) if x[0] == m]
            return [(pr[-1][1], None)] if pr else [(TRUE, (m, TRUE)), (FALSE, (m, FALSE))]
        if c.args:
            r = recv(e, st, c)
            if r == RB:
                if m == "len": st.facts.setdefault(ELEN[1], ("rng", 0, 2**62, frozenset())); return [(ELEN, None)]
                if m in ("index", "get", "get_unchecked"):
                    x = c.args[1]
                    ok_ = x[0] == "adt" and x[1].endswith("RangeTo") and st.val_int(x[4][0]) == 24 or x[0] == "adt" and x[1].endswith("Range") and st.val_int(x[4][0]) == 0 and st.val_int(x[4][1]) == 24
                    v = ("sym", T("first24", "buf")) if ok_ else ("sym", T("cutbuf", e.snapshot(st, x)))
                    ref = ("ref", (("C", v), ()), 0)
                    if m != "get": return [(ref, ("sliced", ok_ and le(st, ("int", 24), ELEN)))]
                    out = []
                    for b, s in bools(e, st, e.compare(st, "Le", ("int", 24), ELEN, "usize")): out += e.finish(s, c.dest, c.target, some(ref) if b else NONE)
                    return ("states", out)
            if m in ("eq", "ne", "starts_with") and len(c.args) == 2:
                a, b = [strip_(e, st, x) for x in c.args]
                f24 = ("sym", T("first24", "buf"))
                pre = lambda v: pbytes(v) == PREF
                hit = m != "starts_with" and (a == f24 and pre(b) or b == f24 and pre(a)) or m == "starts_with" and a == RB and pre(b)
                if hit:
                    y, n = (TRUE, FALSE) if m != "ne" else (FALSE, TRUE)
                    return [(y, ("preface", True)), (n, ("preface", False))]
                if f24 in (a, b) or a == RB: return [(TRUE, ("oddcmp", True)), (FALSE, ("oddcmp", False))]
        return None
    extra = [(lambda c, e, st: True, ext), c20.ERRS]
    for role in ("server", "client"):
        for w in connlib.WRITE:
            for k in connlib.KA:
                if not connlib.allowed("poll_read_head", role, "Init", w, k): continue
                for t in L.run(fn, role, "Init", w, k, over=dict(error=NONE), extra=extra):
                    if not t.has("parse", "err"): continue
                    tx = t.text() + " returns " + show(t.ret)[:100]; key = "%s:%s" % (role, w)
                    ctx.check(t.post[0] == "Closed" and t.post[2] == "Disabled", G, "closed:" + key, "after a head that could not be read the connection keeps reading; " + tx)
                    for x in t.get("sliced"): ctx.check(x[1], G2, "slice:" + key, "the buffer is cut at 24 bytes without having them; " + tx)
                    page = t.get("page"); er = t.sf("error")
                    exp_must = role == "client" and k != "Idle"
                    mid = t.has("is_parse", TRUE) or t.has("rbempty", FALSE)
                    x = unwrap(t.ret, "Ready", "Some", "Err")
                    if mid or exp_must:
                        if w == "Init" and t.has("preface", True):
                            ctx.check(not page and c20.kind(x) == "new_version_h2", G2, "preface:" + key, "an HTTP/2 preface is not reported as a version error without a page; " + tx)
                        elif w == "Init" and t.has("on_error", True):
                            short = t.has("preface", False) or le(t.st, add1(ELEN), ("int", 24)) or not t.has("rbempty", FALSE) and t.has("rbempty", TRUE)
                            ctx.check(bool(short), G2, "preface-unchecked:" + key, "a page is written without looking for an HTTP/2 preface; " + tx)
                            ctx.check(len(page) == 1 and page[0][1] == PAGE and is_adt(page[0][2], "None"), G2, "page:" + key, "the error page is not written exactly once and without body; " + tx)
                            ctx.check(unwrap(er, "Some") == connlib.PERR, G2, "kept:" + key, "the error behind the page is not kept for the connection future (%s); %s" % (show(er)[:60], tx))
                            ctx.check(is_adt(t.ret, "Pending"), G2, "page-ret:" + key, tx)
                            for y in t.get("on_error"): ctx.check(y[2] == connlib.PERR, G2, "page-of:" + key, "the page is chosen for another error; " + tx)
                        else:
                            ctx.check(not page and x == connlib.PERR, G2, "returned:" + key, "the error is not returned (page: %s); %s" % (bool(page), tx))
                            if w == "Init": ctx.check(t.has("on_error", False), G2, "no-page:" + key, "nothing was written yet but no page is considered; " + tx)
                    else:
                        ctx.check(not page and is_adt(unwrap(t.ret, "Ready") or t.ret, "None") and t.post[1] == "Closed" and t.has("rbempty", TRUE) and t.has("is_parse", FALSE), G2, "silent:" + key, "an end of input before any byte of a message does not simply end the connection; " + tx)
    ctx.floor(G, 20); ctx.floor(G2, 30)
    ctx.rule("the kept error is what the connection future ends with: it is taken exactly once, and only after everything was done")
    G = "kept error ends the connection"
    tk = next(f for f in L.ent if f.name == "take_error")
    for ev_ in (NONE, some(init("KEPT"))):
        for t in L.run(tk, "server", "Closed", "Closed", "Disabled", over=dict(error=ev_)):
            tx = t.text() + " returns " + show(t.ret)[:60]
            if ev_ == NONE: ctx.check(unwrap(t.ret, "Ok") is not None, G, "take-none", tx)
            else: ctx.check(unwrap(t.ret, "Err") == init("KEPT") and is_adt(t.sf("error"), "None"), G, "take-some", "a kept error is not handed out (once); " + tx)
    D = displib.Disp(ctx)
    for sh in (TRUE, FALSE):
        lp = lambda e, st, c: [(ready(ok(UNIT)), ("loop", "ok")), (PENDING, ("loop", "pending")), (ready(err(init("LOOP_ERR"))), ("loop", "err"))]
        for p in D.run("poll_inner", role="server", stub=[("poll_loop", lp)], extra_args=[sh]):
            te = p.get("op", "take_error")
            if unwrap(p.ret, "Ready", "Ok") is not None: ctx.check(len(te) == 1 and te[0][2] == "ok", G, "inner-ok", "the connection ends well without looking for a kept error; " + p.text())
            if any(x[2] == "err" for x in te): ctx.check(unwrap(p.ret, "Ready", "Err") == displib.SERR, G, "inner-err", "a kept error does not end the connection future; " + p.text())
            if is_adt(p.ret, "Pending"): ctx.check(not te, G, "inner-pending", "a kept error is taken while the connection goes on; " + p.text())
            if p.has("loop", "err"): ctx.check(unwrap(p.ret, "Ready", "Err") == init("LOOP_ERR"), G, "inner-loop", p.text())
    S = P.adt("proto::h1::dispatch::Server")["path"]
    f = P.trait_method(S, "Dispatch", "recv_msg")
    e = ctx.engine()
    e.run(f, [mref("self"), err(init("THE_ERR"))], heap={cell("self"): init("SERVER_SIDE")})
    for st, v in e.finals: ctx.check(unwrap(v, "Err") == init("THE_ERR"), G, "server-recv", "%s (%s) given an error returns %s" % (f.n, where(f.span), show(v)[:80]))
    ctx.floor(G, 6)
    for name in ("poll_read_head", "poll_read"):
        for p in D.run(name, role="server"):
            he = p.get("op", "poll_read_head")
            if any(x[2] == "err" for x in he):
                rc = p.get("disp", "recv_msg")
                ctx.check(len(rc) == 1 and unwrap(rc[0][3], "Err") == displib.HERR, "a failed head reaches the server side", "head-recv:" + name, "the error is not given to the server side exactly once; " + p.text())
                if any(x[2] == "err" for x in rc): ctx.check(unwrap(p.ret, "Ready", "Err") == init("RECV_ERR"), "a failed head reaches the server side", "head-ret:" + name, "the error handed back is dropped; " + p.text())
                if any(x[2] == "ok" for x in rc): ctx.check(p.closing() == 1 and not p.again, "a failed head reaches the server side", "head-close:" + name, "the connection goes on after a head that could not be read; " + p.text())
    ctx.floor("a failed head reaches the server side", 4)

def add1(v): return ("sym", T("bin", "Add", v, ("int", 1)))
def strip_(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    return v
def pbytes(v):
    if v[0] == "bytes": return bytes(v[1]) if not isinstance(v[1], str) else v[1].encode("latin1")
    if v[0] == "str": return v[1].encode("latin1")
    if v[0] == "arr" and all(x[0] == "int" for x in v[1]): return bytes(x[1] for x in v[1])
    return None
def kind_in(P, e, st, v):
    """the Kind inside an error value"""
    K = P.adt("error::Kind")["path"]
    def walk(x, d=0):
        if d > 8: return None
        if x[0] == "adt":
            if x[1] == K: return x
            for y in x[4]:
                r = walk(y, d + 1)
                if r: return r
        if x[0] == "ref": return walk(e.read(st, x[1]), d + 1)
        if x[0] == "rf": return walk(x[1], d + 1)
        if x[0] == "sym" and TERMS[x[1]][0] == "rf": return walk(TERMS[x[1]][1], d + 1)
        if x[0] in ("tup",):
            for y in x[1]:
                r = walk(y, d + 1)
                if r: return r
        if x[0] == "sym":
            for y in TERMS[x[1]][1:]:
                if isinstance(y, tuple):
                    r = walk(y, d + 1)
                    if r: return r
        return None
    return walk(v)
