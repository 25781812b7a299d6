"""Outgoing trailers: only announced, allowed names, only at the end of a chunked body, only if the peer accepts them."""
from rt import *
import outlib, hdrlib, parselib, c12, enclib, c10, connlib
from outlib import Out, HMAP, wire, field
LEVEL = "other"
FORBIDDEN = ("authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type", "host", "max-forwards", "set-cookie", "trailer", "transfer-encoding", "te")
ANN, ANN2, UNANN = "x-announced", "etag", "x-other"
for n_ in FORBIDDEN + (ANN2,): parselib.STD.setdefault(n_, "".join(w.capitalize() for w in n_.split("-")) if n_ != "etag" else "Etag")
TMAP = init("TRAILERS")

def name(P, n): return parselib.std_name(P, n) if n in parselib.STD else parselib.custom_name(P, n)

def trailer_handlers(P, lines):
    """TMAP holds `lines`; a map made here is HMAP, filled line by line; byte vectors are $Buf"""
    def items():
        out, last = [], None
        for k, n in enumerate(lines):
            out.append(("tup", (some(name(P, n)) if n != last else NONE, ("sym", T("hval", k))))); last = n
        return out
    def h(e, st, c):
        m, s = c.mname, c.short
        if outlib.is_map(c) and m in ("new", "default", "with_capacity"): return [(HMAP, None)]
        if m in ("new", "with_capacity") and "Vec" in s: return [(("adt", "$Buf", 0, "", ()), None)]
        if c.fn is not None and c.fn.local and c.fn.n.split("::")[-1] == "title_case":
            p, v, n = None, c.args[0], 0
            while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
            if v[0] == "adt" and v[1] == "$Buf": e.write(st, p, v[:4] + (v[4] + (("title", outlib.seg(e, st, c.args[1])),),)); return [(UNIT, None)]
        if not c.args: return None
        if recv(e, st, c) == TMAP:
            if m in ("into_iter", "drain"): return [(hdrlib.IT(items()), None)]
            if m in ("iter",): return [(hdrlib.IT([("tup", (hdrlib.cref(name(P, n)), hdrlib.cref(("sym", T("hval", k))))) for k, n in enumerate(lines)]), None)]
            if m in ("len", "keys_len"): return [(("int", len(lines)), None)]
            if m == "is_empty": return [(FALSE if lines else TRUE, None)]
            if m == "get_all": n0 = outlib.the_name(e, st, c.args[1]); return [(hdrlib.IT([hdrlib.cref(("sym", T("hval", k))) for k, n in enumerate(lines) if n == n0]), None)]
            if m == "contains_key": n0 = outlib.the_name(e, st, c.args[1]); return [(TRUE if n0 in lines else FALSE, None)]
        x = outlib.strip(e, st, c.args[0])
        if x[0] == "adt" and x[1] == "$It" and m in ("collect", "from_iter", "copied", "cloned"):
            if m in ("copied", "cloned"): return [(hdrlib.IT([e.read(st, y[1]) if y[0] == "ref" else y for y in x[4]]), None)]
            return [(("arr", tuple(e.snapshot(st, outlib.strip(e, st, y)) for y in x[4])), None)]
        if x[0] == "arr":
            if m in ("contains", "get") and len(c.args) == 2:
                a = outlib.the_name(e, st, outlib.strip(e, st, c.args[1]))
                hit = a in [outlib.the_name(e, st, y) for y in x[1]]
                if not isinstance(a, str): return None
                return [(TRUE if hit else FALSE, None)] if m == "contains" else [(some(c.args[1]) if hit else NONE, None)]
            if m in ("iter", "into_iter"): return [(hdrlib.IT([hdrlib.cref(y) for y in x[1]]), None)]
            if m in ("deref", "as_slice", "as_ref"): return [(c.args[0], None)]
            if m in ("len", "is_empty"): return [((TRUE if not x[1] else FALSE) if m == "is_empty" else ("int", len(x[1])), None)]
        if x[0] == "adt" and x[1] == "$Buf":
            if m in ("is_empty", "len") and m == "is_empty": return [(FALSE if x[4] else TRUE, None)]
            if m in ("from", "into", "freeze", "copy_from_slice"): return [(x, None)]
            if m in ("reserve",): return [(UNIT, None)]
        if m in ("eq", "ne") and len(c.args) == 2:
            a, b = [outlib.the_name(e, st, outlib.strip(e, st, y)) for y in c.args]
            if isinstance(a, str) and isinstance(b, str): return [(TRUE if (a == b) == (m == "eq") else FALSE, None)]
        if m == "remove" and recv(e, st, c) == TMAP: return None
        return None
    return (lambda c, e, st: True, h)

def on_wire(e, st, v):
    v = e.snapshot(st, v) if v[0] == "ref" else v
    out = []
    def walk(x):
        n = 0
        while x[0] == "ref" and n < 6: x = e.read(st, x[1]); n += 1
        if x[0] == "adt" and x[1] == "$Chain": walk(x[4][0]); walk(x[4][1]); return
        if x[0] == "adt" and (x[1].endswith("EncodedBuf") or x[1].endswith("BufKind")): walk(x[4][0]); return
        if x[0] == "adt" and x[1] == "$Buf": out.extend(x[4]); return
        out.append(outlib.seg(e, st, x))
    walk(v)
    return out

def encoding(ctx, P):
    ctx.rule("encode_trailers writes, for a chunked body with announced names, the last chunk, one line for each trailer line with an announced name that is not among %s, with its value, and an empty line; nothing at all if no line remains, the body is not chunked or nothing was announced" % ", ".join(FORBIDDEN))
    G = "trailer sections"
    E = P.adt("proto::h1::encode::Encoder"); K = P.adt("proto::h1::encode::Kind")
    f = next(f for f in P.fns.values() if f.local and f.n.endswith("Encoder::encode_trailers"))
    V = lambda n, *p: ("adt", K["path"], K["vix"][n], n, p)
    def cases():
        for kind in ("CloseDelimited", "Length", "plain"):
            for l in ((), (ANN,), (UNANN, "trailer")): yield kind, (), l
        for F in FORBIDDEN:
            for an in ((F,), (ANN, F), (F, ANN)):
                for l in ((F,), (F, F), (F, ANN), (ANN, F), (ANN, F, F, UNANN)): yield "names", an, l
            yield "names", (ANN,), (F, ANN, F)
        for an in ((), (ANN,), (ANN2,), (ANN, ANN2), (ANN2, ANN, ANN)):
            for l in ((), (ANN,), (UNANN,), (ANN, ANN), (ANN, UNANN), (UNANN, ANN), (ANN2, ANN), (ANN, ANN2, ANN2, UNANN), (UNANN, UNANN, ANN2)): yield "names", an, l
    for kind, an, l in cases():
        for title in (False, True):
            kv = V(kind, *([("int", 5)] if kind == "Length" else [])) if kind not in ("plain", "names") else V("Chunked", NONE if kind == "plain" else some(("arr", tuple(name(P, n) for n in an))))
            R = Rec([trailer_handlers(P, l), c10.wire_handlers(P)] + outlib.map_handlers(P) + [outlib.iter_extra(P), outlib.value_handlers(P)] + hdrlib.iter_handlers(), limit=300)
            e = ctx.engine(rule=R); e.widen_from = 12
            e.run(f, [mref("self"), TMAP, TRUE if title else FALSE], heap={cell("self"): mk(P, E, kind=kv, is_last=init("LAST"))})
            tx = "body %s, announced %s, trailers %s" % (kind, list(an), list(l))
            ctx.check(bool(e.finals), G, "end", "encode_trailers never returns: " + tx)
            # a map groups the lines of one name
            want = [(n, ("sym", T("hval", k))) for k, n in enumerate(l) if kind == "names" and n in an and n not in FORBIDDEN]
            for st, v in e.finals:
                if is_adt(v, "None"): ctx.check(not want, G, "dropped", "no trailer section is written: " + tx); continue
                b = unwrap(v, "Some")
                if b is None: ctx.bad("undecided", "whether trailers are written is not decided: %s: %s" % (show(v)[:80], tx), G); continue
                W = wire(on_wire(e, st, b))
                if W is None: ctx.bad("stray", "a literal of the trailer section contains a stray CR or LF: " + tx, G); continue
                lines, rest = W
                ok_ = len(lines) > 2 and lines[0] == [("lit", b"0")] and lines[-1] == [] and all(lines[:-1]) and not rest
                if not ctx.check(ok_, G, "shape", "the section is not the last chunk, trailer lines and an empty line: %s %s: %s" % (lines, rest, tx)): continue
                hs = [field(x) for x in lines[1:-1]]
                got = [(customname(h[0]), h[1][0][1] if len(h[1]) == 1 and h[1][0][0] == "val" else h[1]) if h else ("?", x) for h, x in zip(hs, lines[1:-1])]
                for n, x in got:
                    ctx.check(n not in FORBIDDEN, G, "forbidden:%s" % n, "the forbidden field %s is written as a trailer: %s" % (n, tx))
                    ctx.check((n, x) in want or n in FORBIDDEN, G, "not-announced", "a trailer line %s: %s is written: %s" % (n, x, tx))
                ctx.check(len(got) == len(want) and all(w in got for w in want), G, "lines", "written are %s instead of %s: %s" % (got, want, tx))
    ctx.floor(G, 400)

def customname(n):
    if isinstance(n, str): return n
    n = hdrlib_norm(n)
    if n[0] == "sym" and TERMS[n[1]][0] == "init" and TERMS[n[1]][1].startswith("CUSTOM_"): return TERMS[n[1]][1][7:]
    return n
def hdrlib_norm(n):
    while n[0] == "rf": n = n[1]
    return n

def source(r, x):
    """(header line value, trimmed) a name was read from: a comma separated element of it"""
    if not (x[0] == "sym" and TERMS[x[1]][0] == "hname"): return None
    y = TERMS[x[1]][1]
    while y[0] == "rf" or y[0] == "sym" and TERMS[y[1]][0] in ("deref",): y = y[1] if y[0] == "rf" else TERMS[y[1]][1]
    return r.root(y)

def mentions(x, v):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "sym": return v[1] in terms_in(x)
    return isinstance(x, tuple) and any(mentions(y, v) for y in x)

def announced(ctx, P):
    ctx.rule("the names a chunked encoder may send as trailers are elements of the message's own Trailer lines, and every readable element is among them; encoders that are not chunked have none; a Trailer line of a chunked response is itself written as given")
    G = "announced names"
    def judge(r, trailer, tx):
        v = unwrap(r.v, "Ok")
        if v is None: return
        k, pl = c12.kind(P, r, v)
        if k != "Chunked": ctx.check(k in ("Length", "CloseDelimited"), G, "kind", "the encoding of the body is not decided: " + tx); return
        if is_adt(pl, "None"): names = None
        else:
            names = unwrap(pl, "Some") if pl is not None else None
            if names is None or e_arr(r, names) is None: ctx.bad("names", "the names an encoder may send as trailers are not decided: %s: %s" % (show(pl)[:80] if pl else pl, tx), G); return
            names = e_arr(r, names)
        good = [x[1] for x in r.get("isname") if x[2]]
        for v in trailer:
            ctx.check(any(x[0] in ("tostr", "isname", "end") and mentions(x, v) for x in r.ev), G, "unread", "the Trailer line %s of a chunked message is not looked at: %s" % (show(v), tx))
        for x in names or ():
            s = source(r, x)
            ctx.check(s is not None and s[1] in trailer and s[0] in ("split", "rsplit", "whole"), G, "source", "%s may be sent as a trailer although it is not an element of a Trailer line: %s" % (show(x)[:80], tx))
        for y in good:
            rt_ = r.root(y) if y[0] == "sym" else None
            if rt_ and rt_[1] in trailer: ctx.check(any(TERMS[x[1]][1] == y for x in names or () if x[0] == "sym" and TERMS[x[1]][0] == "hname"), G, "lost", "an announced name may not be sent as a trailer: %s" % tx)
    for m in ("Get", None):
        for body in ("unknown", "known"):
            for ver in ("Http11", "Http10"):
                for r in enclib.encode(ctx, P, m, ver, body, ["trailer", "other", "transfer-encoding"], maxl=3 if ver == "Http11" and body == "unknown" and m else 2, maxv=2, ka=FALSE, cap=2 if body == "unknown" and ver == "Http11" else 1): judge(r, r.of("trailer"), "response, " + r.desc()); ann_line(ctx, G, r)
    for m in ("Post",):
        for body in ("unknown", "known"):
            for lines in (["trailer"], ["trailer", "trailer"], ["other"], ["other", "trailer", "transfer-encoding"], ["transfer-encoding"]):
                for r in c12.encode(ctx, P, m, "Http11", body, lines): judge(r, [("sym", T("hval", i)) for i, n in enumerate(lines) if n == "trailer"], "request with a body that is %s and lines %s%s" % (body, lines, r.text()))
    ctx.floor(G, 100)

def ann_line(ctx, G, r):
    if unwrap(r.v, "Ok") is None: return
    p = r.parsed()
    if isinstance(p, str): ctx.bad("shape", p + ": " + r.desc(), G); return
    if r.encoder()[0] != "Chunked": return
    for v in r.of("trailer"):
        ctx.check(any(n == "trailer" and ("val", v) in x for n, x, _ in p[1]), G, "line", "a Trailer line is not written: " + r.desc())

def e_arr(r, v):
    v = r.e.snapshot(r.st, v) if v[0] == "ref" else v
    return v[1] if v[0] == "arr" else None

def acceptance(ctx, P):
    ctx.rule("te_is_trailers is true exactly if an element of some TE line is `trailers`, in any case")
    G = "TE"
    f = P.fn("te_is_trailers")
    for k in (0, 1, 2):
        hp, au = outlib.start(["te"] * k + ["other"])
        old = hdrlib.CAP; hdrlib.CAP = 3 if k < 2 else 2
        try:
            R = Rec(outlib.map_handlers(P) + [outlib.iter_extra(P), outlib.value_handlers(P), outlib.H.str_handlers()] + hdrlib.iter_handlers(), limit=300)
            e = ctx.engine(rule=R); e.widen_from = 8
            hp[cell("map")] = HMAP
            e.run(f, [mref("map")], heap=hp, aut=au)
        finally: hdrlib.CAP = old
        ctx.check(bool(e.finals), G, "end", "te_is_trailers never returns")
        for st, v in e.finals:
            r = Out(e, st, v); b = st.val_int(v)
            h = [r.has(("sym", T("hval", i)), "trailers") for i in range(k)]
            if b == 1: ctx.check(any(x is True for x in h), G, "accepts", "trailers count as accepted without the token: %s" % r.text())
            elif b == 0: ctx.check(all(x is False for x in h), G, "refuses", "trailers count as refused although TE lists them or was not read: %s" % r.text())
            else: ctx.bad("undecided", "whether trailers are accepted is not decided: %s" % r.text(), G)
    ctx.floor(G, 10)

def gate(ctx, P):
    ctx.rule("a server hands trailers to the encoder only if the request being answered accepts them; the answer is taken from every request head and from nothing else; without trailers written the body's end is not marked")
    G = "acceptance of trailers"
    L = connlib.Lib(ctx)
    fns = {f.name: f for f in L.ent}
    ALLOW = init("ALLOW")
    M = P.adt("proto::ParsedMessage") if any(p.endswith("proto::ParsedMessage") for p in P.adts) else P.adt("proto::h1::ParsedMessage")
    Hd = P.adt("proto::MessageHead")
    for role in ("server", "client"):
        for r in connlib.READ:
            for k in connlib.KA:
                for allow in (TRUE, FALSE):
                    if not connlib.allowed("write_trailers", role, r, "Body", k): continue
                    for t in L.run(fns["write_trailers"], role, r, "Body", k, over={"allow_trailer_fields": allow}):
                        tr = t.has("trailers")
                        if role == "server" and allow == FALSE:
                            ctx.check(not tr and not t.has("io", "buffer") and not t.has("encode") and not t.has("end"), G, "unaccepted", "trailers are written although the request does not accept them: " + t.text())
                            ctx.check(t.post[1] == "Body", G, "unended", "the body counts as ended although nothing was written: " + t.text())
                        else:
                            ctx.check(bool(tr), G, "accepted:%s" % role, "trailers the peer accepts are not encoded: " + t.text())
                            out = [x for x in t.ev if x[:2] == ("io", "buffer")]
                            if any(x[0] == "trailers" and x[1] for x in t.ev if x[0] == "trailers"): pass
                            ctx.check(len(out) <= 1, G, "once", "a trailer section is queued more than once: " + t.text())
                            ctx.check(bool(out) == (t.post[1] != "Body"), G, "end", "the body's end is marked without the trailer section being queued, or the other way: " + t.text())
    for role in ("server", "client"):
        for f in L.ent:
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        if f.name != "poll_read_head" and (k != "Busy" and k != "Idle"): continue
                        for t in L.run(f, role, r, w, k, over={"allow_trailer_fields": ALLOW}, facts={ALLOW[1]: ("rng", 0, 1, frozenset())}):
                            a = t.sf("allow_trailer_fields")
                            te = [x for x in t.ev if x[0] == "te_is_trailers"]
                            if f.name == "poll_read_head" and t.has("parse", "ok"):
                                want = fget(P, t.st, fget(P, t.st, connlib.MSG, M, "head", eng=t.e), Hd, "headers", eng=t.e)
                                good = len(te) >= 1 and a == te[-1][1] and any(y in terms_in(te[-1][2]) for y in terms_in(want))
                                if role == "server": ctx.check(good, G, "recorded", "whether the request accepts trailers is not taken from its head (%s): %s" % (show(a)[:40], t.text()))
                            else: ctx.check(a == ALLOW or t.st.val_int(a) == 0, G, "kept:%s" % f.name, "trailers become accepted without a request head: %s" % t.text())
    ctx.floor(G, 200)

def run(ctx):
    P = ctx.prog()
    encoding(ctx, P); announced(ctx, P); acceptance(ctx, P); gate(ctx, P)
