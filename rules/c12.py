"""Client: framing of every request head, judged on the bytes the encoder writes."""
from rt import *
import outlib, hdrlib, c06, c02, c01
from outlib import Out, wire, field, ends_chunked, value_numbers
LEVEL = "other"
URI, N = init("URI"), init("N")
CL, TE = "content-length", "transfer-encoding"

def body_value(P, body):
    b = P.adt("proto::BodyLength")
    v = lambda n, *f: some(("adt", b["path"], b["vix"][n], n, f))
    return {"none": NONE, "zero": v("Known", ("int", 0)), "known": v("Known", N), "unknown": v("Unknown")}[body]

def common(P, case):
    def h(e, st, c):
        s, m = c.short, c.mname
        if m == "get" and "Extensions" in s:
            return [(NONE, ("case", False))] + ([(some(sref("CASEMAP")), ("case", True))] if case else [])
        if m == "write_fmt": return [(ok(UNIT), ("w", ("fmt",)))]
        if c.fn is not None and c.fn.local and c.fn.n.split("::")[-1] == "title_case": return [(UNIT, ("w", ("title", outlib.seg(e, st, c.args[1]))))]
        return None
    return (lambda c, e, st: True, h)

def encode(ctx, P, method, ver, body, lines, case=False, title=False):
    f = P.trait_method("proto::h1::role::Client", "Http1Transaction", "encode")
    hp, au = outlib.start(lines)
    mh, enc, rl = P.adt("proto::MessageHead"), P.adt("proto::h1::Encode"), P.adt("proto::RequestLine")
    head = mk(P, mh, version=c06.version(P, ver), subject=("adt", rl["path"], 0, rl["variants"][0][0], (c02.http_method(P, method), URI)), headers=outlib.HMAP, extensions=init("EXT"))
    R = Rec([common(P, case)] + outlib.map_handlers(P) + [outlib.iter_extra(P), outlib.value_handlers(P), outlib.H.str_handlers()] + hdrlib.iter_handlers(), limit=300)
    e = ctx.engine(rule=R); e.widen_from = 8
    hp.update({cell("head"): head, cell("reqm"): NONE, cell("dst"): outlib.DST})
    e.run(f, [mk(P, enc, head=mref("head"), body=body_value(P, body), keep_alive=TRUE, req_method=mref("reqm"), title_case_headers=TRUE if title else FALSE, date_header=FALSE), mref("dst")],
          heap=hp, aut=au, facts={N[1]: ("rng", 1, 2**64 - 1, frozenset())})
    if R.stopped: raise mir.AnchorError("encoder paths stopped")
    return [r for r in (Out(e, st, v) for st, v in e.finals) if r.possible()]

def kind(P, r, v):
    """(kind, payload) of an encoder"""
    E = P.adt("proto::h1::encode::Encoder")
    k = fget(P, r.st, v, E, "kind", eng=r.e)
    if k[0] != "adt": return None, None
    return k[3], (k[4][0] if k[4] else None)

def zero(st, x): return st.val_int(x) == 0 or entails_le(st, x, ("int", 0))

def judge(ctx, P, r, method, ver, body, inp, case, title):
    G = "framing of requests"
    tx = "%s %s with a body that is %s and lines %s%s" % (method.upper(), ver, body, inp, r.text())
    v = unwrap(r.v, "Ok")
    if v is None: ctx.bad("refused:%s" % method, "a request head is refused or its outcome is not decided: %s: %s" % (show(r.v)[:60], tx), G); return
    W = wire([x[1] for x in r.get("w")])
    if not ctx.check(W is not None and not r.get("trunc"), "shape of request heads", "stray", "a literal of a request head contains a stray CR or LF: " + tx): return
    lines, rest = W
    ok_ = bool(lines) and lines[-1] == [] and all(lines[:-1]) and not rest
    if not ctx.check(ok_, "shape of request heads", "shape", "a request head is not a request line, header lines and one empty line: %s: %s" % (lines, tx)): return
    rl = lines[0]
    lits = [g for g in rl if g[0] == "lit"]
    want = b"HTTP/1.0" if ver == "Http10" else b"HTTP/1.1"
    ctx.check(lits and lits[-1][1].endswith(want) and rl[-1] is lits[-1] and any(g == ("fmt",) for g in rl), "shape of request heads", "line", "the request line is %s: %s" % (rl, tx))
    hs = [field(l) for l in lines[1:-1]]
    if not ctx.check(all(h is not None for h in hs), "shape of request heads", "header-line", "a header line has no name and value: %s: %s" % ([l for l, h in zip(lines[1:-1], hs) if h is None], tx)): return
    # other lines as given
    want_o = [(n, ("val", r.hval(i))) for i, n in enumerate(inp) if n not in (CL, TE)]
    ctx.check([(n, tuple(val)) for n, val, _ in hs if n not in (CL, TE)] == [(n, ((v,) if ("vempty", v[1], True) not in r.ev else ())) for n, v in want_o], "other lines unchanged", "others", "lines that have nothing to do with framing are changed: %s: %s" % (hs, tx))
    for n, val, how in hs: ctx.check(how in (("orig", "title") if title and case_on(r) else ("orig", "name") if case_on(r) else ("title",) if title else ("name",)), "other lines unchanged", "spelling:%s" % how, "a name is spelled %s: %s" % (how, tx))
    te = [val for n, val, _ in hs if n == TE]; cl = [val for n, val, _ in hs if n == CL]
    k, pl = kind(P, r, v)
    st = r.st
    nums = [value_numbers(r, x) for x in cl]
    t2 = "sent with %s and lines %s: %s" % (k if pl is None or k == "Chunked" else "%s(%s)" % (k, show(pl)[:30]), [(n, [y if y[0] == "lit" else y[0] for y in v_]) for n, v_, _ in hs if n in (TE, CL)], tx)
    if k == "Chunked":
        ctx.check(ver == "Http11", G, "chunked-version", "a chunked body on a version without it is " + t2)
        ctx.check(not cl, G, "chunked-cl", "a chunked body next to a Content-Length is " + t2)
        ctx.check(bool(te) and ends_chunked(r, te[-1]) is True, G, "chunked-te", "a chunked body not announced as such is " + t2)
        for v in te: ctx.check(not outlib.chunked_twice(r, v), G, "chunked-twice", "a body chunked once and announced as chunked twice is " + t2)
    elif k == "Length":
        ctx.check(not te, G, "length-te", "a body with a length next to Transfer-Encoding is " + t2)
        if cl: ctx.check(all(n[0] and n[1] and all(c01.equal(st, x, pl) for x in n[1]) for n in nums), G, "length-cl", "a body whose length is not the Content-Length written is " + t2)
        else: ctx.check(zero(st, pl), G, "length-none", "a body without any framing is " + t2)
    else: ctx.bad("kind:%s" % k, "a request body delimited by the end of the connection or an undecided encoding is " + t2, G)
    # which framing
    G2 = "choice of framing"
    uin = [i for i, n in enumerate(inp) if n == CL]; ute = TE in inp
    uv = [r.numbers(r.hval(i)) for i in uin]
    uvalid = bool(uin) and all(a and b for a, b, c in uv) and all(c01.equal(st, uv[0][1][0], x) for _, b, _ in uv for x in b)
    v11 = ver == "Http11"
    if body == "none": ctx.check(k == "Length" and zero(st, pl), G2, "empty", "a request without a body is " + t2)
    elif ute and v11: ctx.check(k == "Chunked", G2, "user-te", "a request the user gave a Transfer-Encoding is " + t2)
    elif uvalid: ctx.check(k == "Length" and any(c01.equal(st, pl, x) for _, b, _ in uv for x in b), G2, "user-cl", "a request the user gave a Content-Length is " + t2)
    elif body in ("zero", "known"): ctx.check(k == "Length" and (pl == N if body == "known" else zero(st, pl)) and len(cl) == 1, G2, "known", "a body of known length is " + t2)
    elif v11 and method not in ("Get", "Head", "Connect"): ctx.check(k == "Chunked", G2, "unknown", "a body of unknown length is " + t2)
    else: ctx.check(k == "Length" and zero(st, pl), G2, "unknown-none", "a body of unknown length that cannot be announced is " + t2)
    ctx.check(r.st.heap.get(cell("reqm")) is not None and r.e.snapshot(st, r.e.read(st, (cell("reqm"), ()))) == some(c02.http_method(P, method)), "method remembered", "method:" + method, "the method of the request is not remembered for its response: %s: %s" % (show(r.e.read(st, (cell("reqm"), ())))[:50], tx))
    ctx.check(not outlib.content(st), "headers handed back empty", "empty", "the header map handed back for reuse still has lines: " + tx)

def case_on(r): return any(x == ("case", True) for x in r.ev)

def run(ctx):
    P = ctx.prog()
    ctx.rule("request heads on the wire: chunked coding exactly when the last Transfer-Encoding coding written is chunked, only on HTTP/1.1 and without Content-Length; a length only without Transfer-Encoding and equal to every Content-Length written, zero when none is written; never delimited by the end of the connection")
    ctx.rule("the user's Transfer-Encoding (on 1.1) and valid Content-Length decide; then the body's own length; then chunked, except for GET, HEAD, CONNECT and other versions, which send no body; an empty body is sent as none")
    ctx.rule("the head is a request line with the message's version, header lines of one name, ': ' and the given value in the given order, and one empty line; names in the spelling asked for; the map comes back empty and the method is remembered")
    combos = [[CL] * a + [TE] * b for a in range(3) for b in range(3)] + [["other"], ["other", CL], [TE, "other", CL], ["other", "connection"], [CL, CL, CL]]
    if ctx.tier == "thorough": combos += [[TE] * 3, [CL] * 3 + [TE], [CL, CL, TE, TE, "other"]]
    for method in ("Get", "Head", "Connect", "Post"):
        for ver in ("Http10", "Http11", "H2"):
            for body in ("none", "zero", "known", "unknown"):
                for inp in combos:
                    if method in ("Head", "Connect") and len(inp) > 2 and ctx.tier != "thorough": continue
                    for r in encode(ctx, P, method, ver, body, inp): judge(ctx, P, r, method, ver, body, inp, False, False)
    for inp in ([], ["other"], [TE], [CL], ["other", "other"], ["other", "date"]):
        for case, title in ((True, False), (True, True), (False, True)):
            for body in ("none", "known", "unknown"):
                for r in encode(ctx, P, "Post", "Http11", body, inp, case, title): judge(ctx, P, r, "Post", "Http11", body, inp, case, title)
    for g, n in (("framing of requests", 2000), ("choice of framing", 1000), ("shape of request heads", 2000), ("other lines unchanged", 500), ("method remembered", 500), ("headers handed back empty", 500)): ctx.floor(g, n)
