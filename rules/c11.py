"""Server: framing of every response head, judged on the bytes the encoder writes."""
from rt import *
import enclib, outlib, c01
from enclib import CL, TE, N, KA
from outlib import ends_chunked, value_numbers, chunked_twice
from c12 import zero
LEVEL = "other"

def err_ok(r, dst_note=None):
    """is a refusal of this head justified: (justified, is a 1xx turned into 500)"""
    inp = [n for n, _ in r.inp()]
    cl, te = r.of(CL), r.of(TE)
    if cl and te or len(cl) > 1: return True
    if r.method == "Connect" and r.isv(200, 299) and (cl or te): return True
    return any(r.numbers(v)[2] for v in cl)

def judge(ctx, P, r):
    G, G2, G3 = "framing of responses", "choice of framing", "refused heads"
    st = r.st; tx = r.desc()
    if is_adt(r.v, "Err"):
        if r.isv(100, 199) and not r.isv(101, 101):
            p = r.parsed()
            good = not isinstance(p, str) and [n for n, _, _ in p[1] if n in (CL, TE)] == ([] if r.method == "Head" else [CL]) and all(v == [("lit", b"0")] for n, v, _ in p[1] if n == CL) and not any(v and v[0][0] == "val" for n, v, _ in p[1])
            ctx.check(good, G3, "1xx", "an unsupported 1xx response is not replaced by a complete 500 head with Content-Length: 0: %s: %s" % (p, tx))
        else:
            ctx.check(r.rewound(), G3, "rewound", "a refused response leaves bytes in the output: %s: %s" % (r.segs(), tx))
            ctx.check(err_ok(r), G3, "why", "a response is refused although its framing headers are fine: " + tx)
        return
    if unwrap(r.v, "Ok") is None: ctx.bad("undecided", "the outcome of encoding is not decided: " + tx, G); return
    ctx.check(r.notin(100, 199) or r.isv(101, 101), G, "interim", "a 1xx status that only announces another response is sent as the response: " + tx)
    p = r.parsed()
    if isinstance(p, str): ctx.bad("shape", "%s: %s" % (p, tx), G); return
    te = [v for n, v, _ in p[1] if n == TE]; cl = [v for n, v, _ in p[1] if n == CL]
    k, pl = r.encoder()
    t2 = "sent with %s and lines %s: %s" % (k if pl is None or k == "Chunked" else "%s(%s)" % (k, show(pl)[:30]), [(n, [y if y[0] == "lit" else y[0] for y in v]) for n, v, _ in p[1] if n in (TE, CL)], tx)
    nb = r.nobody()
    if nb is None: ctx.bad("nobody", "whether the response has a body is not decided by its status: " + t2, G); return
    ctx.check(len(te) <= 1 and len(cl) <= 1 and not (te and cl), G, "one", "a response with more than one framing line is " + t2)
    ctx.check(not (te and r.ver == "Http10"), G, "te-10", "a Transfer-Encoding towards HTTP/1.0 is " + t2)
    if nb:
        ctx.check(k == "Length" and zero(st, pl), G, "nobody-kind", "a response that has no body is " + t2)
        ctx.check(not te, G, "nobody-te", "a response that has no body is " + t2)
        if r.isv(100, 199) or r.isv(204, 204) or r.method == "Connect" and r.isv(200, 299): ctx.check(not cl, G, "nobody-cl", "a response that must not have a Content-Length is " + t2)
        for v in cl:
            a, nums, bad = value_numbers(r, v)
            user = v and v[0][0] == "val"
            ctx.check(user or nums and (nums[0] == N or zero(st, nums[0])), G, "nobody-cl-value", "a made-up Content-Length is " + t2)
        return
    if k == "Chunked":
        ctx.check(r.ver != "Http10", G, "chunked-version", "a chunked body on a version without it is " + t2)
        ctx.check(not cl and len(te) == 1 and ends_chunked(r, te[0]) is True, G, "chunked-te", "a chunked body not announced as such is " + t2)
        for v in te: ctx.check(not chunked_twice(r, v), G, "chunked-twice", "a body chunked once and announced as chunked twice is " + t2)
    elif k == "Length":
        ok_ = not te and len(cl) == 1
        if ok_:
            a, nums, bad = value_numbers(r, cl[0])
            trusted = r.body in ("known", "zero") and cl[0] and cl[0][0][0] == "val" and (pl == N or r.body == "zero" and zero(st, pl))
            ok_ = trusted or a and nums and all(c01.equal(st, x, pl) for x in nums)
        ctx.check(ok_, G, "length-cl", "a body with a length that is not the one announced is " + t2)
    elif k == "CloseDelimited": ctx.check(not te and not cl, G, "close", "a body ended by closing next to framing headers is " + t2)
    else: ctx.bad("kind", "the encoding of the body is not decided: " + t2, G)
    # which
    v10 = r.ver == "Http10"; ucl, ute = r.of(CL), r.of(TE)
    if ute and not v10: ctx.check(k == "Chunked", G2, "user-te", "a response the user gave a Transfer-Encoding is " + t2)
    elif r.body == "none": ctx.check(k == "Length" and zero(st, pl), G2, "none", "a response without a body is " + t2)
    elif r.body in ("zero", "known"): ctx.check(k == "Length" and (pl == N if r.body == "known" else zero(st, pl)), G2, "known", "a body of known length is " + t2)
    elif ucl: ctx.check(k == "Length" and all(r.numbers(v)[1] and all(c01.equal(st, pl, x) for x in r.numbers(v)[1]) for v in ucl), G2, "user-cl", "a body of unknown length the user gave a Content-Length is " + t2)
    else: ctx.check(k == ("CloseDelimited" if v10 else "Chunked"), G2, "unknown", "a body of unknown length is " + t2)

def reuse(ctx, P, r):
    """the encoder's is_last"""
    if unwrap(r.v, "Ok") is None: return
    G = "last message"
    l = r.last(); st = r.st
    close = [r.has(v, "close") for v in r.of("connection")]
    sw = r.isv(101, 101) or r.method == "Connect" and r.isv(200, 299)
    ka = st.val_int(KA); lv = st.val_int(l)
    neg = l[0] == "sym" and TERMS[l[1]][0] == "not" and TERMS[l[1]][1] == KA
    tx = "last = %s: %s" % (show(l), r.desc())
    if lv is None and neg: ctx.check(all(c is False for c in close) and not sw, G, "last-open", "a response that ends the connection's use is not marked as the last: " + tx)
    elif lv == 0: ctx.check(ka == 1 and all(c is False for c in close) and not sw, G, "last-missing", "a response is not marked as the last: " + tx)
    elif lv == 1: ctx.check(ka == 0 or any(close) or sw, G, "last-wrong", "a response is marked as the last although nothing asks for it: " + tx)
    else: ctx.bad("last-undecided", "whether the response is the last is not decided: " + tx, G)

def run(ctx):
    P = ctx.prog()
    ctx.rule("response heads on the wire: no body, no Transfer-Encoding for HEAD, 1xx, 204, 304 and 2xx to CONNECT, no Content-Length on 1xx, 204 and 2xx to CONNECT; otherwise chunked exactly when one Transfer-Encoding line ends in chunked, without Content-Length and not towards HTTP/1.0; a length exactly as announced in one Content-Length line; ended by closing only without framing lines")
    ctx.rule("the user's Transfer-Encoding (on 1.1), the body's own length, the user's Content-Length and then chunked (1.0: closing) decide, in this order; a head is refused, leaving no bytes behind, only for Content-Length next to Transfer-Encoding, more than one or an invalid Content-Length, or either on a 2xx to CONNECT; an unsupported 1xx becomes a complete 500")
    ctx.rule("the response is marked as the last message exactly if keep-alive is off, a Connection line lists close, or the connection is handed over")
    maxl = 4 if ctx.tier == "thorough" else 3
    for m in enclib.METHODS:
        for ver in ("Http10", "Http11", "H2"):
            for body in ("none", "zero", "known", "unknown"):
                n = 2 if ver == "H2" else maxl if (m in (None, "Get") and body == "unknown") else 2
                for r in enclib.encode(ctx, P, m, ver, body, [CL, TE], maxl=n): judge(ctx, P, r)
    for m in ("Get", "Connect"):
        for body in ("none", "unknown"):
            for r in enclib.encode(ctx, P, m, "Http11", body, ["connection", TE, CL], maxl=2): judge(ctx, P, r); reuse(ctx, P, r)
    for m, ver, case in ((None, "Http11", False), ("Head", "Http10", False), ("Get", "Http11", True)):
        for r in enclib.encode(ctx, P, m, ver, "known", ["connection", "other"] if not case else [CL, TE, "connection"], maxl=3 if not case else 2, case=case): judge(ctx, P, r); reuse(ctx, P, r)
    for g, n in (("framing of responses", 1000), ("choice of framing", 200), ("refused heads", 50), ("last message", 100)): ctx.floor(g, n)
