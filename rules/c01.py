"""Server: the framing decision of a request head."""
from rt import *
import parselib
from parselib import run_parse, content
import hdrlib
LEVEL = "other"
CHUNKED, CLOSE = 2**64 - 2, 2**64 - 1

def parsed(P, r):
    v = unwrap(r.v, "Ok", "Some")
    if v is None: return None
    M = P.adt("proto::h1::ParsedMessage"); D = P.adt("body::length::DecodedLength"); H = P.adt("proto::MessageHead")
    g = lambda n: fget(P, r.st, v, M, n, eng=r.e)
    head = g("head")
    return {"decode": r.e.project(r.st, g("decode"), ("f", 0, "0", None, None)), "keep_alive": g("keep_alive"), "expect": g("expect_continue"), "upgrade": g("wants_upgrade"),
            "version": fget(P, r.st, head, H, "version", eng=r.e), "subject": fget(P, r.st, head, H, "subject", eng=r.e), "head": head}

def digits_rule(ctx, P):
    """the number grammar: one or more decimal digits, exact value, overflow is no number"""
    ctx.rule("a length is a non-empty string of ASCII digits with its decimal value; anything else, and overflow, is no number")
    fs = [f for f in P.fns.values() if parselib.is_digits(P, f)]
    if not fs: raise mir.AnchorError("byte-string-to-number function")
    B = init("DIGIT_BYTE")
    for f in fs:
        def h(e, st, c):
            if c.mname == "next" and hdrlib.is_iter(hdrlib.strip(e, st, c.args[0])): return None
            if c.mname in ("checked_mul", "checked_add"):
                n = ("sym", T("fld", ("sym", T("call", c.mname, c.args[0], c.args[1])), 0, 0))
                st.facts.setdefault(n[1], ("rng", 0, 2**64 - 1, frozenset()))
                return [(some(("sym", T("res", c.mname, c.args[0], c.args[1]))), ("arith", c.mname, c.args[0], c.args[1], True)), (NONE, ("arith", c.mname, c.args[0], c.args[1], False))]
            if c.mname in ("is_empty", "len") and recv(e, st, c)[1] == "$Un":
                it = recv(e, st, c)
                return [(TRUE, ("empty", True)), (FALSE, ("empty", False))] if c.mname == "is_empty" else [(("sym", T("len", ("str", "digits"))), None)]
            return None
        old = hdrlib.CAP; hdrlib.CAP = 2
        try:
            e = ctx.engine(rule=Rec([(lambda c, e, st: bool(c.args), h)] + hdrlib.iter_handlers(), limit=100))
            e.run(f, [hdrlib.cref(hdrlib.UN("bytes"))], facts={("sym", T("elem", "bytes", i))[1]: ("rng", 0, 255, frozenset()) for i in (0, 1)})
        finally: hdrlib.CAP = old
        LB = ("sym", T("len", ("rf", hdrlib.UN("bytes"))))
        for st, v in e.finals:
            ev = st.aut or ()
            n = max([x[2] + 1 for x in ev if x[0] == "elem"] or [0]); ended = any(x[0] == "end" for x in ev)
            el = [hdrlib.elem("bytes", i) for i in range(n)]
            # bytes accepted so far
            sets = [byteset(st, x) for x in el]
            over = [x for x in ev if x[0] == "arith" and not x[4]]
            emptyk = st.val_int(("sym", T("cmp", "Eq", LB, ("int", 0)))) if ("cmp", "Eq", LB, ("int", 0)) in absint.TIX else None
            t = "%s after %d bytes with values %s" % (f.n, n, [("%d..%d" % (min(s), max(s)) if s else "none") for s in sets])
            if is_adt(v, "Some"):
                if n == 0:
                    # only reachable for a non-empty slice if nothing was read
                    ctx.check(emptyk == 0 or any(x == ("empty", False) for x in ev) or nonempty(st), "digits", "digits-empty", "an empty string is accepted as a number (%s)" % t)
                    continue
                ctx.check(ended and not over and all(s == set(range(48, 58)) for s in sets), "digits", "digits-accept", "a number is accepted from bytes that are not all ASCII digits: " + t)
                ctx.check(value_ok(st, v[4][0], el), "digits", "digits-value", "the value of a digit string is computed as %s" % show(v[4][0])[:160])
            elif is_adt(v, "None"):
                bad = any(not (s & set(range(48, 58))) for s in sets)
                ctx.check(bad or over or n == 0, "digits", "digits-reject", "a string of digits is rejected: " + t)
            else: ctx.bad("digits-form", "%s does not decide: %s" % (t, show(v)[:80]))
    ctx.floor("digits", 5)

def nonempty(st): return any(TERMS[i][0] in ("len", "cmp") and "$Un" in repr(TERMS[i]) for i in st.facts)
def byteset(st, x):
    """values of the byte x (or of what the reference x points to) left by the facts of the path"""
    d = ("sym", T("deref", x))
    rel = [(i, c) for i, c in st.facts.items() if x[1] in terms_in(("sym", i))]
    out = set()
    for b in range(256):
        for i, c in rel:
            y = ev(("sym", i), {x: b, d: b})
            if y is not None and c_empty(c_meet_in(c, frozenset((y,)))): break
        else: out.add(b)
    return out
def value_ok(st, v, el):
    """v == ((d0)*10 + d1) ... with exact checked operations"""
    lin = dec(v)
    if lin is None: return False
    n = len(el); want = {}
    k = 0
    for i, x in enumerate(el):
        want[x[1]] = 10 ** (n - 1 - i); k -= 48 * 10 ** (n - 1 - i)
    return {a: b for a, b in lin.items() if a != 1} == want and lin.get(1, 0) == k
def dec(v):
    if v[0] in ("int", "bool"): return {1: v[1]}
    if v[0] != "sym": return None
    t = TERMS[v[1]]
    if t[0] in ("elem",): return {v[1]: 1, 1: 0}
    if t[0] == "deref": return dec(t[1])
    if t[0] == "cast": return dec(t[1])
    if t[0] == "call" and len(t) == 3: return dec(strip_ref(t[2]))
    if t[0] == "fld" and t[1][0] == "sym" and TERMS[t[1][1]][0] in ("bin", "call"): return dec(t[1])
    if t[0] == "res" or t[0] == "bin":
        a, b = dec(t[2]), dec(t[3])
        if a is None or b is None: return None
        o = t[1]
        if "Add" in o or "add" in o: return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
        if "Sub" in o or "sub" in o: return {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
        if "Mul" in o or "mul" in o:
            if set(b) == {1}: return {k: y * b[1] for k, y in a.items()}
            if set(a) == {1}: return {k: y * a[1] for k, y in b.items()}
    return None

def equal(st, a, b):
    return a == b or entails_le(st, a, b) and entails_le(st, b, a)
def differ(st, a, b):
    t = [absint.TIX.get(("cmp", "Eq", x, y)) for x, y in ((a, b), (b, a))]
    return any(i is not None and st.val_int(("sym", i)) == 0 for i in t) or entails_le(st, ("sym", T("bin", "Add", a, ("int", 1))), b) or entails_le(st, ("sym", T("bin", "Add", b, ("int", 1))), a)

def run(ctx):
    P = ctx.prog()
    ctx.rule("every accepted request: Transfer-Encoding present = HTTP/1.1, last coding chunked, chunked decoder, no Content-Length left and no reuse if there was one; else all Content-Length lines valid and equal and their value; else zero")
    ctx.rule("a request is refused only for Transfer-Encoding on HTTP/1.0, a last coding other than chunked, an invalid, oversized or conflicting Content-Length, or what the parser refused")
    rs, R = run_parse(ctx, "Server", ["transfer-encoding", "content-length"], cap=4 if ctx.tier == "thorough" else 3)
    if R.stopped: raise mir.AnchorError("request parser paths stopped")
    for r in rs: judge(ctx, P, r)
    for r in run_parse(ctx, "Server", [n for n in parselib.STD if n not in ("transfer-encoding", "content-length")], cap=1)[0]: judge(ctx, P, r)
    for n in parselib.STD:
        if n not in ("transfer-encoding", "content-length"):
            for r in run_parse(ctx, "Server", [n, "transfer-encoding", "content-length"], cap=3 if n == "connection" and ctx.tier == "thorough" else 2)[0]: judge(ctx, P, r)
    for g, n in (("framing of accepted requests", 60), ("refusals", 60), ("framing headers seen by the application", 60), ("nothing parsed", 1)): ctx.floor(g, n)
    digits_rule(ctx, P)
    decoder_rule(ctx, P)

def judge(ctx, P, r):
    o = r.outcome(); L = r.lines(); st = r.st; tx = r.text()
    hv = r.hval
    te = [i for i, n in L if n == "transfer-encoding"]; cl = [i for i, n in L if n == "content-length"]
    dg = {i: next((x[2] for x in r.ev if x[0] == "digits" and x[1] == hv(i)), None) for i in cl}
    num = lambda i: ("sym", T("digits", hv(i)))
    ended = any(x[:2] == ("end", "lines") for x in r.ev)
    p = parsed(P, r)
    if p is not None:
        ctx.check(o in ("v11", "v10"), "framing of accepted requests", "accept:" + str(o), "a request is accepted although the parser did not complete: " + tx)
        d = p["decode"]
        if te:
            last = r.last_is(hv(te[-1]), "chunked")
            ctx.check(o == "v11" and last is True and st.val_int(d) == CHUNKED, "framing of accepted requests", "accept-te:%s:%s" % (o, last), "a request with Transfer-Encoding is accepted although it is HTTP/1.0 or its last coding is not (known to be) chunked, or it is not read as chunked: " + tx)
            if cl: ctx.check(st.val_int(p["keep_alive"]) == 0, "framing of accepted requests", "te-cl-reuse", "a request with both Transfer-Encoding and Content-Length leaves the connection reusable: " + tx)
        elif cl:
            good = all(dg[i] for i in cl) and all(equal(st, num(cl[0]), num(i)) for i in cl[1:])
            ctx.check(good, "framing of accepted requests", "accept-cl", "a request with an unparsable or conflicting Content-Length is accepted: " + tx)
            ctx.check(linear(d) is not None and (d == num(cl[0]) or any(equal(st, d, num(i)) for i in cl)), "framing of accepted requests", "cl-length", "the body of a request with Content-Length is delimited by %s: %s" % (show(d)[:40], tx))
            ctx.check(entails_le(st, d, ("int", CHUNKED - 1)), "framing of accepted requests", "cl-reserved", "a Content-Length can take the reserved value for chunked or close-delimited: " + tx)
        else:
            ctx.check(st.val_int(d) == 0, "framing of accepted requests", "none-zero", "a request without framing headers is delimited by %s: %s" % (show(d)[:40], tx))
        got = content(st)
        want = [((n if n != "other" else "other:%d" % i), hv(i)) for i, n in L if n != "content-length"]
        have = [(n, v) for n, v in got if n != "content-length"]
        ctx.check(have == want, "framing headers seen by the application", "headers", "header lines are lost, added or reordered (%s): %s" % (have, tx))
        gcl = [v for n, v in got if n == "content-length"]
        if te: ctx.check(not gcl, "framing headers seen by the application", "cl-withheld", "Content-Length is left in a request with Transfer-Encoding: " + tx)
        elif cl: ctx.check(bool(gcl) and all(v in [hv(i) for i in cl] for v in gcl), "framing headers seen by the application", "cl-kept", "the Content-Length of a request is lost: " + tx)
        return
    if unwrap(r.v, "Ok") is not None:
        ctx.check(o == "partial" and not r.get("split"), "nothing parsed", "none:%s" % o, "no message is reported although the parser said %s (or bytes were consumed): %s" % (o, tx))
        return
    if not is_adt(r.v, "Err"): ctx.bad("form", "the outcome of parsing is not decided: " + tx); return
    why = []
    if o not in ("v11", "v10"): why.append(o)
    if o == "partial": ctx.bad("partial-refused", "an incomplete request is refused: " + tx)
    if te and o == "v10": why.append("TE on 1.0")
    if te and ended and r.last_is(hv(te[-1]), "chunked") is False: why.append("not chunked")
    for i in cl:
        if dg[i] is False: why.append("invalid length")
        if dg[i] and entails_le(st, ("int", CHUNKED), num(i)): why.append("length too large")
        for j in cl:
            if j < i and dg[i] and dg[j] and differ(st, num(i), num(j)): why.append("lengths differ")
    if r.get("bad") or any(n == "invalid" for _, n in L): why.append("refused by a validated type")
    if not L and not r.get("bad") and entails_le(st, ("int", 65535), ("sym", T("len", init("TARGET")))): why.append("target too long")
    ctx.check(bool(why), "refusals", "refused", "a request is refused without a framing or parse error: " + tx)

def decoder_rule(ctx, P):
    ctx.rule("the body reader is built from the framing decision: chunked, close-delimited, or exactly the length")
    D = P.adt("proto::h1::decode::Decoder"); DL = P.adt("body::length::DecodedLength")
    f = P.fn("Decoder::new")
    lens = [i for i in range(1, f.argc + 1) if P.ty(f.locals[i][0])[:2] == ("adt", DL["path"])]
    if len(lens) != 1: raise mir.AnchorError("Decoder::new takes %d lengths" % len(lens))
    for val, want in ((("int", CHUNKED), "Chunked"), (("int", CLOSE), "Eof"), (init("N"), "Length")):
        e = ctx.engine()
        args = [("adt", DL["path"], 0, DL["variants"][0][0], (val,)) if i == lens[0] else init("A%d" % i) for i in range(1, f.argc + 1)]
        for st, v in e.run(f, args, facts={init("N")[1]: ("rng", 0, CHUNKED - 1, frozenset())}):
            k = fget(P, st, v, D, "kind", eng=e)
            ctx.check(is_adt(k, want) and (want != "Length" or k[4] == (val,)) and (want != "Eof" or st.val_int(k[4][0]) == 0), "decoder from framing", "decoder:" + want, "a body framed as %s is read with %s" % (want, show(k)[:60]))
    ctx.floor("decoder from framing", 3)
