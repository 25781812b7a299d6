"""Client: the framing decision of a response head."""
from rt import *
import parselib, hdrlib, c01
from parselib import run_parse, content
import h2streamlib as H
CAPN = 2
LEVEL = "other"
CHUNKED, CLOSE = c01.CHUNKED, c01.CLOSE

def http_method(P, name):
    m = P.adt("http::Method"); inner = next(a for p, a in P.adts.items() if p.endswith("method::Inner"))
    return ("adt", m["path"], 0, m["variants"][0][0], (("adt", inner["path"], inner["vix"][name], name, ()),))

def run(ctx):
    P = ctx.prog()
    ctx.rule("every delivered response: 101 / 2xx to CONNECT = no body and hand-over; 204, 304 and answers to HEAD = no body; then Transfer-Encoding (not on 1.0: chunked if last, else until close), then valid and equal Content-Length, else until close; other 1xx are skipped")
    ctx.rule("a response is refused only for Transfer-Encoding on HTTP/1.0, an invalid, oversized or conflicting Content-Length, or what the parser refused")
    n_skip = 0
    for r in responses(ctx, P, some(http_method(P, "Get")), 1, [n for n in parselib.STD if n not in ("transfer-encoding", "content-length")])[0]: judge(ctx, P, r, "Get")
    for n in parselib.STD:
        if n not in ("transfer-encoding", "content-length"):
            for r in responses(ctx, P, some(http_method(P, "Get")), 2, [n, "transfer-encoding", "content-length"])[0]: judge(ctx, P, r, "Get")
    for mname in ("Head", "Connect", "Get", "Post", None):
        method = NONE if mname is None else some(http_method(P, mname))
        rs, R = responses(ctx, P, method, 3 if ctx.tier == "thorough" else CAPN)
        for r in rs: judge(ctx, P, r, mname)
        for st, c in R.stopped:
            n_skip += 1
            r = parselib.Run(R.eng, st, UNIT)
            lo, hi = codes(r)
            ctx.check(lo >= 100 and hi <= 199 and not (lo <= 101 <= hi), "skipped responses", "skip", "a response with status %s..%s is skipped: %s" % (lo, hi, r.text()))
            ctx.check(bool(r.get("split")), "skipped responses", "skip-consume", "a skipped response is parsed again: " + r.text())
    for g, n in (("framing of delivered responses", 200), ("response refusals", 60), ("skipped responses", 5), ("nothing delivered", 5)): ctx.floor(g, n)
    c01.digits_rule(ctx, P)
    c01.decoder_rule(ctx, P)

def responses(ctx, P, method, cap, classes=("transfer-encoding", "content-length"), **kw):
    f = P.trait_method("proto::h1::role::Client", "Http1Transaction", "parse")
    hs = parselib.handlers(P, list(classes), "Client")
    def again(e, st, c):
        if c.mname.startswith("parse_response") and any(x[0] == "parse" for x in st.aut or ()): return "stop"
        if c.mname == "next_back" and c.args:
            p = None; v = c.args[0]; n = 0
            while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
            if v[0] == "adt" and v[1] == "$It":
                if not v[4]: return [(NONE, None)]
                if p is not None: e.write(st, p, v[:4] + (v[4][:-1],))
                return [(some(v[4][-1]), None)]
        if c.mname == "call" and "OnInformational" in c.short or c.mname == "call" and c.trait and c.trait.endswith("OnInformationalCallback"): return [(UNIT, ("informed",))]
        return None
    old = hdrlib.CAP; hdrlib.CAP = cap
    try:
        R = Rec([(lambda c, e, st: True, again)] + hs, limit=160)
        e = ctx.engine(rule=R); e.widen_from = cap + 6
        R.eng = e
        hp = {cell("buf"): init("BUF"), cell("cached"): NONE, cell("reqm"): method, cell("oninf"): kw.pop("oninf", NONE)}
        e.max_states = max(e.max_states, 3000000)
        e.run(f, [mref("buf"), parselib.ctx_value(P, **kw)], heap=hp)
    finally: hdrlib.CAP = old
    return [parselib.Run(e, st, v) for st, v in e.finals], R

def codes(r):
    """range of the status code on this path"""
    c = r.e.project(r.st, r.e.project(r.st, init("STATUS"), ("f", 0, "0", None, None)), ("f", 0, "0", None, None))
    best = None
    for i, d in list(r.st.facts.items()):
        if init("STATUS")[1] in terms_in(("sym", i)) and TERMS[i][0] in ("fld", "call"):
            lo, hi = r.e.interval(r.st, ("sym", i))
            if lo is not None and hi is not None and (best is None or hi - lo < best[1] - best[0]): best = (lo, hi)
    return best or (100, 999)

def excluded(r, k):
    for i, d in r.st.facts.items():
        if TERMS[i][0] in ("fld", "call") and init("STATUS")[1] in terms_in(("sym", i)):
            if d[0] == "in" and k not in d[1] or d[0] == "rng" and (k in d[3] or d[1] is not None and k < d[1] or d[2] is not None and k > d[2]): return True
    return False

def lengths(r, i):
    """(all items known to be numbers, [number terms], some item known not to be) of one Content-Length line"""
    v = r.hval(i)
    so = r.str_of(v)
    if so is False: return False, [], True
    nums, bad, n = [], False, None
    src = {}
    for x in r.ev:
        if x[0] == "digits":
            q = r.root(x[1])
            if q and q[1] == v and q[0] == "split" and q[3]:
                src[q[2]] = x
            elif q and q[1] == v and q[0] == "whole": src["w"] = x
    ends = [x[2] for x in r.ev if x[0] == "end" and isinstance(x[1], tuple) and x[1][0] == "split" and H.norm(x[1][1])[0] == "sym" and TERMS[H.norm(x[1][1])[1]][:2] == ("str", v) and x[1][2] in (("int", 44), ("str", ","))]
    for k, x in src.items():
        if x[2]: nums.append(("sym", T("digits", x[1])))
        else: bad = True
    full = "w" in src or ends and all(j in src for j in range(ends[-1]))
    return bool(full) and not bad, nums, bad

def judge(ctx, P, r, mname):
    o = r.outcome(); st = r.st; tx = "answer to %s %s" % (mname or "unknown method", r.text())
    L = r.lines(); te = [i for i, n in L if n == "transfer-encoding"]; cl = [i for i, n in L if n == "content-length"]
    lo, hi = codes(r)
    ln = [lengths(r, i) for i in cl]
    nums = [x for l in ln for x in l[1]]
    isv = lambda a, b: lo >= a and hi <= b
    p = c01.parsed(P, r)
    G = "framing of delivered responses"
    if p is not None:
        d, up = p["decode"], st.val_int(p["upgrade"]); dv = st.val_int(d)
        ctx.check(o in ("v11", "v10"), G, "deliver:%s" % o, "a response is delivered although the parser did not complete: " + tx)
        no_body = None
        if isv(101, 101): want = (0, 1)
        elif hi < 200 or lo < 200: want = None
        elif isv(204, 204) or isv(304, 304) or mname == "Head": want = (0, 0)
        elif mname == "Connect" and isv(200, 299): want = (0, 1)
        else: want = "table"
        if want is None: ctx.bad("interim-delivered", "a 1xx response (%d..%d) is delivered: %s" % (lo, hi, tx), G); return
        if want == "table":
            if mname == "Connect" and not (hi < 200 or lo > 299) : ctx.bad("connect-2xx", "a possibly successful answer to CONNECT (%d..%d) is treated as an ordinary response: %s" % (lo, hi, tx), G); return
            if not (excluded(r, 204) and excluded(r, 304)): ctx.bad("no-body-status", "204 or 304 is treated as a response with a body: " + tx, G); return
            ctx.check(up == 0, G, "upgrade", "an ordinary response is treated as a hand-over: " + tx)
            if te:
                last = r.last_is(r.hval(te[-1]), "chunked")
                ctx.check(o == "v11" and (last is True and dv == CHUNKED or last is False and dv == CLOSE), G, "te:%s:%s" % (o, last), "a response with Transfer-Encoding (last chunked: %s) is read as %s: %s" % (last, show(d)[:40], tx))
            elif cl:
                good = all(l[0] for l in ln) and nums and all(c01.equal(st, nums[0], x) for x in nums[1:])
                ctx.check(good, G, "cl-invalid", "a response with an invalid or conflicting Content-Length is delivered: " + tx)
                if nums:
                    ctx.check(any(c01.equal(st, d, x) for x in nums), G, "cl-length", "a response with Content-Length is delimited by %s: %s" % (show(d)[:40], tx))
                    ctx.check(entails_le(st, d, ("int", CHUNKED - 1)), G, "cl-reserved", "a Content-Length can take a reserved value: " + tx)
            else: ctx.check(dv == CLOSE, G, "none-close", "a response without framing headers is delimited by %s: %s" % (show(d)[:40], tx))
        else:
            ctx.check(dv == want[0] and up == want[1], G, "nobody:%d-%d:%s" % (lo, hi, mname), "a response that has no body (%d..%d) is read as %s (hand-over %s): %s" % (lo, hi, show(d)[:40], up, tx))
        if up: ctx.check(st.val_int(p["keep_alive"]) == 0, G, "upgrade-reuse", "a handed-over connection stays reusable: " + tx)
        ctx.check(p["subject"] == init("STATUS"), G, "status", "the status delivered is not the status received: " + tx)
        got = content(st); want_h = [((n if n != "other" else "other:%d" % i), r.hval(i)) for i, n in L]
        ctx.check(got == want_h, G, "headers", "header lines are lost, added or reordered (%s): %s" % (got, tx))
        return
    if unwrap(r.v, "Ok") is not None:
        if o == "partial": ctx.check(not r.get("split"), "nothing delivered", "partial", "bytes of an incomplete response are consumed: " + tx)
        else: ctx.check(isv(100, 199) and excluded(r, 101) and o in ("v11", "v10"), "nothing delivered", "none:%s" % o, "a response with status %d..%d is swallowed: %s" % (lo, hi, tx))
        return
    if not is_adt(r.v, "Err"): ctx.bad("form", "the outcome of parsing is not decided: " + tx); return
    why = []
    if o == "partial": ctx.bad("partial-refused", "an incomplete response is refused: " + tx)
    if o not in ("v11", "v10", "partial"): why.append(o)
    framed = not (isv(100, 199) or isv(204, 204) or isv(304, 304) or mname == "Head" or mname == "Connect" and isv(200, 299))
    if framed:
        if te and o == "v10": why.append("TE on 1.0")
        if not te:
            if any(l[2] for l in ln): why.append("invalid length")
            if any(c01.differ(st, a, b) for a in nums for b in nums if a != b): why.append("lengths differ")
            if any(entails_le(st, ("int", CHUNKED), a) for a in nums): why.append("too large")
    if r.get("bad") or any(n == "invalid" for _, n in L): why.append("refused by a validated type")
    ctx.check(bool(why), "response refusals", "refused", "a response is refused without a framing or parse error: " + tx)
