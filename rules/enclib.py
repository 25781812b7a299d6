"""Server response heads as abstract runs of <Server as Http1Transaction>::encode; the user's header lines are an arbitrary sequence."""
from rt import *
import outlib, hdrlib, c06, c02, c12, c01
from outlib import Out, wire, field, ends_chunked, value_numbers, DST
CL, TE = "content-length", "transfer-encoding"
STATUS, KA, N = init("STATUS"), init("KEEP_ALIVE"), c12.N
METHODS = ("Head", "Connect", "Get", None)

def srv_handlers(P, case, reason):
    def h(e, st, c):
        s, m = c.short, c.mname
        if not c.args:
            if m == "default" and "http::Version" in s: return [(c06.version(P, "Http11"), None)]
            return None
        if "Extensions" in s and m == "get":
            t = str([P.ty(x) if isinstance(x, int) else x for x in c.targs])
            if recv(e, st, c) != init("EXT"): return [(NONE, None)]
            if "ReasonPhrase" in t: return [(NONE, ("reason", False))] + ([(some(sref("REASON")), ("reason", True))] if reason else [])
            if "HeaderCaseMap" in t: return [(some(sref("CASEMAP")) if case else NONE, ("case", bool(case)))]
            return [(NONE, None), (some(sref("EXTVAL")), None)]
        if m == "take" and "mem" in s: return None
        if m == "as_str" and "StatusCode" in s: return [(cref_(("sym", T("statusstr", e.snapshot(st, outlib.strip(e, st, c.args[0]))))), None)]
        if m == "canonical_reason": return [(some(cref_(("sym", T("canonical", e.snapshot(st, outlib.strip(e, st, c.args[0])))))), ("canon", True))] + ([(NONE, ("canon", False))] if reason else [])
        if m == "format" and "itoa" in s: return [(cref_(("sym", T("dec", e.snapshot(st, c.args[1])))), None)]
        if m in ("with", "try_with") and "LocalKey" in s:
            return ("states", hdrlib.clo(e, st, c, c.args[1], [sref("DATECACHE")], lambda e, s2, v: e.finish(s2, c.dest, c.target, v)))
        if m in ("borrow", "borrow_mut") and recv(e, st, c) == init("DATECACHE"): return [(("ref", (cell("DATECACHE"), ()), 0), None)]
        if c.fn is not None and c.fn.local and c.fn.n.split("::")[-1] == "title_case": return [(UNIT, ("w", ("title", outlib.seg(e, st, c.args[1]))))]
        if m in ("eq", "ne") and len(c.args) == 2 and "HeaderName" in s:
            a, b = [outlib.the_name(e, st, outlib.strip(e, st, x)) for x in c.args]
            if isinstance(a, str) and isinstance(b, str): return [(TRUE if (a == b) == (m == "eq") else FALSE, None)]
        return None
    return (lambda c, e, st: True, h)

def cref_(v): return hdrlib.cref(v)

def encode(ctx, P, method, ver, body, classes, maxl=2, maxv=2, case=False, title=False, reason=False, status=None, date=TRUE, ka=KA, cap=2):
    f = P.trait_method("proto::h1::role::Server", "Http1Transaction", "encode")
    fixed = status
    if isinstance(status, int): status = code(status)
    mh, enc = P.adt("proto::MessageHead"), P.adt("proto::h1::Encode")
    head = mk(P, mh, version=c06.version(P, ver), subject=STATUS if status is None else status, headers=outlib.HMAP, extensions=init("EXT"))
    R = Rec([srv_handlers(P, case, reason)] + outlib.map_handlers(P, lazy=(classes, maxl, maxv)) + [outlib.iter_extra(P), outlib.value_handlers(P), outlib.H.str_handlers()] + hdrlib.iter_handlers(), limit=300)
    e = ctx.engine(rule=R); e.widen_from = maxl + 6
    hp = {cell("head"): head, cell("reqm"): NONE if method is None else some(c02.http_method(P, method)), cell("dst"): DST, cell("REASON"): init("REASON"), cell("CASEMAP"): init("CASEMAP"), cell("DATECACHE"): init("DATECACHE"), cell("EXTVAL"): init("EXTVAL")}
    old = hdrlib.CAP; hdrlib.CAP = cap
    try:
        e.run(f, [mk(P, enc, head=mref("head"), body=c12.body_value(P, body), keep_alive=ka, req_method=mref("reqm"), title_case_headers=TRUE if title else FALSE, date_header=date), mref("dst")],
              heap=hp, facts={N[1]: ("rng", 1, 2**64 - 1, frozenset()), KA[1]: ("rng", 0, 1, frozenset())})
    finally: hdrlib.CAP = old
    if R.stopped: raise mir.AnchorError("encoder paths stopped")
    rs = [Resp(e, st, v) for st, v in e.finals]
    for r in rs: r.method, r.ver, r.body, r.P, r.fixed, r.status = method, ver, body, P, fixed, STATUS if status is None else status
    return [r for r in rs if r.possible()]

def code(n):
    return ("adt", "http::StatusCode", 0, "StatusCode", (("adt", "std::num::NonZero", 0, "NonZero", (("adt", "core::num::niche_types::NonZeroU16Inner", 0, "NonZeroU16Inner", (("int", n),)),)),))

class Resp(Out):
    def inp(s): return [(x[2], s.hval(x[1])) for x in s.ev if x[0] == "line"]
    def of(s, name): return [v for n, v in s.inp() if n == name]
    def range(s): return c02.codes(s) if s.fixed is None else (s.fixed, s.fixed)
    def isv(s, a, b): lo, hi = s.range(); return lo >= a and hi <= b
    def notin(s, a, b):
        lo, hi = s.range()
        return hi < a or lo > b or all(c02.excluded(s, k) for k in range(max(a, lo), min(b, hi) + 1)) if b - a < 3 else hi < a or lo > b
    def nobody(s):
        """True / False / None: the response has no body whatever its headers"""
        if s.method == "Head": return True
        if s.isv(100, 199) or s.isv(204, 204) or s.isv(304, 304): return True
        if s.method == "Connect" and s.isv(200, 299): return True
        if s.notin(100, 199) and s.notin(204, 204) and s.notin(304, 304) and (s.method != "Connect" or s.notin(200, 299)): return False
        return None
    def desc(s): return "%d..%d answer to %s, %s, body %s, lines %s %s" % (s.range() + (s.method or "an unread request", s.ver, s.body, [n for n, _ in s.inp()], s.text()))
    def segs(s):
        """what is in the output at the end; None if it was rewound to the start"""
        out = []
        for x in s.ev:
            if x[0] == "w": out.append(x[1])
            elif x[0] == "trunc": out = None if x[1] == ("sym", T("dstlen", 0)) else [("?", x[1])]
            if out is None: out = []
        return out
    def rewound(s):
        w = [x for x in s.ev if x[0] in ("w", "trunc")]
        return not w or w[-1][0] == "trunc" and w[-1][1] == ("sym", T("dstlen", 0))
    def parsed(s):
        """(status line, [(name, value, spelling)]) or a description of what is wrong"""
        W = wire(s.segs())
        if W is None: return "a literal contains a stray CR or LF"
        lines, rest = W
        if rest or not lines or lines[-1] or not all(lines[:-1]): return "it is not a status line, header lines and one empty line: %s %s" % (lines, rest)
        hs = [field(l) for l in lines[1:-1]]
        if not all(hs): return "a header line has no name and value: %s" % [l for l, h in zip(lines[1:-1], hs) if not h]
        return lines[0], hs
    def encoder(s):
        v = unwrap(s.v, "Ok")
        return (None, None) if v is None else c12.kind(s.P, s, v)
    def last(s):
        v = unwrap(s.v, "Ok")
        return fget(s.P, s.st, v, s.P.adt("proto::h1::encode::Encoder"), "is_last", eng=s.e)

def isdate(g): return g[0] == "?" and init("DATECACHE")[1] in terms_in(g[1])
