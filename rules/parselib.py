"""HTTP/1 head parsing as abstract runs of <Server/Client as Http1Transaction>::parse.

The parser library is replaced by all its outcomes; the header lines are an arbitrary sequence (CAP per path) whose
names are forked into the framing-relevant classes of the run and 'other'.  Events, in order:
  ("parse", outcome) ("name", i, class) ("cmp", value, literal, bool, how) ("tostr", v, bool) ("digits", src, bool)
  ("mappend", name, value) ("mremove", name) ("mget", name) ("split", bool) ("reqmethod", v)"""
from rt import *
import hdrlib, h2streamlib as H
from hdrlib import UN, IT, elem, strip, cref, emit
OBSFOLD = False
LINE, PARSED = init("LINE_LEN"), init("HEAD_LEN")
STD = {"transfer-encoding": "TransferEncoding", "content-length": "ContentLength", "connection": "Connection", "expect": "Expect", "upgrade": "Upgrade", "trailer": "Trailer", "date": "Date", "te": "Te", "host": "Host"}

def std_name(P, n):
    hn, rp, sh = P.adt("http::HeaderName"), next(a for p, a in P.adts.items() if p.endswith("header::name::Repr")), next(a for p, a in P.adts.items() if p.endswith("StandardHeader"))
    s = ("adt", sh["path"], sh["vix"][STD[n]], STD[n], ())
    return ("adt", hn["path"], 0, hn["variants"][0][0], (("adt", rp["path"], rp["vix"]["Standard"], "Standard", (s,)),))
def custom_name(P, tag):
    hn, rp = P.adt("http::HeaderName"), next(a for p, a in P.adts.items() if p.endswith("header::name::Repr"))
    return ("adt", hn["path"], 0, hn["variants"][0][0], (("adt", rp["path"], rp["vix"]["Custom"], "Custom", (init("CUSTOM_%s" % tag),)),))

DIGITS = (("adt", "std::option::Option", (("prim", "u64"),)), ("ref", 0, ("slice", ("prim", "u8"))))
def is_digits(P, f):
    """the local byte-string-to-number function"""
    return f is not None and f.local and f.argc == 1 and (P.ty(f.locals[0][0]), P.ty(f.locals[1][0])) == DIGITS

def find_elem(v):
    """index of the header line a value was cut from"""
    r = [TERMS[t][2] for t in terms_in(v) if TERMS[t][0] == "elem" and TERMS[t][1] == "lines"]
    return r[0] if len(set(r)) == 1 else None

def handlers(P, classes, roletype):
    hd = ("adt", "std::mem::MaybeUninit")
    def ext(e, st, c):
        m = c.mname; s = c.short
        if s.startswith("smallvec::") or "SmallVec" in s:
            if m in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut"): return [(c.args[0], None)]
            if m in ("index", "index_mut") and len(c.args) == 2:
                emit(st, ("cut", e.snapshot(st, c.args[1])))
                v = strip(e, st, c.args[0])
                return [(cref(UN("lines")), None)]
            if m in ("from_elem", "from_buf", "from_buf_and_len_unchecked", "from_const", "from_const_with_len_unchecked", "new", "from"): return [(("sym", T("svec", *[e.snapshot(st, a) for a in c.args])), ("svec", tuple(e.snapshot(st, a) for a in c.args)))]
        if m in ("parse_request_with_uninit_headers", "parse_response_with_uninit_headers", "parse", "parse_with_uninit_headers"):
            a = P.adt("httparse::Request") if "request" in m else P.adt("httparse::Response")
            p = e.deref_path(c.args[1])
            E = P.adt("httparse::Error"); S = P.adt("httparse::Status")
            req = "request" in m
            outs = []
            def with_(**fl):
                def k(s):
                    v = mk(P, a, **fl); e.write(s, p, v); return v
                return k
            full = dict(path=some(init("TARGET")), method=some(init("METHOD_STR")), version=some(("int", 1)), headers=init("HEADERS")) if req else dict(code=some(init("CODE")), reason=some(init("REASON")), version=some(("int", 1)), headers=init("HEADERS"))
            slots = e.snapshot(st, strip(e, st, c.args[-1]))
            comp = ok(("adt", S["path"], S["vix"]["Complete"], "Complete", (PARSED,)))
            part = ok(("adt", S["path"], S["vix"]["Partial"], "Partial", ()))
            def mkout(val, name, fl):
                def k(s):
                    e.write(s, p, mk(P, a, **fl)); return val
                return (k, ("parse", name, slots))
            for ver in (1, 0): outs.append(mkout(comp, "v1%d" % ver, dict(full, version=some(("int", ver)))))
            outs.append(mkout(part, "partial", full))
            for v in E["variants"]:
                er = err(("adt", E["path"], E["vix"][v[0]], v[0], ()))
                if v[0] == "Token" and req:
                    outs.append(mkout(er, "Token/method", dict(full, method=NONE, path=NONE)))
                    outs.append(mkout(er, "Token/uri", dict(full, path=NONE)))
                else: outs.append(mkout(er, v[0], full))
            return outs
        if m == "obsolete_multiline_headers_in_responses_are_allowed": return [(FALSE, None)] if not OBSFOLD else [(TRUE, ("obsfold", True)), (FALSE, ("obsfold", False))]
        if m in ("assume_init_ref", "assume_init_mut", "assume_init_read"): return [(c.args[0], None)]
        if m == "split_to" and c.args: return [(init("HEAD_BYTES"), ("split", e.snapshot(st, c.args[1])))]
        if m == "freeze": return [(strip(e, st, c.args[0]), None)]
        if m == "unwrap_or_default" and c.args and c.args[0][0] != "adt": return [(init("HMAP"), None)]
        if m == "slice" and len(c.args) == 2 and "Bytes" in s: return [(("sym", T("cut", e.snapshot(st, c.args[0]), e.snapshot(st, c.args[1]))), None)]
        if m == "index" and len(c.args) == 2 and (c.fn is None or not c.fn.local):
            x = e.snapshot(st, c.args[1])
            if find_elem(x) is not None or strip(e, st, c.args[0]) == init("HEAD_BYTES"): return [(("ref", (("C", ("sym", T("cut", e.snapshot(st, c.args[0]), x))), ()), 0), None)]
            if x[0] == "adt" and x[1].endswith("RangeTo"):
                emit(st, ("cut", x))
                return [(cref(UN("lines")), None)]
            return None
        if s.endswith("HeaderName::from_bytes"):
            i = find_elem(e.snapshot(st, c.args[0]))
            if i is None: return None
            outs = [(ok(std_name(P, n)), ("name", i, n)) for n in classes]
            outs.append((ok(custom_name(P, i)), ("name", i, "other")))
            outs.append((err(init("BAD_NAME")), ("name", i, "invalid")))
            return outs
        if m in ("from_maybe_shared_unchecked", "from_maybe_shared", "from_bytes") and "HeaderValue" in s:
            i = find_elem(e.snapshot(st, c.args[0]))
            if i is None: return None
            v = ("sym", T("hval", i))
            return [(v, None)] if m.endswith("unchecked") else [(ok(v), None), (err(init("BAD_VALUE")), ("name", i, "invalid"))]
        if s.endswith("Method::from_bytes"): return [(ok(init("METHOD")), None), (err(init("BAD_METHOD")), ("bad", "method"))]
        if "Uri" in s and m in ("from_maybe_shared", "from_shared", "try_from"): return [(ok(init("URI")), None), (err(init("BAD_URI")), ("bad", "uri"))]
        if s.endswith("StatusCode::from_u16"): return [(ok(init("STATUS")), None), (err(init("BAD_STATUS")), ("bad", "status"))]
        if m in ("eq", "ne") and len(c.args) == 2 and "Method" in s:
            a, b = [strip(e, st, x) for x in c.args]
            lit = next((x for x in (a, b) if x[0] == "adt" and x[1].endswith("Method")), None)
            oth = b if lit is a else a
            if lit is None or oth[0] == "adt": return None
            nm = lit[4][0][3].upper() if lit[4] else "?"
            y, n = (TRUE, FALSE) if m == "eq" else (FALSE, TRUE)
            pr = [x for x in (st.aut or ()) if x[0] == "method" and x[1] == nm]
            if pr: return [(y if pr[-1][2] else n, None)]
            if any(x[0] == "method" and x[2] for x in (st.aut or ())): return [(n, None)]
            return [(y, ("method", nm, True)), (n, ("method", nm, False))]
        if m == "as_bytes" and c.args:
            x = strip(e, st, c.args[0])
            if x[0] == "sym": return [(c.args[0], None)]
        if c.fn is not None and c.fn.local and m == "record_header_indices":
            E = P.adt("error::Parse")
            return [(ok(UNIT), None), (err(("adt", E["path"], E["vix"]["TooLarge"], "TooLarge", ())), ("bad", "indices"))]
        if is_digits(P, c.fn):
            src = H.norm(e.snapshot(st, strip(e, st, c.args[0])))
            n = ("sym", T("digits", src))
            st.facts.setdefault(n[1], ("rng", 0, 2**64 - 1, frozenset()))
            pr = [x for x in (st.aut or ()) if x[0] == "digits" and x[1] == src]
            o = [(some(n), ("digits", src, True)), (NONE, ("digits", src, False))]
            if pr: return [(o[0 if pr[-1][2] else 1][0], None)]
            return o
        if m == "rsplit" and "str" in s:
            x = e.snapshot(st, c.args[0])
            return [(UN(("rsplit", H.norm(x), e.snapshot(st, c.args[1])), True), None)]
        if m == "canonical_reason": return [(("sym", T("canonical")), None)]
        if m == "copy_from_slice" and "Bytes" in s: return [(("sym", T("copied", H.norm(e.snapshot(st, strip(e, st, c.args[0]))))), None)]
        if m == "insert" and "Extensions" in s: return [(NONE, ("extinsert", e.snapshot(st, c.args[1])))]
        if m == "callback_call": return None
        return None
    def hmap(e, st, c):
        """the map under construction: its content is what was appended on this path"""
        if not (c.short.startswith("http::HeaderMap") or c.short.startswith("http::header::map::HeaderMap")) or not c.args: return None
        m = c.mname
        name = hdrlib.hname(e, st, c.args[1]) if len(c.args) > 1 and m not in ("reserve", "try_reserve") else None
        if name is not None and not isinstance(name, str): name = next((x[2] if x[2] != "other" else "other:%d" % x[1] for x in reversed(st.aut or ()) if x[0] == "name"), "?")
        cont = content(st)
        vals = [v for n, v in cont if n == name]
        if FULL and m in ("try_append", "try_reserve", "try_insert"):
            return [(ok(UNIT if m == "try_reserve" else TRUE if m == "try_append" else NONE), ("mappend", name, UNIT) if m != "try_reserve" else None), (err(init("MAP_FULL")), ("mapfull", m))]
        if m in ("append", "try_append"): return [((TRUE if m == "append" else ok(TRUE)), ("mappend", name, e.snapshot(st, strip(e, st, c.args[2]))))]
        if m in ("insert", "try_insert"): return [((NONE if m == "insert" else ok(NONE)), ("minsert", name, e.snapshot(st, strip(e, st, c.args[2]))))]
        if m == "remove": return [(some(vals[0]) if vals else NONE, ("mremove", name))]
        if m == "get_all": return [(IT([cref(v) for v in vals]), None)]
        if m == "get": return [(some(cref(vals[0])) if vals else NONE, None)]
        if m == "contains_key": return [(TRUE if vals else FALSE, None)]
        if m in ("reserve", "try_reserve"): return [(UNIT if m == "reserve" else ok(UNIT), None)]
        if m == "clear": return [(UNIT, ("mclear",))]
        return None
    return [(lambda c, e, st: True, ext), (lambda c, e, st: True, hmap), H.str_handlers()] + hdrlib.iter_handlers()

FULL = False   # explore the map-is-full outcome of the fallible operations of HeaderMap

def content(st):
    out = []
    for x in st.aut or ():
        if x[0] == "mappend": out.append((x[1], x[2]))
        elif x[0] == "minsert": out = [y for y in out if y[0] != x[1]] + [(x[1], x[2])]
        elif x[0] == "mremove": out = [y for y in out if y[0] != x[1]]
        elif x[0] == "mclear": out = []
    return out

class Run:
    def __init__(s, e, st, v): s.e, s.st, s.v, s.ev = e, st, v, tuple(st.aut or ())
    def get(s, tag): return [x for x in s.ev if x[0] == tag]
    def outcome(s): return next((x[1] for x in s.ev if x[0] == "parse"), None)
    def lines(s): return [(x[1], x[2]) for x in s.ev if x[0] == "name"]
    def hval(s, i): return ("sym", T("hval", i))
    def text(s):
        o = []
        for x in s.ev:
            if x[0] == "name": o.append("line %d: %s" % (x[1], x[2]))
            elif x[0] == "cmp": o.append("%s %s %r" % (show(x[1])[:40], "=" if x[3] else "!=", x[2]))
            elif x[0] == "digits": o.append("%s %s" % (show(x[1])[:30], "is a number" if x[2] else "is no number"))
            elif x[0] in ("parse", "bad", "tostr", "mremove", "method", "obsfold"): o.append(" ".join(show(y)[:30] if isinstance(y, tuple) else str(y) for y in x[:3]))
        return "[" + "; ".join(o) + "] -> " + show(s.v)[:160]
    # -- meaning of values on this path (True / False / None = not determined)
    def str_of(s, v):
        t = [x for x in s.ev if x[0] == "tostr" and x[1] == v]
        return None if not t else t[-1][2]
    def root(s, v):
        """(kind, value, index, trimmed) a compared operand was derived from"""
        trimmed = False
        while v[0] == "sym":
            t = TERMS[v[1]]
            if t[0] == "trim": trimmed = True; v = t[1]
            elif t[0] in ("trim_start", "trim_end", "trim_matches"): return None
            elif t[0] == "deref": v = t[1]
            elif t[0] == "elem":
                tag = t[1]
                if isinstance(tag, tuple) and tag[0] in ("split", "rsplit"):
                    b = H.norm(tag[1])
                    if b[0] == "sym" and TERMS[b[1]][0] == "str": return (tag[0], TERMS[b[1]][1], t[2], trimmed, tag)
                return None
            elif t[0] in ("str",): return ("whole", t[1], 0, trimmed, None)
            elif t[0] == "hval": return ("whole", v, 0, trimmed, None)
            else: return None
        if v[0] == "rf": return s.root(v[1])
        return None
    def items(s, v):
        """{(direction, index): {needle: bool}}, ends {direction: n}"""
        it, ends = {}, {}
        for x in s.ev:
            if x[0] == "cmp":
                r = s.root(x[1])
                if r and r[1] == v and r[0] in ("split", "rsplit") and r[3] and x[4] == "eq_ignore_ascii_case": it.setdefault((r[0], r[2]), {})[x[2].lower()] = x[3]
            if x[0] == "end" and isinstance(x[1], tuple) and x[1][0] in ("split", "rsplit"):
                b = H.norm(x[1][1])
                if b[0] == "sym" and TERMS[b[1]] [0] == "str" and TERMS[b[1]][1] == v and x[1][2] in (("int", 44), ("str", ",")): ends[x[1][0]] = x[2]
        return it, ends
    def has(s, v, needle):
        """does the comma separated list v contain the token"""
        so = s.str_of(v)
        if so is False: return False
        it, ends = s.items(v)
        for k, d in it.items():
            if any(b and n == needle for n, b in d.items()): return True
        for d, n in ends.items():
            if all(it.get((d, i), {}).get(needle) is False or any(b for m, b in it.get((d, i), {}).items() if m != needle) for i in range(n)): return False
        return None
    def last_is(s, v, needle):
        so = s.str_of(v)
        if so is False: return False
        it, ends = s.items(v)
        d = it.get(("rsplit", 0))
        if d and needle in d: return d[needle]
        if "split" in ends and ends["split"]: return it.get(("split", ends["split"] - 1), {}).get(needle)
        return None

def ctx_value(P, **kw):
    C = P.adt("proto::h1::ParseContext")
    d = dict(cached_headers=mref("cached"), req_method=mref("reqm"), h1_parser_config=init("PCONF"), h1_max_headers=init("MAXH"), preserve_header_case=FALSE)
    names = [f[0] for f in C["variants"][0][2]]
    if "h09_responses" in names: d["h09_responses"] = FALSE
    if "on_informational" in names: d["on_informational"] = mref("oninf")
    if "preserve_header_order" in names: d["preserve_header_order"] = FALSE
    d.update(kw)
    for k in d:
        if k not in names: raise mir.AnchorError("ParseContext." + k)
    return mk(P, C, **d)

def run_parse(ctx, role, classes, cap=2, cfg="a", limit=120, extra=(), **kw):
    P = ctx.prog(cfg)
    f = P.trait_method("proto::h1::role::" + role, "Http1Transaction", "parse")
    old = hdrlib.CAP; hdrlib.CAP = cap
    try:
        R = Rec(list(extra) + handlers(P, classes, role), limit=limit)
        e = ctx.engine(cfg, rule=R); e.widen_from = cap + 4
        e.run(f, [mref("buf"), ctx_value(P, **kw)], heap={cell("buf"): init("BUF"), cell("cached"): NONE, cell("reqm"): init("REQ_METHOD"), cell("oninf"): NONE})
    finally: hdrlib.CAP = old
    return [Run(e, st, v) for st, v in e.finals], R
