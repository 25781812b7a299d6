"""Outgoing HTTP/1 heads: header maps with known lines and writable values, byte sinks as segment lists.

The header map is a list of lines kept in st.aut: ("m+", name, k) adds a line whose value lives in heap cell ("B",("mv",k)),
("m-", name) removes a name, ("m0",) empties the map.  Bytes written to the output are ("w", segment); ("trunc", where) rewinds it.
A segment is ("lit", bytes) ("val", value) ("name", name) ("orig", i) ("title", segment) ("dec", value) ("status",) ("reason", v) ("date",) ("cat", segs)."""
from rt import *
import parselib, hdrlib, c06, c02
import h2streamlib as H
from hdrlib import UN, IT, strip, cref, emit
from c10 import lit

CLASSES = ("content-length", "transfer-encoding", "connection", "date", "trailer", "other")
DST, HMAP, EMPTY = init("DST"), init("HMAP"), init("EMPTY_MAP")

def mvcell(k): return ("B", ("mv", k))
def content(st):
    """[(name, value now)]"""
    out = []
    for x in st.aut or ():
        if x[0] == "m+": out.append((x[1], x[2]))
        elif x[0] == "m-": out = [y for y in out if y[0] != x[1]]
        elif x[0] == "m0": out = []
    return out
def values(e, st, name): return [e.read(st, (mvcell(k), ())) for n, k in content(st) if n == name]
def newkey(st): return sum(1 for x in st.aut or () if x[0] == "m+")
def put(st, name, v):
    k = newkey(st); st.heap[mvcell(k)] = v
    emit(st, ("m+", name, k))
    return k

def start(lines):
    """(heap, aut) of a map that holds these lines; the values are arbitrary"""
    hp, au = {}, []
    for k, n in enumerate(lines):
        hp[mvcell(k)] = ("sym", T("hval", k)); au.append(("m+", n, k))
    return hp, tuple(au)

def is_map(c): return c.short.startswith("http::HeaderMap") or c.short.startswith("<http::HeaderMap") or c.short.startswith("http::header::map::HeaderMap")
def the_name(e, st, v):
    n = hdrlib.hname(e, st, v)
    if isinstance(n, str): return n
    x = n[1]
    while x[0] in ("rf",): x = x[1]
    if x[0] == "sym" and TERMS[x[1]][0] == "init" and TERMS[x[1]][1].startswith("CUSTOM_"): return TERMS[x[1]][1][7:]
    return ("?", x)

def map_handlers(P, lazy=None):
    """lazy: (classes, max lines, max values per name): the map's content is produced line by line when it is drained"""
    EN = P.adt("http::header::Entry") if any(p.endswith("header::Entry") for p in P.adts) else next(a for p, a in P.adts.items() if p.endswith("header::map::Entry"))
    def ref(k, mut=1): return ("ref", (mvcell(k), ()), mut)
    def op(e, st, c):
        if not c.args:
            return [(EMPTY, None)] if is_map(c) and c.mname in ("default", "new") else None
        r = recv(e, st, c); m = c.mname
        if r == EMPTY and c.dest is not None:
            if m in ("drain", "iter", "into_iter", "keys", "get_all", "values"): return [(IT([]), None)]
            if m in ("get", "remove", "get_mut"): return [(NONE, None)]
            if m == "len": return [(("int", 0), None)]
            if m in ("contains_key", "is_empty"): return [(TRUE if m == "is_empty" else FALSE, None)]
        if r != HMAP:
            if is_map(c) and m in ("get_all", "get_all_internal"): return [(UN(("case", the_name(e, st, c.args[1]))), None)]
            return None
        name = the_name(e, st, c.args[1]) if len(c.args) > 1 and m not in ("reserve", "try_reserve", "extend", "default") else None
        cont = content(st)
        ks = [k for n, k in cont if n == name]
        if m in ("append", "try_append"):
            put(st, name, e.snapshot(st, c.args[2]))
            return [(TRUE if m == "append" else ok(TRUE), None)]
        if m in ("insert", "try_insert"):
            emit(st, ("m-", name)); put(st, name, e.snapshot(st, c.args[2]))
            return [(NONE if m == "insert" else ok(NONE), None)]
        if m == "remove":
            r = some(e.read(st, (mvcell(ks[0]), ()))) if ks else NONE
            emit(st, ("m-", name)); return [(r, None)]
        if m == "get_all": return [(IT([ref(k, 0) for k in ks]), None)]
        if m in ("get", "get_mut"): return [(some(ref(ks[0], m == "get_mut")) if ks else NONE, None)]
        if m == "contains_key": return [(TRUE if ks else FALSE, None)]
        if m in ("reserve",): return [(UNIT, None)]
        if m == "len": return [(init("MAP_LEN"), None)] if lazy else [(("int", len(cont)), None)]
        if m == "is_empty": return None if lazy else [(TRUE if not cont else FALSE, None)]
        if m == "clear": emit(st, ("m0",)); return [(UNIT, None)]
        if m in ("entry", "try_entry"):
            tok = ("adt", "$OEnt", 0, "occ" if ks else "vac", (("str", name) if isinstance(name, str) else name[1],))
            r = ("adt", EN["path"], EN["vix"]["Occupied" if ks else "Vacant"], "Occupied" if ks else "Vacant", (tok,))
            return [(r if m == "entry" else ok(r), None)]
        if m == "drain":
            if lazy: return [(("adt", "$Lines", 0, "drain", (("int", 0), ("str", ""), ("int", 0), ("str", ""))), ("drained",))]
            out, last = [], None
            for n, k in sorted(cont, key=lambda x: [y for y, _ in cont].index(x[0])):
                out.append(("tup", (some(namev(P, n)) if n != last else NONE, e.read(st, (mvcell(k), ()))))); last = n
            emit(st, ("m0",)); return [(IT(out), None)]
        if m in ("iter", "into_iter", "iter_mut") and not lazy:
            o = [n for n, _ in cont]
            return [(IT([("tup", (cref(namev(P, n)), ref(k, m == "iter_mut"))) for n, k in sorted(cont, key=lambda x: o.index(x[0]))]), None)]
        if m == "keys" and not lazy:
            seen = []
            for n, _ in cont:
                if n not in seen: seen.append(n)
            return [(IT([cref(namev(P, n)) for n in seen]), None)]
        return None
    def entry(e, st, c):
        if not c.args: return None
        x = strip(e, st, c.args[0])
        if x[0] == "adt" and x[1].endswith("Entry") and len(x[4]) == 1: x = strip(e, st, x[4][0])
        if not (x[0] == "adt" and x[1] == "$OEnt"): return None
        name = x[4][0][1] if x[4][0][0] == "str" else ("?", x[4][0])
        m = c.mname; ks = [k for n, k in content(st) if n == name]
        if m in ("iter", "iter_mut", "into_iter"): return [(IT([ref(k, m != "iter") for k in ks]), None)]
        if m in ("get", "get_mut", "into_mut"): return [(ref(ks[0]), None)]
        if m in ("insert", "or_insert", "insert_entry", "try_insert", "insert_mult"):
            if m == "or_insert" and ks: return [(ref(ks[0]), None)]
            v = e.snapshot(st, c.args[1]); old = e.read(st, (mvcell(ks[0]), ())) if ks else None
            emit(st, ("m-", name)); k = put(st, name, v)
            return [(old if ks else ref(k), None)]
        if m == "or_insert_with":
            if ks: return [(ref(ks[0]), None)]
            def k(e, s, v):
                q = put(s, name, v)
                return e.finish(s, c.dest, c.target, ref(q))
            return ("states", hdrlib.clo(e, st, c, c.args[1], [], k))
        if m == "append": put(st, name, e.snapshot(st, c.args[1])); return [(UNIT, None)]
        if m in ("remove", "remove_entry", "remove_entry_mult"):
            old = e.read(st, (mvcell(ks[0]), ())) if ks else UNIT
            emit(st, ("m-", name)); return [(old, None)]
        return None
    def lines(e, st, c):
        """a map drained line by line: a new name not used before, another value of the current name, or the end"""
        if not lazy or not c.args: return None
        if c.mname in ("into_iter", "by_ref", "iter"):
            x = strip(e, st, c.args[0])
            return [(x, None)] if x[0] == "adt" and x[1] == "$Lines" else None
        if c.mname != "next": return None
        p, v, n = None, c.args[0], 0
        while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
        if not (v[0] == "adt" and v[1] == "$Lines"): return None
        cls, maxl, maxv = lazy
        k, cur, nv, used = v[4][0][1], v[4][1][1], v[4][2][1], v[4][3][1]
        outs = [(NONE, ("lines-end", k))]
        def mkk(name, first, nv):
            def w(s):
                e.write(s, p, ("adt", "$Lines", 0, "drain", (("int", k + 1), ("str", name), ("int", nv), ("str", used + ("," + name if first else "")))))
                return some(("tup", (some(namev(P, name, k)) if first else NONE, ("sym", T("hval", k)))))
            return (w, ("line", k, name))
        if k < maxl:
            u = used.split(",")
            for nme in cls:
                if nme not in u: outs.append(mkk(nme, True, 1))
            if cur and nv < maxv: outs.append(mkk(cur, False, nv + 1))
        return outs
    return [(lambda c, e, st: True, lines), (lambda c, e, st: True, op), (lambda c, e, st: True, entry)]

def namev(P, n, k=0):
    if not isinstance(n, str): return n[1]
    return parselib.custom_name(P, n) if n not in parselib.STD else parselib.std_name(P, n)

def iter_extra(P):
    def it(e, st, c):
        if not c.args: return None
        m = c.mname
        if m == "next_back":
            p, v, n = None, c.args[0], 0
            while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
            if v[0] == "adt" and v[1] == "$It":
                if not v[4]: return [(NONE, None)]
                if p is not None: e.write(st, p, v[:4] + (v[4][:-1],))
                return [(some(v[4][-1]), None)]
            return None
        if m == "last":
            v = strip(e, st, c.args[0])
            if v[0] == "adt" and v[1] == "$It": return [(some(v[4][-1]) if v[4] else NONE, None)]
        if m in ("filter_map", "flat_map") and len(c.args) == 2:
            v = strip(e, st, c.args[0])
            if v[0] == "adt" and v[1].startswith("$"): return [(("adt", "$Lazy", 0, m, (v, c.args[1])), None)]
        if m in ("map", "filter", "copied", "cloned") and c.args:
            v = strip(e, st, c.args[0])
            if v[0] == "adt" and v[1] == "$Lazy": return [(("adt", "$Lazy", 0, m, (v,) + tuple(c.args[1:])), None)]
        if m in ("collect", "from_iter"):
            v = strip(e, st, c.args[0])
            if not (v[0] == "adt" and v[1] == "$Lazy"): return None
            src = v
            while src[0] == "adt" and src[1] == "$Lazy": src = src[4][0]
            if src[0] == "adt" and src[1] == "$It" and not src[4]: return [(("arr", ()), ("names", ()))]
            def done(s, items):
                emit(s, ("names", items))
                return e.finish(s, c.dest, c.target, ("arr", items))
            def step(e, s, itv, acc):
                def k(e, s, rest, x):
                    if x is None: return done(s, acc)
                    return step(e, s, rest, acc + (e.snapshot(s, x),))
                return pop(e, s, c, itv, k)
            return ("states", step(e, st, v, ()))
        if m in ("is_empty", "len") and c.args:
            v = strip(e, st, c.args[0])
            if v[0] == "arr" and "Vec" in c.short: return [((TRUE if not v[1] else FALSE) if m == "is_empty" else ("int", len(v[1])), None)]
        if m in ("extend",) and len(c.args) == 2:
            p, v, n = None, c.args[0], 0
            while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
            o = strip(e, st, c.args[1])
            if v[0] == "arr" and o[0] == "arr": e.write(st, p, ("arr", v[1] + o[1])); return [(UNIT, None)]
        if c.short.endswith("HeaderName::from_bytes") or (m in ("try_from", "from_str") and "HeaderName" in c.short):
            x = H.norm(e.snapshot(st, strip(e, st, c.args[0])))
            pr = [y for y in st.aut or () if y[0] == "isname" and y[1] == x]
            o = [(ok(("sym", T("hname", x))), ("isname", x, True)), (err(init("BAD_NAME")), ("isname", x, False))]
            if pr: return [(o[0 if pr[-1][2] else 1][0], None)]
            return o
        if m == "contains" and len(c.args) == 2:
            a, b = strip(e, st, c.args[0]), e.snapshot(st, strip(e, st, c.args[1]))
            if a[0] == "arr": return None
        return None
    return (lambda c, e, st: True, it)

def pop(e, st, c, itv, k):
    if not (itv[0] == "adt" and itv[1] == "$Lazy"): return hdrlib.popv(e, st, c, itv, k)
    kind = itv[3]
    again = lambda rest: itv[:4] + ((rest,) + itv[4][1:],)
    if kind == "flat_map" and itv[4][0][0] == "adt" and itv[4][0][1] == "$Sub":
        src, sub = itv[4][0][4]
        def k0(e, s, rest, x):
            if x is None: return pop(e, s, c, itv[:4] + ((src,) + itv[4][1:],), k)
            return k(e, s, itv[:4] + ((("adt", "$Sub", 0, "", (src, rest)),) + itv[4][1:],), x)
        return pop(e, st, c, sub, k0)
    def k1(e, s, rest, x):
        if x is None: return k(e, s, again(rest), None)
        if kind in ("copied", "cloned"): return k(e, s, again(rest), hdrlib.strip1(e, s, x))
        def k2(e, s, v):
            if kind == "map": return k(e, s, again(rest), v)
            if kind == "filter":
                out = []
                for b, s2 in bools(e, s, v): out += k(e, s2, again(rest), x) if b else pop(e, s2, c, again(rest), k)
                return out
            if kind == "filter_map":
                if is_adt(v, "None"): return pop(e, s, c, again(rest), k)
                if is_adt(v, "Some"): return k(e, s, again(rest), v[4][0])
                raise Limit("an optional item of an iterator is not decided")
            y = strip(e, s, v)
            return pop(e, s, c, itv[:4] + ((("adt", "$Sub", 0, "", (rest, y)),) + itv[4][1:],), k)
        return hdrlib.clo(e, s, c, itv[4][1], [x] if kind != "filter" else [cref(x)], k2)
    return pop(e, st, c, itv[4][0], k1)

# ------------------------------------------------------------------ values and bytes
def seg(e, st, v):
    b = lit(e, st, v)
    if b is not None: return ("lit", b)
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    if v[0] == "adt" and v[1].endswith("HeaderName"):
        x = the_name(e, st, v)
        return ("name", x if isinstance(x, str) else x[1])
    s = H.norm(e.snapshot(st, v))
    return vseg(s)

def vseg(s):
    if s[0] == "sym":
        t = TERMS[s[1]]
        if t[0] in ("static",): return ("lit", t[1])
        if t[0] == "deref" or t[0] == "call" and len(t) == 3 and str(t[1]).split("::")[-1] in ("deref", "as_ref"):
            x = t[-1]
            while x[0] == "rf": x = x[1]
            q = vseg(x)
            return q if q[0] != "?" else ("?", s)
        if t[0] == "hval": return ("val", s)
        if t[0] == "cat": return ("cat", t[1])
        if t[0] == "dec" or t[0] == "lenval": return ("dec", t[1])
        if t[0] == "hname": return ("name", s)
        if t[0] == "elem": return ("orig", s)
    return ("?", s)

def value_handlers(P):
    def h(e, st, c):
        m, s = c.mname, c.short
        if not c.args: return None
        if "HeaderValue" in s or c.mname in ("from", "into") and "HeaderValue" in str(c.targs):
            if m == "from_static": return [(("sym", T("static", lit(e, st, c.args[0]) or b"?")), None)]
            if m in ("from_maybe_shared", "from_bytes", "from_str", "try_from", "from_maybe_shared_unchecked"):
                x = strip(e, st, c.args[0])
                if x[0] == "adt" and x[1] == "$Buf":
                    v = ("sym", T("cat", x[4]))
                    return [(v if m.endswith("unchecked") else ok(v), None)]
                b = lit(e, st, c.args[0])
                if b is not None: return [(ok(("sym", T("static", b))), None)]
            if m == "from":
                x = e.snapshot(st, c.args[0])
                return [(("sym", T("lenval", x)), None)]
            if m == "is_empty":
                x = strip(e, st, c.args[0])
                if vseg(x)[0] in ("lit", "dec", "cat"): return [(FALSE, None)]
                pr = [y for y in st.aut or () if y[0] == "vempty" and y[1] == x]
                if pr: return [(TRUE if pr[-1][2] else FALSE, None)]
                return [(TRUE, ("vempty", x, True)), (FALSE, ("vempty", x, False))]
        if m in ("as_bytes", "as_str", "as_ref", "borrow", "clone") :
            x = strip(e, st, c.args[0])
            if x[0] == "sym" or x[0] == "adt" and (x[1].endswith("HeaderName") or x[1] == "$Buf"): return [(c.args[0] if m != "clone" else x, None)]
        if m == "len" and c.args:
            x = strip(e, st, c.args[0])
            if x == DST: return [(("sym", T("dstlen", len([y for y in st.aut or () if y[0] in ("w", "trunc")]))), None)]
            if x[0] == "sym" and TERMS[x[1]][0] in ("hval", "static", "cat", "lenval"): return [(("sym", T("vlen", x)), None)]
        if m in ("with_capacity", "new") and ("BytesMut" in s or "Vec" in s or "String" in s): return [(("adt", "$Buf", 0, "", ()), None)]
        if m in ("extend_from_slice", "put_slice", "put", "push_str", "extend", "write_all", "write_str") and len(c.args) == 2:
            p, v, n = None, c.args[0], 0
            while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
            if v[0] == "adt" and v[1] == "$Buf":
                e.write(st, p, v[:4] + (v[4] + (seg(e, st, c.args[1]),),)); return [(UNIT, None)]
            if v == DST: return [(UNIT if m not in ("write_all", "write_str") else ok(UNIT), ("w", seg(e, st, c.args[1])))]
            return None
        if m == "push" and len(c.args) == 2 and strip(e, st, c.args[0]) == DST: return [(UNIT, ("w", ("byte", e.snapshot(st, c.args[1]))))]
        if m == "freeze":
            x = strip(e, st, c.args[0])
            if x[0] == "adt" and x[1] == "$Buf": return [(x, None)]
        if m in ("truncate", "set_len", "clear", "drain") and strip(e, st, c.args[0]) == DST:
            return [(UNIT, ("trunc", e.snapshot(st, c.args[1]) if len(c.args) > 1 else ("int", 0)))]
        if m == "reserve" and strip(e, st, c.args[0]) == DST: return [(UNIT, None)]
        if parselib.is_digits(P, c.fn):
            src = H.norm(e.snapshot(st, strip(e, st, c.args[0])))
            n = ("sym", T("digits", src))
            st.facts.setdefault(n[1], ("rng", 0, 2**64 - 1, frozenset()))
            pr = [x for x in (st.aut or ()) if x[0] == "digits" and x[1] == src]
            o = [(some(n), ("digits", src, True)), (NONE, ("digits", src, False))]
            if pr: return [(o[0 if pr[-1][2] else 1][0], None)]
            return o
        if m == "rsplit" and "str" in s:
            x = e.snapshot(st, c.args[0])
            return [(UN(("rsplit", H.norm(x), e.snapshot(st, c.args[1])), True), None)]
        if s.startswith("std::thread::LocalKey") or "LocalKey" in s: return None
        return None
    return (lambda c, e, st: True, h)

class Out(parselib.Run):
    def possible(s):
        """an empty value contains no number and no token"""
        for x in s.ev:
            if x[0] == "vempty" and x[2]:
                for y in s.ev:
                    if y[0] in ("digits", "cmp") and y[-1 if y[0] == "digits" else 3]:
                        q = s.root(y[1])
                        if q and q[1] == x[1]: return False
        return True
    """meaning of header values on a path, including those hyper made"""
    def lit(s, v):
        if v[0] == "sym" and TERMS[v[1]][0] == "static": return TERMS[v[1]][1]
        return None
    def last_chunked(s, v):
        b = s.lit(v)
        if b is not None: return b.split(b",")[-1].strip().lower() == b"chunked"
        t = TERMS[v[1]] if v[0] == "sym" else ("?",)
        if t[0] == "cat":
            tail = b""
            for g in reversed(t[1]):
                if g[0] != "lit": break
                tail = g[1] + tail
            if b"," in tail or all(g[0] == "lit" for g in t[1]): return tail.split(b",")[-1].strip().lower() == b"chunked"
            return None
        if t[0] == "hval": return s.last_is(v, "chunked")
        return False if t[0] == "lenval" else None
    def numbers(s, v):
        """(known to be only numbers, [terms], known not to be)"""
        if v[0] == "sym" and TERMS[v[1]][0] == "lenval": return True, [TERMS[v[1]][1]], False
        b = s.lit(v)
        if b is not None: return b.isdigit(), [("int", int(b))] if b.isdigit() else [], not b.isdigit()
        if v[0] == "sym" and TERMS[v[1]][0] == "hval":
            # a plain number: the whole value is digits, or it is cut at commas
            w = [x for x in s.ev if x[0] == "digits" and x[1] == v]
            if w: return w[-1][2], [("sym", T("digits", v))] if w[-1][2] else [], not w[-1][2]
            return c02.lengths(_View(s, v), 0)
        return False, [], False
    def text(s):
        o = []
        for x in s.ev:
            if x[0] == "line": o.append("line %d: %s" % (x[1], x[2]))
            elif x[0] == "cmp": o.append("%s %s %r" % (show(x[1])[:34], "=" if x[3] else "!=", x[2]))
            elif x[0] == "digits": o.append("%s %s" % (show(x[1])[:26], "is a number" if x[2] else "is no number"))
            elif x[0] == "tostr" and not x[2]: o.append("%s is not text" % show(x[1])[:20])
        return "[" + "; ".join(o) + "]"

class _View:
    def __init__(s, r, v): s.r, s.v, s.ev, s.st, s.e = r, v, r.ev, r.st, r.e
    def hval(s, i): return s.v
    def __getattr__(s, n): return getattr(s.r, n)

# ------------------------------------------------------------------ what is on the wire
def flat(segs):
    out = []
    for g in segs:
        if g[0] == "cat": out += flat(g[1])
        elif g[0] == "lit" and out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + g[1])
        elif g[0] == "lit" and not g[1]: pass
        else: out.append(g)
    m = []
    for g in out:
        if g[0] == "lit" and m and m[-1][0] == "lit": m[-1] = ("lit", m[-1][1] + g[1])
        else: m.append(g)
    return m

def wire(segs):
    """(lines, rest): segment lists between CRLFs; rest: what follows the last CRLF; None when a literal has a stray CR or LF"""
    lines, cur = [], []
    for g in flat(segs):
        if g[0] != "lit": cur.append(g); continue
        parts = g[1].split(b"\r\n")
        if any(b"\r" in p or b"\n" in p for p in parts): return None
        for i, p in enumerate(parts):
            if i: lines.append(cur); cur = []
            if p: cur.append(("lit", p))
    return lines, cur

def field(line):
    """(name, value segments, how the name is spelled) of a header line, None when it is not one"""
    for i, g in enumerate(line):
        if g[0] == "lit" and b":" in g[1]:
            a, b = g[1].split(b":", 1)
            n = line[:i] + ([("lit", a)] if a else [])
            if len(n) != 1: return None
            v = ([("lit", b[1:])] if b[:1] == b" " and len(b) > 1 else [] if b in (b"", b" ") else [("lit", b)]) + line[i + 1:]
            q, how = n[0], "name"
            if q[0] == "title": q, how = q[1], "title"
            if q[0] == "lit":
                if how == "name": how = "lit"
                return q[1].decode("latin1").lower(), v, how
            if q[0] == "name": return (q[1] if isinstance(q[1], str) else q[1]), v, how
            if q[0] == "orig":
                t = TERMS[q[1][1]]
                if isinstance(t[1], tuple) and t[1][0] == "case": return t[1][1], v, "orig"
            return None
    return None

def ends_chunked(r, v):
    """is the last coding of a Transfer-Encoding value (segments) chunked"""
    v = flat(v)
    tail = b""
    for i in range(len(v) - 1, -1, -1):
        if v[i][0] == "lit":
            tail = v[i][1] + tail
            if b"," in tail: return tail.split(b",")[-1].strip().lower() == b"chunked"
            continue
        if v[i][0] == "val" and not tail: return r.last_chunked(v[i][1])
        return None
    return tail.strip().lower() == b"chunked"

def chunked_twice(r, v):
    """is chunked added to a Transfer-Encoding value (segments) that ends in it already"""
    v = flat(v)
    return any(v[i][0] == "lit" and b"chunked" in v[i][1].lower() and v[i - 1][0] == "val" and r.last_chunked(v[i - 1][1]) is True for i in range(1, len(v)))

def value_numbers(r, v):
    """(known to be only numbers, terms, known not to be) of a Content-Length value (segments)"""
    v = flat(v)
    if len(v) == 1 and v[0][0] == "dec": return True, [v[0][1]], False
    if len(v) == 1 and v[0][0] == "val": return r.numbers(v[0][1])
    if len(v) == 1 and v[0][0] == "lit": return v[0][1].isdigit(), [("int", int(v[0][1]))] if v[0][1].isdigit() else [], not v[0][1].isdigit()
    return False, [], False
