"""Chunked decoder: the automaton extracted from Decoder::decode is compared, by a product
construction over value sets of the input byte, with the reference automaton of the chunked grammar."""
from rt import *

LEVEL = "other"
DIG = frozenset(b"0123456789abcdefABCDEF")
BUF0, BUFD, BYTE = init("BUF_eof"), init("BUF_data"), init("BYTE")
BUFLEN = init("BUFLEN")

class Step(Rule):
    """one read from the source per run: a second read ends the path"""
    def __init__(self): self.out = []
    def on_call(self, e, st, c):
        if c.mname == "read_mem" and (c.trait or "").endswith("MemRead"):
            if st.aut:
                self.out.append((st, "read", None)); return []
            st.aut = 1
            want = c.args[2]
            one = want == ("int", 1)
            outs = []
            for kind in ("pending", "err", "eof", "data"):
                s = st.fork()
                s.heap[cell("kind")] = ("tup", (("str", kind), want))
                if kind == "pending": v = PENDING
                elif kind == "err": v = ready(err(init("ioerr")))
                else: v = ready(ok(BUF0 if kind == "eof" else BUFD))
                if kind == "data":
                    s.facts[BYTE[1]] = ("in", frozenset(range(256)))
                    if one: s.heap[("H", BUFD[1])] = ("arr", (BYTE,)); s.facts[BUFLEN[1]] = ("in", frozenset((1,)))
                    else: s.heap[("H", BUFD[1])] = BUFD; s.facts[BUFLEN[1]] = ("rng", 1, 2**64 - 1, frozenset())
                outs += e.finish(s, c.dest, c.target, v)
            return outs
        b = c.args[0] if c.args else None
        while b is not None and b[0] == "ref": b = e.read(st, b[1])
        if b in (BUF0, BUFD):
            d = b == BUFD
            if c.mname in ("is_empty",): return e.finish(st, c.dest, c.target, FALSE if d else TRUE)
            if c.mname == "has_remaining": return e.finish(st, c.dest, c.target, TRUE if d else FALSE)
            if c.mname in ("len", "remaining"): return e.finish(st, c.dest, c.target, BUFLEN if d else ("int", 0))
            if c.mname in ("deref", "as_ref", "chunk", "borrow"):
                if not d: return e.finish(st, c.dest, c.target, ("ref", (("C", ("arr", ())), ()), 0))
                return e.finish(st, c.dest, c.target, ("ref", (("H", BUFD[1]), ()), 0))
        if c.short.startswith("httparse") and c.mname.startswith("parse_headers"):
            outs = []
            for kind, v in (("complete", ok(("adt", "httparse::Status", 0, "Complete", (init("PH"),)))), ("partial", ok(("adt", "httparse::Status", 1, "Partial", ()))), ("error", err(init("pherr")))):
                s = st.fork()
                s.heap[cell("parse")] = ("str", kind)
                outs += e.finish(s, c.dest, c.target, v)
            return outs
        # the trailer buffer: count the bytes appended
        if c.args and c.args[0][0] == "ref" and c.mname in ("put_u8", "extend_from_slice", "put_slice", "put", "push"):
            n = st.heap.get(cell("put"), ("tup", ()))
            st.heap[cell("put")] = ("tup", n[1] + (e.snapshot(st, c.args[1]),))
            return None
        return None

# reference automaton: state -> {byte class -> next}; "!" = error.  z: is the size zero
def ref(s, b):
    if s == "START": return "SIZE" if b in DIG else "!"
    if s == "SIZE":
        if b in DIG: return "SIZE"
        return {9: "LWS", 32: "LWS", 59: "EXT", 13: "SIZELF"}.get(b, "!")
    if s == "LWS": return {9: "LWS", 32: "LWS", 59: "EXT", 13: "SIZELF"}.get(b, "!")
    if s == "EXT": return {13: "SIZELF", 10: "!"}.get(b, "EXT")
    if s == "SIZELF": return "SIZED" if b == 10 else "!"
    if s == "BODYCR": return "BODYLF" if b == 13 else "!"
    if s == "BODYLF": return "START" if b == 10 else "!"
    if s == "LINE": return "ENDLF" if b == 13 else "FIELD"
    if s == "FIELD": return "FIELDLF" if b == 13 else "FIELD"
    if s == "FIELDLF": return "LINE" if b == 10 else "!"
    if s == "ENDLF": return "DONE" if b == 10 else "!"
    raise KeyError(s)

def run(ctx):
    P = ctx.prog()
    dec = P.fn("Decoder::decode")
    mkch = P.fn("Decoder::chunked")
    K = P.adt("proto::h1::decode::Kind")
    V = K["vix"]["Chunked"]
    fx = K["fix"][V]
    for n in ("chunk_len", "extensions_cnt", "trailers_buf", "trailers_cnt", "h1_max_headers", "h1_max_header_size"):
        if n not in fx: raise mir.AnchorError("field %s of Kind::Chunked" % n)
    kf = P.field_ix("proto::h1::decode::Decoder", 0, "kind")
    ctx.rule("automaton extraction: every path of Decoder::decode from one read to the next is a transition; the reachable product with the reference chunked automaton must agree on every byte (value sets over all 256 bytes)")
    ctx.rule("end of input or a transport error in any non-final state leaves decode with an error on every path")
    ctx.rule("size digits update the size to exactly 16*size+digit through checked arithmetic; chunk data reads are bounded by the size and subtract exactly what was read")
    ctx.rule("extension bytes, trailer fields and trailer bytes carry an upper bound on every continuing path, and only grow")

    # initial configuration
    e = ctx.engine()
    fin = e.run(mkch, [some(init("MAXH")), some(init("MAXB"))])
    if len(fin) != 1: raise mir.AnchorError("Decoder::chunked")
    d0 = fin[0][1]
    k0 = d0[4][kf]

    def norm(kind, zero):
        """abstract the counters of a configuration"""
        f = list(kind[4])
        f[fx["chunk_len"]] = ("int", 0) if zero is True else init("CL")
        f[fx["extensions_cnt"]] = init("EXT")
        f[fx["trailers_cnt"]] = init("TCNT")
        if is_adt(f[fx["trailers_buf"]], "Some"): f[fx["trailers_buf"]] = some(init("TB"))
        elif not is_adt(f[fx["trailers_buf"]], "None"): f[fx["trailers_buf"]] = init("TBUF")
        f[fx["h1_max_headers"]] = k0[4][fx["h1_max_headers"]]
        f[fx["h1_max_header_size"]] = k0[4][fx["h1_max_header_size"]]
        return kind[:4] + (tuple(f),)

    for n in ("chunk_len", "extensions_cnt", "trailers_cnt"):
        ctx.check(k0[4][fx[n]] == ("int", 0), "initial configuration", "init:" + n, "Decoder::chunked does not start with %s = 0" % n)
    ctx.check(k0[4][fx["trailers_buf"]] == NONE, "initial configuration", "init:trailers", "Decoder::chunked starts with a trailer buffer")

    CL, EXT, TCNT = init("CL"), init("EXT"), init("TCNT")
    start = (norm(k0, True), "START", True, False)   # config, ref state, size known zero, has trailers
    todo, seen = [start], {start}
    span = where(dec.span)
    while todo:
        conf, s, zero, tr = todo.pop()
        r = Step()
        e = ctx.engine(rule=r)
        D = ("adt", P.adt("proto::h1::decode::Decoder")["path"], 0, "Decoder", (conf,))
        facts = {}
        if zero is False: facts[CL[1]] = ("rng", 1, 2**64 - 1, frozenset())
        e.run(dec, [mref("self"), mref("cx"), mref("body")], heap={cell("self"): D}, facts=facts)
        for st, v in e.finals: r.out.append((st, "ret", v))
        covered = {}
        nkind = {}
        lab = "%s%s" % (s, "/trailers" if tr else "")
        for st, how, v in r.out:
            kv = st.heap.get(cell("kind"))
            kd = kv[1][0][1] if kv else "none"
            want = kv[1][1] if kv else None
            nkind[kd] = nkind.get(kd, 0) + 1
            isdata = how == "ret" and unwrap(v, "Ready", "Ok") is not None
            iserr = how == "ret" and unwrap(v, "Ready", "Err") is not None
            if how == "ret" and is_adt(v, "Ready") and not isdata and not iserr:
                # result value passed through opaquely
                isdata = True
            if kd == "none":
                # no read at all: only the final state may do that
                ctx.check(s == "DONE", "no read only when done", "noread:" + lab, "decode returns without reading in state %s (%s)" % (lab, show(v)[:80]))
                if s == "DONE" and not iserr:
                    ctx.ok("repeated end")
                continue
            if s == "DONE":
                ctx.bad("read-after-end", "decode reads more input after the chunked body ended"); continue
            if kd == "pending":
                ctx.check(how == "ret" and is_adt(v, "Pending"), "pending propagates", "pending:" + lab, "state %s: a pending read yields %s" % (lab, show(v)[:80] if v else how))
                continue
            if kd in ("err", "eof"):
                ctx.check(iserr, "EOF or transport error is an error", "%s:%s" % (kd, lab), "state %s: %s while reading the chunked body does not end in an error (%s)" % (lab, "end of input" if kd == "eof" else "a transport error", "continues" if how == "read" else show(v)[:100]))
                continue
            # data
            nk = e.read(st, (cell("self"), (("f", kf, "kind", None, None),)))
            if nk[0] == "ovr":
                nk = ("adt", K["path"], V, "Chunked", tuple(e.project(st, nk, ("f", i, f[0], "Chunked", V)) for i, f in enumerate(K["variants"][V][2])))
            if nk[0] != "adt" or nk[2] != V:
                ctx.bad("kind:" + lab, "state %s: decode leaves the chunked mode (%s)" % (lab, show(nk)[:80])); continue
            f = nk[4]
            ncl, next_, ntc, ntb = f[fx["chunk_len"]], f[fx["extensions_cnt"]], f[fx["trailers_cnt"]], f[fx["trailers_buf"]]
            oldcl = ("int", 0) if zero is True else CL
            if s == "BODY":
                # data read
                if iserr:
                    ctx.bad("body-err", "chunk data that was received is turned into an error"); continue
                lin = linear(want if want[0] != "adt" else want)
                ctx.check(how == "ret" and isdata and BUFD[1] in terms_in(v), "chunk data is delivered", "body-deliver", "chunk data read from the transport is not delivered to the reader")
                # requested amount never exceeds the remaining size
                ctx.check(want_bounded(want, CL), "data reads bounded by the chunk size", "body-want", "chunk data read asks for %s, which is not bounded by the remaining chunk size" % show(want)[:80])
                exp = lin_sub({CL: 1, 1: 0}, {BUFLEN: 1, 1: 0})
                got = linear(ncl)
                if ncl == ("int", 0) or st.val_int(ncl) == 0: 
                    # must follow from equality
                    okz = entails_le(st, CL, BUFLEN)
                else: okz = got is not None and lin_sub(got, exp) in ({}, {1: 0})
                ctx.check(okz, "size decreases by what was read", "body-rem", "after chunk data the remaining size is %s, not size minus bytes read" % show(ncl)[:80])
                z = st.val_int(ncl)
                if z is None:
                    lo = entails_le(st, ("int", 1), ncl)
                    hi = entails_le(st, ncl, ("int", 0))
                    z = 0 if hi else (1 if lo else None)
                if z is None:
                    ctx.bad("body-z", "after chunk data the decoder continues without knowing whether the chunk is complete"); continue
                nxt = (norm(nk, z == 0), "BODY" if z else "BODYCR", z == 0, tr)
                ctx.check(entails_same(next_, EXT) and ntc == TCNT, "counters kept", "cnt:" + lab, "chunk data resets a limit counter")
                push(todo, seen, nxt)
                continue
            if want != ("int", 1):
                ctx.bad("want:" + lab, "state %s reads %s bytes where one byte is due" % (lab, show(want)[:60])); continue
            bs, exact = value_set(st, BYTE)
            if not exact: ctx.bad("inexact:" + lab, "state %s: a branch on the input byte could not be decided" % lab); continue
            for b in sorted(bs):
                t = ref(s, b)
                covered.setdefault(b, []).append((iserr, t))
                nm = "%s byte 0x%02x" % (lab, b)
                if iserr:
                    if t == "!": ctx.ok("bytes rejected"); continue
                    # allowed errors: limits and overflow
                    okerr = (s in ("START", "SIZE") and overflow_path(st, e)) \
                        or (s == "EXT" and limit_path(st, EXT)) \
                        or (s in ("FIELD", "FIELDLF", "LINE", "ENDLF") and (limit_path(st, init("MAXB")) or limit_path(st, init("MAXH")) or limit_path(st, TCNT))) \
                        or (s == "FIELD" and b == 10) or (s == "ENDLF" and tr)
                    ctx.check(okerr, "bytes rejected only by a limit", "reject:" + lab + ":%02x" % b, "state %s: legal byte 0x%02x is rejected" % (lab, b))
                    continue
                if t == "!":
                    ctx.bad("accept:%s:%02x" % (lab, b), "state %s: byte 0x%02x is not allowed here by the chunked grammar but is accepted" % (lab, b)); continue
                ctx.ok("bytes accepted")
                # size arithmetic
                if s in ("START", "SIZE") and b in DIG:
                    got = linear(ncl)
                    dv = int(chr(b), 16)
                    okd = False
                    if got is not None:
                        # evaluate the coefficients with the byte fixed
                        cst = got.get(1, 0); cl = 0; good = True
                        for a, k in got.items():
                            if a == 1: continue
                            if a == CL: cl += k; continue
                            x = ev(a, {BYTE: b})
                            if x is None: good = False
                            else: cst += k * x
                        okd = good and cst == dv and (cl == 16 or (zero is True and cl in (0, 16)))
                    ctx.check(okd, "size digit arithmetic", "digit:%s:%02x" % (s, b), "state %s: after digit %r the size is %s, expected 16*size+%d" % (s, chr(b), show(ncl)[:120], dv))
                    if got is not None and any(bin_unchecked(x) for x in terms_in(ncl)):
                        ctx.bad("digit-unchecked:" + s, "state %s: the chunk size is computed without an overflow check" % s)
                    nz = (zero is True and dv == 0)
                    nzero = True if nz else None
                    if zero is True and dv != 0: nzero = False
                    if zero is False: nzero = False
                else:
                    ctx.check(ncl == oldcl or (oldcl == ("int", 0) and st.val_int(ncl) == 0), "size kept", "size:%s:%02x" % (lab, b), "state %s: byte 0x%02x changes the chunk size to %s" % (lab, b, show(ncl)[:60]))
                    nzero = zero
                # counters
                if s == "EXT" and t == "EXT":
                    g = linear(next_)
                    grow = g is not None and g.get(EXT) == 1 and g.get(1, 0) >= 1
                    ub = upper_bound(st, next_)
                    ctx.check(grow and ub is not None and ub <= 1 << 20, "extension bytes bounded", "ext", "extension byte 0x%02x is accepted without counting it against a limit (count becomes %s, bound %s)" % (b, show(next_)[:60], ub))
                else:
                    ctx.check(next_ == EXT, "extension counter kept", "extkeep:" + lab, "state %s: the extension counter changes to %s" % (lab, show(next_)[:60]))
                put = st.heap.get(cell("put"), ("tup", ()))[1]
                if s == "FIELDLF":
                    g = linear(ntc)
                    ctx.check(g is not None and g.get(TCNT) == 1 and g.get(1, 0) == 1 and entails_le(st, ntc, init("MAXH")), "trailer fields bounded", "tcnt", "a trailer field line is accepted without counting it against the limit (count becomes %s)" % show(ntc)[:60])
                elif s in ("FIELD", "LINE", "ENDLF"):
                    ctx.check(ntc == TCNT or t == "DONE", "trailer counter kept", "tcntkeep:" + lab, "state %s: the trailer counter changes" % lab)
                if s in ("FIELD", "FIELDLF") or (s == "LINE" and t == "FIELD") or (s in ("LINE", "ENDLF") and tr):
                    okp = len(put) == 1 and (put[0] == BYTE or ev(put[0], {BYTE: b}) == b)
                    first = s == "LINE" and not tr
                    if not okp and first and isinstance(ntb, tuple): okp = BYTE[1] in terms_in(e.snapshot(st, ntb)) or len(put) == 1
                    ctx.check(okp, "trailer bytes recorded", "tput:%s" % lab, "state %s: trailer byte 0x%02x is not appended exactly once to the trailer buffer" % (lab, b))
                    if not first and t != "DONE":
                        ctx.check(limit_path(st, init("MAXB")), "trailer bytes bounded", "tbytes:%s" % lab, "state %s: trailer bytes grow without comparing their length with the limit" % lab)
                # successor
                if t == "DONE":
                    if ctx.check(how == "ret" and isdata, "final CRLF ends the body", "done:" + lab, "state %s: after the final CRLF decode does not return" % lab):
                        fr = unwrap(v, "Ready", "Ok")
                        calls = {TERMS[x][1] for x in terms_in(v) if TERMS[x][0] in ("call", "site")}
                        istr = any(str(x).endswith("Frame::trailers") for x in calls)
                        ctx.check(istr == tr, "trailers frame iff trailers", "trailers:" + lab, "state %s: the end of the body yields %s although %s trailer field was received" % (lab, "trailers" if istr else "no trailers", "a" if tr else "no"))
                        if istr:
                            okp = st.heap.get(cell("parse")) == ("str", "complete")
                            ctx.check(okp, "trailers are parsed", "trailers-parse", "trailers are delivered without testing that the trailer section parsed completely")
                    push(todo, seen, (norm(nk, nzero if nzero else True), "DONE", True, False))
                    continue
                if how != "read":
                    ctx.bad("early:" + nm[:40], "state %s: decode returns %s before the body is complete" % (nm, show(v)[:80])); continue
                if t == "SIZED":
                    z = st.val_int(ncl)
                    if z is None:
                        if entails_le(st, ("int", 1), ncl): z = 1
                        elif entails_le(st, ncl, ("int", 0)): z = 0
                    if z is None and zero is not None: z = 0 if zero else 1
                    if z is None:
                        ctx.bad("zero-unknown", "after the chunk size line the decoder continues without testing whether the size is zero"); continue
                    push(todo, seen, (norm(nk, z == 0), "LINE" if z == 0 else "BODY", z == 0, False))
                    continue
                ntr = tr
                if t == "FIELD": ntr = True
                if t == "START":
                    nzero = True if zero is True else None
                    ctx.check(zero is True, "size is zero between chunks", "startzero", "a new chunk starts while the previous chunk's size is not known to be used up")
                push(todo, seen, (norm(nk, nzero), t, nzero, ntr))
        if s not in ("DONE",):
            for kd in ("pending", "err", "eof", "data"):
                if kd not in nkind and kd != "err": ctx.bad("nopath:%s:%s" % (lab, kd), "state %s: no path handles %s" % (lab, kd))
            if s != "BODY":
                for b in range(256):
                    if b not in covered: ctx.bad("uncovered:" + lab, "state %s: byte 0x%02x has no outcome" % (lab, b)); break
                    c = covered[b]
                    t = c[0][1]
                    if t != "!" and all(x[0] for x in c): ctx.bad("stuck:%s:%02x" % (lab, b), "state %s: legal byte 0x%02x is always rejected" % (lab, b))
        if e.diverge:
            for st2, c in e.diverge:
                if "panic" in c.short or "expect_failed" in c.short or "unwrap_failed" in c.short:
                    ctx.bad("panic:%s" % lab, "state %s: the decoder can panic at %s" % (lab, where(c.line)))
    # is_eof agrees with the automaton
    ie = P.fn("Decoder::is_eof")
    ctx.rule("Decoder::is_eof is true exactly in the final state")
    for conf, s, zero, tr in sorted(seen, key=repr):
        e = ctx.engine()
        D = ("adt", P.adt("proto::h1::decode::Decoder")["path"], 0, "Decoder", (conf,))
        for st, v in e.run(ie, [sref("self")], heap={cell("self"): D}):
            ctx.check(st.val_int(v) == int(s == "DONE"), "is_eof", "is_eof:" + s, "is_eof is %s in state %s" % (show(v), s))
    ctx.note("product states: %s" % sorted({x[1] + ("/trailers" if x[3] else "") for x in seen}))
    ctx.ok("product states", len(seen))
    ctx.floor("product states", 14)
    ctx.floor("bytes accepted", 700)
    ctx.floor("bytes rejected", 2000)
    ctx.floor("EOF or transport error is an error", 20)

def push(todo, seen, c):
    if c not in seen:
        seen.add(c); todo.append(c)

def want_bounded(want, CL):
    ts = terms_in(want)
    l = linear(want)
    if l == {CL: 1, 1: 0}: return True
    return CL[1] in ts and all(TERMS[x][0] != "bin" or TERMS[x][1] not in ("Add", "Mul", "Shl") for x in ts)

def entails_same(a, b): return a == b

def bin_unchecked(i):
    t = TERMS[i]
    return t[0] == "bin" and t[1] in ("Mul", "Shl") and init("CL")[1] in terms_in(("sym", i))

def overflow_path(st, e):
    """some checked operation on the size failed on this path"""
    for i, c in st.facts.items():
        t = TERMS[i]
        if t[0] == "discr" and t[1][0] == "sym":
            u = TERMS[t[1][1]]
            if u[0] == "call" and "checked" in u[1] and c_single(c) == 0: return True
        if t[0] in ("cmp",) and init("CL")[1] in terms_in(("sym", i)): return True
        if t[0] == "fld" and t[3] == 1 and t[1][0] == "sym" and TERMS[t[1][1]][0] == "bin": return True
    return False

def limit_path(st, what):
    return any(TERMS[i][0] == "cmp" and what[1] in terms_in(("sym", i)) for i in st.facts)
