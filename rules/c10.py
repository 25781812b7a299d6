"""Body encoding on the wire, compared with the framing in force."""
from rt import *
import connlib, displib
from connlib import Lib, E1, FR
LEVEL = "other"
MSG, R, L, LAST, TRL = init("BODY_CHUNK"), init("REMAINING"), init("CHUNK_LEN"), init("IS_LAST"), init("TRAILER_BYTES")
U63 = 2**63 - 1

def wire_handlers(P):
    """Buf combinators as segment lists; chunk sizes and written-out buffers as events"""
    def h(e, st, c):
        m = c.mname
        if not c.args: return None
        if m == "chain" and len(c.args) == 2: return [(("adt", "$Chain", 0, "", (c.args[0], c.args[1])), None)]
        if m == "take" and len(c.args) == 2 and not (c.fn and c.fn.local): return [(("adt", "$Take", 0, "", (c.args[0], c.args[1])), None)]
        r = recv(e, st, c)
        if r == MSG and m == "remaining": return [(L, None)]
        if r == MSG and m == "has_remaining": return [(TRUE, None)]
        if c.fn is not None and c.fn.local and P.ty(c.fn.locals[0][0])[0] == "adt" and P.ty(c.fn.locals[0][0])[1].endswith("ChunkSize") and c.fn.argc == 1:
            return [(("adt", "$Hex", 0, "", (e.snapshot(st, c.args[0]),)), None)]
        if m == "buffer" and c.fn is not None and c.fn.local: return [(UNIT, ("out", segs(e, st, c.args[1])))]
        return None
    return (lambda c, e, st: True, h)

def lit(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    if v[0] == "bytes": return bytes(v[1])
    if v[0] == "str": return v[1].encode()
    if v[0] == "arr": return bytes(x[1] for x in v[1]) if all(x[0] == "int" for x in v[1]) else None
    return None

def segs(e, st, v, lim=None):
    """what a buffer will put on the wire: ("lit", bytes) ("hexline", value) ("msg", limit | None) ("?", value)"""
    if v[0] == "adt" and v[1] == "$Chain":
        out = segs(e, st, v[4][0], lim) + segs(e, st, v[4][1], lim)
        m = []
        for s in out:
            if s[0] == "lit" and m and m[-1][0] == "lit": m[-1] = ("lit", m[-1][1] + s[1])
            else: m.append(s)
        return tuple(m)
    if v[0] == "adt" and v[1] == "$Take": return segs(e, st, v[4][0], v[4][1])
    if v[0] == "adt" and v[1] == "$Hex": return (("hexline", v[4][0]),)
    if v == MSG: return (("msg", lim),)
    b = lit(e, st, v)
    if b is not None: return (("lit", b),)
    if v[0] == "adt" and v[1].endswith("EncodedBuf") or v[0] == "adt" and v[1].endswith("BufKind"): return segs(e, st, v[4][0], lim)
    return (("?", e.snapshot(st, v)),)

def lin_is(v, *parts):
    """linear(v) == sum of parts"""
    l = linear(v)
    if l is None: return False
    d = dict(l)
    for s, p in parts:
        for x, y in linear(p).items(): d[x] = d.get(x, 0) - s * y
    return all(not y for y in d.values())

def run(ctx):
    P = ctx.prog()
    E = P.adt("proto::h1::encode::Encoder"); K = P.adt("proto::h1::encode::Kind")
    if {v[0] for v in K["variants"]} != {"Chunked", "Length", "CloseDelimited"}: raise mir.AnchorError("encodings: %s" % [v[0] for v in K["variants"]])
    def encoder(kind, payload=None):
        k = ("adt", K["path"], K["vix"][kind], kind, () if payload is None else (payload,))
        return mk(P, E["path"], kind=k, is_last=LAST)
    def kind_after(e, st): return fget(P, st, e.read(st, (cell("self"), ())), E, "kind", eng=e)
    none_names, some_names = NONE, some(init("NAMES"))
    CASES = [("Chunked", none_names), ("Chunked", some_names), ("Length", R), ("CloseDelimited", None)]
    facts = {R[1]: ("rng", 0, U63, frozenset()), L[1]: ("rng", 1, U63, frozenset()), LAST[1]: ("rng", 0, 1, frozenset())}
    H = lambda: Rec([wire_handlers(P)])
    same = lambda s, want: s == want
    def short(st):  # L > R known / L <= R known
        return entails_le(st, L, R), entails_le(st, ("sym", T("bin", "Add", R, ("int", 1))), L), entails_le(st, R, L)
    # ---- one chunk
    ctx.rule("encode: chunked = size line, the chunk, CRLF; a length is never exceeded and decreases by exactly what is written; close-delimited = the chunk; the chunk itself is never changed")
    f = P.fn("Encoder::encode")
    for kn, pl in CASES:
        e = ctx.engine(rule=H())
        e.run(f, [mref("self"), MSG], heap={cell("self"): encoder(kn, pl)}, facts=dict(facts))
        for st, v in e.finals:
            s = segs(e, st, v); k = kind_after(e, st); t = "encode with %s writes %s" % (kn, wtext(s))
            ctx.check(fget(P, st, e.read(st, (cell("self"), ())), E, "is_last", eng=e) == LAST, "encoding keeps the encoder's other state", "enc-last", t)
            if kn == "Chunked":
                ctx.check(len(s) == 3 and s[0] == ("hexline", L) and s[1] == ("msg", None) and s[2] == ("lit", b"\r\n"), "chunk format", "enc-chunk", t)
                ctx.check(is_adt(k, "Chunked") and k[4] == (pl,), "encoding keeps the encoder's other state", "enc-chunk-kind", t)
            elif kn == "CloseDelimited":
                ctx.check(s == (("msg", None),) and is_adt(k, kn), "raw chunk", "enc-close", t)
            else:
                rem = k[4][0] if k[0] == "adt" and k[3] == "Length" else e.project(st, k, ("f", 0, "0", "Length", K["vix"]["Length"]))
                fits, over, ge = short(st)
                good = len(s) == 1 and s[0][0] == "msg"
                if good and s[0][1] is None: good = fits and lin_is(rem, (1, R), (-1, L))
                elif good: good = lin_is(s[0][1], (1, R)) and (lin_is(rem) and ge)
                ctx.check(good, "length respected", "enc-len", "encode with a length of R and a chunk of L bytes writes %s and leaves %s remaining (%s)" % (wtext(s), show(rem)[:60], "L<=R" if fits else "L>R" if over else "L and R not compared"))
    for g, n in (("chunk format", 2), ("length respected", 2), ("raw chunk", 1)): ctx.floor(g, n)
    # ---- end
    ctx.rule("end: zero chunk for chunked, nothing for a finished length or close-delimited body, an error for a length not reached")
    f = P.fn("Encoder::end")
    for kn, pl in CASES:
        e = ctx.engine(rule=H())
        e.run(f, [sref("self")], heap={cell("self"): encoder(kn, pl)}, facts=dict(facts))
        for st, v in e.finals:
            okv = unwrap(v, "Ok"); t = "end of a %s body yields %s" % (kn, show(v)[:80])
            if kn == "Chunked":
                b = unwrap(v, "Ok", "Some")
                ctx.check(b is not None and segs(e, st, b) == (("lit", b"0\r\n\r\n"),), "end marker", "end-chunked", t)
            elif kn == "CloseDelimited": ctx.check(okv is not None and is_adt(okv, "None"), "end marker", "end-close", t)
            else:
                z = st.val_int(R) == 0 or entails_le(st, R, ("int", 0))
                nz = entails_le(st, ("int", 1), R)
                ctx.check((is_adt(v, "Err") and nz) or (okv is not None and is_adt(okv, "None") and z), "end marker", "end-len", t + (" with bytes outstanding" if nz else ""))
    ctx.floor("end marker", 5)
    # ---- last chunk with end
    ctx.rule("encode_and_end: the chunk and its end marker in one; reuse is reported only when the framing is satisfied and this is not the last message")
    f = P.fn("Encoder::encode_and_end")
    for kn, pl in CASES:
        e = ctx.engine(rule=H())
        e.run(f, [sref("self"), MSG, mref("dst")], heap={cell("self"): encoder(kn, pl)}, facts=dict(facts))
        for st, v in e.finals:
            out = [x[1] for x in (st.aut or ()) if x[0] == "out"]
            s = sum(out, ())
            t = "encode_and_end with %s writes %s and answers %s" % (kn, wtext(s), show(v)[:40])
            if kn == "Chunked":
                ctx.check(len(s) == 3 and s[0] == ("hexline", L) and s[1] == ("msg", None) and s[2] == ("lit", b"\r\n0\r\n\r\n"), "last chunk", "last-chunk", t)
            elif kn == "CloseDelimited":
                ctx.check(s == (("msg", None),), "last chunk", "last-close", t)
            else:
                fits, over, ge = short(st)
                good = len(s) == 1 and s[0][0] == "msg" and (fits if s[0][1] is None else lin_is(s[0][1], (1, R)) and ge)
                ctx.check(good, "last chunk", "last-len", t + (" (L<=R)" if fits else ""))
            for b, s2 in bools(e, st, v):
                if not b: continue
                lastf = s2.val_int(LAST) == 0
                full = kn == "Chunked" or kn == "Length" and (entails_le(s2, R, L))
                ctx.check(lastf and full, "reuse only with a satisfied framing", "last-reuse:" + kn, t + " although the announced framing is not satisfied (or the connection must close)")
    ctx.floor("last chunk", 6); ctx.floor("reuse only with a satisfied framing", 3)
    # ---- queries and constructors
    ctx.rule("the encoder's queries and constructors say what they are named for")
    for q, yes in (("is_eof", None), ("is_close_delimited", "CloseDelimited"), ("is_chunked", "Chunked"), ("is_last", None)):
        f = P.fn("Encoder::" + q, optional=True)
        if f is None: continue
        for kn, pl in CASES:
            e = ctx.engine(rule=H())
            e.run(f, [sref("self")], heap={cell("self"): encoder(kn, pl)}, facts=dict(facts))
            for st, v in e.finals:
                for b, s in bools(e, st, v):
                    if q == "is_last": good = s.val_int(LAST) == b
                    elif q == "is_eof": good = (kn == "Length" and s.val_int(R) == 0) if b else (kn != "Length" or entails_le(s, ("int", 1), R))
                    else: good = (kn == yes) == bool(b)
                    ctx.check(good, "queries", "query:%s:%s" % (q, kn), "%s answers %s for %s" % (q, b, kn))
    ctx.floor("queries", 12)
    for cn, want in (("chunked", ("Chunked", 0)), ("length", ("Length", R)), ("close_delimited", ("CloseDelimited", None))):
        f = P.fn("Encoder::" + cn)
        e = ctx.engine(rule=H())
        for st, v in e.run(f, [R] if f.argc else [], facts=dict(facts)):
            k = fget(P, st, v, E, "kind", eng=e)
            good = is_adt(k, want[0]) and st.val_int(fget(P, st, v, E, "is_last", eng=e)) == 0 and (want[1] is None or (k[4] == (R,) if cn == "length" else is_adt(k[4][0], "None")))
            ctx.check(good, "constructors", "new:" + cn, "Encoder::%s gives %s" % (cn, show(v)[:80]))
    f = P.fn("Encoder::set_last")
    for kn, pl in CASES:
        e = ctx.engine(rule=H())
        for st, v in e.run(f, [encoder(kn, pl), init("FLAG")], facts=dict(facts)):
            k = fget(P, st, v, E, "kind", eng=e)
            ctx.check(fget(P, st, v, E, "is_last", eng=e) == init("FLAG") and is_adt(k, kn) and k[4] == (() if pl is None else (pl,)), "constructors", "set_last", "set_last gives %s" % show(v)[:80])
    ctx.floor("constructors", 6)
    # ---- the size line and buffer adapters
    ctx.rule("a chunk size line is the length in hexadecimal followed by CRLF, and the buffers hand out exactly what they hold")
    size_line(ctx, P)
    forward(ctx, P)
    # ---- connection
    ctx.rule("the connection encodes each chunk once, with the encoder of the announced framing, and queues exactly the encoded form; an unsatisfied length closes the write side and is an error")
    CL = Lib(ctx)
    byname = {f.name: f for f in CL.ent}
    for role in ("server", "client"):
        for n in ("write_body", "write_body_and_end", "end_body", "write_trailers"):
            if n not in byname: raise mir.AnchorError("Conn::" + n)
            for t in CL.run(byname[n], role, "Body", "Body", "Busy"):
                buf = [x[2] for x in t.ev if x[:2] == ("io", "buffer")]
                A = init("arg1"); tx = t.text()
                enc = t.get("encode"); ee = t.get("encend"); en = t.get("end"); tr = t.get("trailers")
                if n == "write_body": ctx.check(len(enc) == 1 and enc[0][1] == E1 and enc[0][2] == A and buf == [init("ENCODED")] and not (ee or en or tr), "each chunk encoded and queued once", "conn:write_body", "a body chunk is not encoded and queued exactly once: " + tx)
                if n == "write_body_and_end": ctx.check(len(ee) == 1 and ee[0][2] == E1 and ee[0][3] == A and not buf and not (enc or en or tr), "each chunk encoded and queued once", "conn:write_body_and_end", "the last chunk is not encoded exactly once: " + tx)
                if n == "end_body":
                    ctx.check(len(en) == 1 and en[0][2] == E1 and not (enc or ee or tr), "the end is encoded and queued", "conn:end", tx)
                    if t.has("end", "some"): ctx.check(buf == [init("END_BUF")], "the end is encoded and queued", "conn:endbuf", "the end marker is not queued: " + tx)
                    if t.has("end", "none"): ctx.check(not buf, "the end is encoded and queued", "conn:endnone", tx)
                    ctx.check(is_adt(t.ret, "Err") == bool(t.has("end", "err")), "a short body is an error", "conn:short", "ending a body short of its announced length is not an error (or a complete one is): " + tx)
                    if t.has("end", "err"): ctx.check(t.post[1] == "Closed" and not buf, "a short body is an error", "conn:short-open", "a short body leaves the write side open: " + tx)
                if n == "write_trailers":
                    ctx.check(not (enc or ee or en) and (buf == [init("TRAILER_BUF")] if t.has("trailers", "some") else not buf), "the end is encoded and queued", "conn:trailers", "trailers are not queued as encoded (or with a second end marker): " + tx)
    for g, n in (("each chunk encoded and queued once", 4), ("the end is encoded and queued", 6), ("a short body is an error", 4)): ctx.floor(g, n)
    # ---- dispatcher
    ctx.rule("the dispatcher writes each body frame once, ends the body only when it has ended, and lets a failed body or a failed end fail the connection")
    D = displib.Disp(ctx)
    for role in ("server", "client"):
        for p in D.run("poll_write", role=role, body_rx=True):
            t = p.text(); ev = p.ev
            fr = [(i, x) for i, x in enumerate(ev) if x[:2] == ("body", "poll_frame")]
            last = lambda i: next((x for j, x in reversed(fr) if j < i), None)
            for i, x in enumerate(ev):
                if x[:2] in (("op", "write_body"), ("op", "write_body_and_end")):
                    l = last(i)
                    ctx.check(l is not None and l[2] in ("data",) and x[3] == init("PAYLOAD_" + l[2]), "frames are written as produced", "disp-frame:" + x[1], "what is written is not the frame the body produced; " + t)
                    if x[1] == "write_body_and_end": ctx.check(any(y[:3] == ("body", "is_end_stream", TRUE) for y in ev[max([j for j, _ in fr if j < i] or [0]):i]), "ended only at the end", "disp-early", "the body is ended although it did not say it is at its end; " + t)
                if x[:2] == ("op", "end_body"):
                    l = last(i)
                    nh = max([j for j, y in enumerate(ev[:i]) if y[:2] == ("op", "write_head")] or [-1])
                    if l is not None and any(j > nh for j, _ in fr if j < i) is False: l = None
                    e_ = any(y[:3] == ("body", "is_end_stream", TRUE) for y in ev[:i])
                    ctx.check(l is None and e_ or l is not None and (l[2] in ("none", "trailers") or any(y[:3] == ("body", "is_end_stream", TRUE) for y in ev[max(j for j, _ in fr if j < i):i])), "ended only at the end", "disp-end", "the body is ended although it has not; " + t)
                    if x[2] == "err": ctx.check(not p.again and unwrap(p.ret, "Ready", "Err") is not None, "failures end the connection", "disp-enderr", "a body that ended short does not fail the connection; " + t)
            for i, x in enumerate(ev):
                if x[:2] != ("op", "write_head"): continue
                b = x[4] if len(x) > 4 else None
                eos = any(y[:3] == ("body", "is_end_stream", TRUE) for y in ev[:i])
                k = unwrap(b, "Some") if b is not None else None
                if b is not None and is_adt(b, "None"): good = eos
                elif k is not None and is_adt(k, "Known"): good = k[4][0] == displib.EXACT or eos and p.st.val_int(k[4][0]) == 0
                elif k is not None and is_adt(k, "Unknown"): good = not any(y[:2] == ("hint", "exact") for y in ev[:i])
                else: ctx.bad("disp-length-form", "the length a body is announced with is not decided (%s); %s" % (show(b)[:60] if b else b, t), "announced lengths are exact"); continue
                ctx.check(good, "announced lengths are exact", "disp-length", "a body is announced with %s, which is not what it says about itself; %s" % (show(b)[:60], t))
            for i, x in fr:
                if x[2] == "data":
                    ctx.check(any(y[:2] in (("op", "write_body"), ("op", "write_body_and_end")) for y in ev[i:]), "frames are written as produced", "disp-drop", "a body frame is dropped; " + t)
                if x[2] == "err":
                    ctx.check(not p.again and unwrap(p.ret, "Ready", "Err") is not None and not any(y[:2] == ("op", "end_body") for y in ev[i:]), "failures end the connection", "disp-err", "an error of the outgoing body does not fail the connection; " + t)
                if x[2] == "trailers":
                    ctx.check(any(y[:2] == ("op", "write_trailers") for y in ev[i:]), "frames are written as produced", "disp-trailers", "trailers of the outgoing body are dropped; " + t)
                if x[2] == "none" and not p.again:
                    ctx.check(any(y[:2] == ("op", "end_body") for y in ev[i:]), "ended only at the end", "disp-noend", "the body ended but its end is not written; " + t)
    # ---- the end of a body whose end is the end of the connection
    ctx.rule("after the end of an outgoing body the write side is closed if the message is the last one or its end is the end of the connection, and only then")
    G = "what follows the end"
    LB = connlib.Lib(ctx)
    for role, fe in ((role, f) for role in ("server", "client") for f in LB.ent if f.name in ("end_body", "write_trailers")):
        tail = "end" if fe.name == "end_body" else "trailers"
        for isl in (TRUE, FALSE):
            for cd in (TRUE, FALSE):
                def known(e, st, c):
                    if not c.args or recv(e, st, c) != E1: return None
                    if c.mname == "is_last": return [(isl, None)]
                    if c.mname == "is_close_delimited": return [(cd, None)]
                    if c.mname == "end": return [(ok(NONE), ("end", "none", E1))] + ([] if cd == TRUE else [(ok(some(init("END_BUF"))), ("end", "some", E1))])
                    if c.mname == "encode_trailers" and cd == TRUE: return [(NONE, ("trailers", "none", E1))]   # such a body has no trailers
                    return None
                for r in connlib.READ:
                    for k in connlib.KA:
                        if not connlib.allowed(fe.name, role, r, "Body", k): continue
                        for t in LB.run(fe, role, r, "Body", k, extra=[(lambda c, e, st: True, known)]):
                            if not any(x[0] == tail and (x[1] != "none" or tail == "end") for x in t.ev): continue
                            want = "Closed" if TRUE in (isl, cd) else "KeepAlive"
                            ctx.check(t.post[1] in ((want,) if want == "Closed" else ("KeepAlive", "Init")), G, "after-%s:%s:%s:%s" % (tail, role, isl == TRUE, cd == TRUE), "after the end of a body (last message: %s, ended by closing: %s) the write side is %s; %s" % (isl == TRUE, cd == TRUE, t.post[1], t.text()))
    ctx.floor(G, 24)
    for g, n in (("frames are written as produced", 8), ("ended only at the end", 8), ("failures end the connection", 4), ("announced lengths are exact", 3)): ctx.floor(g, n)

def wtext(s): return "[" + ", ".join("size(%s)" % show(x[1]) if x[0] == "hexline" else "chunk" + ("[..%s]" % show(x[1])[:30] if x[1] else "") if x[0] == "msg" else repr(x[1])[:40] if x[0] == "lit" else show(x[1])[:60] for x in s) + "]"

def size_line(ctx, P):
    C = P.adt("proto::h1::encode::ChunkSize")
    fs = [f for f in P.fns.values() if f.local and f.argc == 1 and P.ty(f.locals[0][0])[0] == "adt" and P.ty(f.locals[0][0])[1] == C["path"] and P.ty(f.locals[1][0]) == ("prim", "usize")]
    if not fs: raise mir.AnchorError("constructor of ChunkSize")
    n = 0
    for f in fs:
        def fmt(e, st, c):
            if c.mname in ("new_upper_hex", "new_lower_hex", "new_display"):
                k = {"new_upper_hex": 16, "new_lower_hex": 16, "new_display": 10}[c.mname]
                return [(("adt", "$Arg", 0, str(k), (e.snapshot(st, c.args[0]),)), None)]
            if c.short.startswith("std::fmt::Arguments") and c.mname == "new": return [(("adt", "$Args", 0, "", (e.snapshot(st, c.args[0]), e.snapshot(st, c.args[1]))), None)]
            if c.mname == "write_fmt": return [(ok(UNIT), ("fmt", c.args[1]))]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: bool(c.args), fmt)]))
        for st, v in e.run(f, [L], facts={L[1]: ("rng", 1, U63, frozenset())}):
            w = [x[1] for x in (st.aut or ()) if x[0] == "fmt"]
            if not w: ctx.note("chunk size lines are not produced with the formatting machinery: only their use is analysed"); continue
            n += 1
            good = len(w) == 1 and w[0][0] == "adt" and w[0][1] == "$Args"
            tpl = args = None
            if good:
                tpl = flat(w[0][4][0]); args = hexargs(w[0][4][1])
                # template: one plain argument (0xC0), then the literal CRLF (length 2), then the end (0)
                good = tpl == [192, 2, 13, 10, 0] and args == [("16", L)]
            ctx.check(good, "size line", "size-line", "a chunk size line is not the hexadecimal length followed by CRLF (%s: template %s, arguments %s)" % (f.n, tpl, args))
            for fl in ("pos", "len"):
                ctx.check(st.val_int(fget(P, st, v, C, fl, eng=e)) == 0 or fl == "len", "size line", "size-pos", "a new size line does not start at its first byte")
    if n: 
        # fmt::Write stores each piece at the end
        g = P.trait_method(C["path"], "Write", "write_str")
        S = init("PIECE")
        def cp(e, st, c):
            m = c.mname
            if m == "index_mut" and len(c.args) == 2: return [(("ref", (("C", ("sym", T("slice", e.snapshot(st, c.args[1])))), ()), 1), None)]
            if m in ("write_all", "copy_from_slice", "clone_from_slice") and len(c.args) == 2:
                p = recv_path(e, st, c)
                return [(ok(UNIT) if m == "write_all" else UNIT, ("copy", e.snapshot(st, c.args[0]), e.snapshot(st, c.args[1]), c.args[0]))]
            return None
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, cp)]))
        POS, LEN = init("POS"), init("LEN")
        for st, v in e.run(g, [mref("self"), sref("piece")], heap={cell("self"): mk(P, C["path"], pos=POS, len=LEN), cell("piece"): S}):
            cps = [x for x in (st.aut or ()) if x[0] == "copy"]
            nl = fget(P, st, e.read(st, (cell("self"), ())), C, "len", eng=e)
            if st.val_int(e.discr(st, v, "std::result::Result")) == 1 if v[0] != "adt" else v[3] == "Err": continue
            good = len(cps) == 1 and S[1] in terms_in(cps[0][2]) and not sliced(cps[0][2]) and LEN[1] in terms_in(cps[0][1])
            grow = plus_len(nl, LEN, S)
            ctx.check(good and grow, "size line", "size-write", "the size line does not store formatted pieces one after the other")
        ctx.floor("size line", 3)
    # handing it out
    g = P.trait_method(C["path"], "Buf", "remaining")
    POS, LEN = init("POS"), init("LEN")
    fx = {POS[1]: ("rng", 0, 255, frozenset()), LEN[1]: ("rng", 0, 255, frozenset())}
    e = ctx.engine()
    for st, v in e.run(g, [sref("self")], heap={cell("self"): mk(P, C["path"], pos=POS, len=LEN)}, facts=dict(fx)):
        ctx.check(lin_is(v, (1, LEN), (-1, POS)), "size line bytes", "size-remaining", "remaining of a size line is %s" % show(v)[:60])
    g = P.trait_method(C["path"], "Buf", "chunk")
    def ixh(e, st, c):
        if c.mname in ("index", "index_mut", "get_unchecked") and len(c.args) == 2: return [(("ref", (("C", ("sym", T("slice", e.snapshot(st, c.args[0]), e.snapshot(st, c.args[1])))), ()), 0), ("slice", e.snapshot(st, c.args[1])))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, ixh)]))
    for st, v in e.run(g, [sref("self")], heap={cell("self"): mk(P, C["path"], pos=POS, len=LEN)}, facts=dict(fx)):
        sl = [x[1] for x in (st.aut or ()) if x[0] == "slice"]
        if len(sl) == 1 and sl[0][0] == "adt" and sl[0][1].split("::")[-1] in ("Range", "RangeTo", "RangeFrom", "RangeFull"):
            ctx.check(sl[0][1].endswith("ops::Range") and lin_is(sl[0][4][0], (1, POS)) and lin_is(sl[0][4][1], (1, LEN)), "size line bytes", "size-chunk", "a size line hands out %s" % show(sl[0])[:80])
        else: ctx.note("ChunkSize::chunk does not use one range slice: bounds not decided")
    g = P.trait_method(C["path"], "Buf", "advance")
    N = init("N")
    e = ctx.engine()
    for st, v in e.run(g, [mref("self"), N], heap={cell("self"): mk(P, C["path"], pos=POS, len=LEN)}, facts=dict(fx)):
        np = fget(P, st, e.read(st, (cell("self"), ())), C, "pos", eng=e)
        ctx.check(POS[1] in terms_in(np) and N[1] in terms_in(np) and plus_cast(np, POS, N) and fget(P, st, e.read(st, (cell("self"), ())), C, "len", eng=e) == LEN, "size line bytes", "size-advance", "advancing a size line by n moves it to %s" % show(np)[:60])
    ctx.floor("size line bytes", 2)

def plus_cast(v, a, b):
    if v[0] != "sym": return False
    t = TERMS[v[1]]
    if t[0] == "fld": return plus_cast(t[1], a, b)
    if t[0] == "bin" and t[1].startswith("Add"):
        x, y = t[2], t[3]
        s = lambda z: TERMS[z[1]][1] if z[0] == "sym" and TERMS[z[1]][0] == "cast" else z
        return {s(x), s(y)} == {a, b}
    return False
def plus_len(v, a, s):
    if v[0] != "sym": return False
    t = TERMS[v[1]]
    if t[0] == "fld": return plus_len(t[1], a, s)
    if t[0] == "bin" and t[1].startswith("Add"):
        r = [z for z in (t[2], t[3]) if z != a]
        return len(r) == 1 and s[1] in terms_in(r[0]) and "Add" not in show(r[0])
    return False
def sliced(v): return "Range" in show(v)
def flat(v):
    n = 0
    while v[0] in ("rf", "ref") and n < 6: v = v[1]; n += 1
    if v[0] == "bytes": return list(v[1])
    if v[0] == "arr": return [x[1] if x[0] == "int" else None for x in v[1]]
    return None
def hexargs(v):
    n = 0
    while v[0] in ("rf", "ref") and n < 6: v = v[1]; n += 1
    if v[0] != "arr": return None
    return [(x[3], H_norm(x[4][0])) if x[0] == "adt" and x[1] == "$Arg" else None for x in v[1]]
def H_norm(v):
    while v[0] == "rf": v = v[1]
    return v

def forward(ctx, P):
    """EncodedBuf: every Buf operation on every variant is the same operation on the buffer inside"""
    B = P.adt("proto::h1::encode::EncodedBuf"); K = P.adt("proto::h1::encode::BufKind")
    IN, A1 = init("INNER"), init("ARG")
    for m in ("remaining", "chunk", "advance", "chunks_vectored"):
        f = P.trait_method(B["path"], "Buf", m)
        for vi, (vn, _, fl) in enumerate(K["variants"]):
            def h(e, st, c):
                if (c.trait or "").split("::")[-1] == "Buf" and c.args and (recv(e, st, c) == IN or c.args[0] == IN): return [(("sym", T("fwd", c.mname)), ("fwd", c.mname, tuple(e.snapshot(st, a) for a in c.args[1:])))]
                return None
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
            v = ("adt", B["path"], 0, "EncodedBuf", (("adt", K["path"], vi, vn, (IN,)),))
            for st, r in e.run(f, [mref("self")] + [A1] * (f.argc - 1), heap={cell("self"): v}):
                w = [x for x in (st.aut or ()) if x[0] == "fwd"]
                ctx.check(len(w) == 1 and w[0][1] == m and w[0][2] == (A1,) * (f.argc - 1) and (m == "advance" or T("fwd", m) in terms_in(e.snapshot(st, r))), "encoded buffers forward", "fwd:%s:%s" % (m, vn), "EncodedBuf::%s on %s does %s" % (m, vn, w))
    ctx.floor("encoded buffers forward", 16)
