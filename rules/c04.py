"""Length- and close-delimited bodies; who may consume the read buffer."""
from rt import *
LEVEL = "other"
BUF0, BUFD, BUFLEN = init("BUF_eof"), init("BUF_data"), init("BUFLEN")

def reader():
    def h(e, st, c):
        if st.aut and any(x[0] == "read" for x in st.aut): return "stop"
        want = c.args[2]
        def data(s):
            s.facts[BUFLEN[1]] = ("rng", 1, 2**64 - 1, frozenset())
            return ready(ok(BUFD))
        return [(PENDING, ("read", "pending", want)), (ready(err(init("ioerr"))), ("read", "err", want)),
                (ready(ok(BUF0)), ("read", "eof", want)), (data, ("read", "data", want))]
    def bufm(e, st, c):
        b = recv(e, st, c) if c.args else None
        if b not in (BUF0, BUFD): return None
        d = b == BUFD
        m = c.mname
        if m == "is_empty": return [(FALSE if d else TRUE, None)]
        if m == "has_remaining": return [(TRUE if d else FALSE, None)]
        if m in ("len", "remaining"): return [(BUFLEN if d else ("int", 0), None)]
        if m in ("deref", "as_ref", "chunk"): return [(("ref", (("C", b), ()), 0), None)]
        return None
    return Rec([(method("read_mem", "MemRead"), h), (lambda c, e, st: bool(c.args), bufm)])

def kind_of(e, st, kf): return e.read(st, (cell("self"), (("f", kf, "kind", None, None),)))

def run(ctx):
    P = ctx.prog()
    dec = P.fn("Decoder::decode"); iseof = P.fn("Decoder::is_eof"); new = P.fn("Decoder::new")
    D = P.adt("proto::h1::decode::Decoder"); K = P.adt("proto::h1::decode::Kind")
    kf = P.field_ix(D, 0, "kind")
    N = init("N")
    # ---- which mode is chosen
    ctx.rule("Decoder::new maps the chunked and close-delimited markers to their modes and every other length to exactly that length")
    DL = P.adt("DecodedLength")
    consts = {}
    for n, (v, sp, im) in P.consts.items():
        if "DecodedLength" in n: consts[n.split("::")[-1]] = v
    e = ctx.engine()
    for nm, arg in (("CHUNKED", None), ("CLOSE_DELIMITED", None), ("length", None)):
        if nm == "length":
            dl = ("adt", DL["path"], 0, "DecodedLength", (N,))
            facts = {N[1]: ("rng", 0, 2**64 - 3, frozenset())}
        else:
            st0 = State(); st0.frames.append(absint.Frame(new, {}, None, None))
            if nm not in consts: raise mir.AnchorError("DecodedLength::" + nm)
            dl = e.const(st0, consts[nm]); facts = None
        fin = e.run(new, [dl, init("MH"), init("MS")], facts=facts)
        for st, v in fin:
            k = e.project(st, v, ("f", kf, "kind", None, None))
            if nm == "CHUNKED": good = is_adt(k, "Chunked")
            elif nm == "CLOSE_DELIMITED": good = is_adt(k, "Eof") and st.val_int(k[4][0]) == 0
            else: good = is_adt(k, "Length") and k[4][0] == N
            ctx.check(good, "mode selection", "new:" + nm, "Decoder::new(%s) yields %s" % (nm, show(k)[:80]))
    # ---- length mode
    ctx.rule("length mode: asks the source for at most the remaining bytes, delivers what it got, subtracts exactly that, and turns end of input before zero into an error; at zero it reads nothing")
    for zero in (True, False):
        r = reader(); e = ctx.engine(rule=r)
        k = ("adt", K["path"], K["vix"]["Length"], "Length", (("int", 0) if zero else N,))
        facts = None if zero else {N[1]: ("rng", 1, 2**64 - 3, frozenset())}
        e.run(dec, [mref("self"), mref("cx"), mref("body")], heap={cell("self"): ("adt", D["path"], 0, "Decoder", (k,))}, facts=facts)
        outs = [(st, v, "ret") for st, v in e.finals] + [(st, None, "again") for st, c in r.stopped]
        for st, v, how in outs:
            evs = st.aut or ()
            nk = kind_of(e, st, kf)
            rem = nk[4][0] if nk[0] == "adt" and is_adt(nk, "Length") else e.project(st, nk, ("f", 0, "0", "Length", K["vix"]["Length"]))
            if zero:
                ctx.check(how == "ret" and not evs and unwrap(v, "Ready", "Ok") is not None, "finished body reads nothing", "len0", "a finished length-delimited body reads from the transport or does not end")
                ctx.check(linear(rem) == {1: 0}, "finished body stays finished", "len0rem", "polling a finished body changes its remaining length")
                continue
            if how != "ret" or not evs:
                ctx.bad("len-shape", "length mode: a path does not read exactly once (%s)" % (show(v)[:80] if v else how)); continue
            _, kd, want = evs[0]
            ctx.check(cast_of(want, N), "reads bounded by the remaining length", "len-want", "length mode asks the source for %s, not bounded by the remaining length" % show(want)[:80])
            if kd == "pending":
                ctx.check(is_adt(v, "Pending") and rem == N, "pending", "len-pending", "length mode: pending read yields %s" % show(v)[:60])
            elif kd == "err":
                ctx.check(unwrap(v, "Ready", "Err") is not None and rem == N, "transport error is an error", "len-err", "length mode: a transport error yields %s" % show(v)[:60])
            elif kd == "eof":
                ctx.check(unwrap(v, "Ready", "Err") is not None, "early end is an error", "len-eof", "length mode: end of input with bytes outstanding yields %s" % show(v)[:60])
            else:
                ctx.check(unwrap(v, "Ready", "Ok") is not None and BUFD[1] in terms_in(v), "data delivered", "len-data", "length mode: received bytes are not delivered")
                l = linear(rem)
                good = l is not None and (lin_sub(l, {N: 1, BUFLEN: -1, 1: 0}) in ({}, {1: 0}) or (set(x for x in l if l[x]) <= {1} and l.get(1, 0) == 0 and entails_le(st, N, BUFLEN)))
                ctx.check(good, "remaining decreases by what was delivered", "len-rem", "length mode: after delivering n bytes the remaining length is %s" % show(rem)[:80])
    # ---- close mode
    ctx.rule("close-delimited mode ends only when the source reported end of input, and never reads again after that")
    for done in (True, False):
        r = reader(); e = ctx.engine(rule=r)
        k = ("adt", K["path"], K["vix"]["Eof"], "Eof", (TRUE if done else FALSE,))
        e.run(dec, [mref("self"), mref("cx"), mref("body")], heap={cell("self"): ("adt", D["path"], 0, "Decoder", (k,))})
        for st, c in r.stopped: ctx.bad("eof-again", "close-delimited mode reads twice in one call")
        for st, v in e.finals:
            nk = kind_of(e, st, kf)
            flag = e.project(st, nk, ("f", 0, "0", "Eof", K["vix"]["Eof"]))
            fv = st.val_int(flag)
            evs = st.aut or ()
            if done:
                ctx.check(not evs and fv == 1, "no read after end", "eof-done", "close-delimited mode reads after the end of input"); continue
            if not evs: ctx.bad("eof-noread", "close-delimited mode returns %s without reading" % show(v)[:60]); continue
            kd = evs[0][1]
            if kd == "pending": good = is_adt(v, "Pending") and fv == 0
            elif kd == "err": good = unwrap(v, "Ready", "Err") is not None and fv == 0
            elif kd == "eof": good = unwrap(v, "Ready", "Ok") is not None and fv == 1
            else: good = unwrap(v, "Ready", "Ok") is not None and fv == 0 and BUFD[1] in terms_in(v)
            ctx.check(good, "close-delimited outcomes", "eof-" + kd, "close-delimited mode: source outcome %s yields %s with finished=%s" % (kd, show(v)[:60], show(flag)))
    # ---- is_eof
    ctx.rule("Decoder::is_eof is true exactly for zero remaining or a seen end of input")
    for nm, pl, facts, want in (("Length", ("int", 0), None, 1), ("Length", N, {N[1]: ("rng", 1, 2**64 - 3, frozenset())}, 0), ("Eof", TRUE, None, 1), ("Eof", FALSE, None, 0)):
        e = ctx.engine()
        k = ("adt", K["path"], K["vix"][nm], nm, (pl,))
        for st, v in e.run(iseof, [sref("self")], heap={cell("self"): ("adt", D["path"], 0, "Decoder", (k,))}, facts=facts):
            ctx.check(st.val_int(v) == want, "is_eof", "is_eof:%s:%s" % (nm, show(pl)), "is_eof is %s for %s(%s)" % (show(v), nm, show(pl)))
    # ---- the source
    ctx.rule("read_mem of the connection buffer hands out a prefix of the buffer of at most the requested length, reads the transport only when the buffer is empty, and loses no byte")
    B = P.adt("proto::h1::io::Buffered")
    rm = P.trait_method("Buffered", "MemRead", "read_mem")
    rbix = P.field_ix(B, 0, "read_buf")
    LEN, RB = init("LEN"), init("RBLEN")
    def onrb(e, st, c):
        if not c.args or c.args[0][0] != "ref": return None
        p = recv_path(e, st, c)
        if not p or "read_buf" not in fields_on(p): return None
        m = c.mname
        last = [x for x in (st.aut or ()) if x[0] == "io"]
        if m in ("is_empty", "has_remaining"):
            neg = m == "has_remaining"
            def t(s): s.facts[RB[1]] = ("in", frozenset((0,))); s.heap[cell("rblen")] = ("int", 0); return FALSE if neg else TRUE
            def f(s): s.facts[RB[1]] = ("rng", 1, 2**62, frozenset()); return TRUE if neg else FALSE
            k = st.dom(RB[1])
            if last: return [(FALSE if neg else TRUE, None)] if last[-1][1] == "zero" else [(TRUE if neg else FALSE, None)]
            return [(t, ("empty", 1)), (f, ("empty", 0))]
        if m in ("len", "remaining"):
            if last: return [(init("GOT") if last[-1][1] == "some" else ("int", 0), None)]
            return [(e.typed(st, RB, "usize"), None)]
        if m in ("split_to", "split_off", "split", "copy_to_bytes", "advance", "truncate", "clear", "freeze"):
            return [(init("PREFIX") if m in ("split_to", "copy_to_bytes") else init("CUT_" + m), ("cut", m, c.args[1] if len(c.args) > 1 else None))]
        return None
    def onio(e, st, c):
        if any(x[0] == "io" for x in (st.aut or ())): return "stop"
        def got(s): s.facts[init("GOT")[1]] = ("rng", 1, 2**62, frozenset()); return ready(ok(init("GOT")))
        return [(PENDING, ("io", "pending")), (ready(err(init("ioerr"))), ("io", "err")), (ready(ok(("int", 0))), ("io", "zero")), (got, ("io", "some"))]
    r = Rec([(named("Buffered::poll_read_from_io"), onio), (lambda c, e, st: True, onrb)])
    e = ctx.engine(rule=r)
    e.run(rm, [mref("self"), mref("cx"), LEN], facts={LEN[1]: ("rng", 1, 2**64 - 1, frozenset())})
    for st, c in r.stopped: ctx.bad("mem-twice", "read_mem reads the transport twice")
    for st, v in e.finals:
        evs = st.aut or ()
        io = [x for x in evs if x[0] == "io"]; cuts = [x for x in evs if x[0] == "cut"]
        emp = [x for x in evs if x[0] == "empty"]
        if io and io[0][1] in ("pending", "err"):
            good = not cuts and (is_adt(v, "Pending") if io[0][1] == "pending" else unwrap(v, "Ready", "Err") is not None)
            ctx.check(good, "read_mem outcomes", "mem-" + io[0][1], "read_mem: transport %s yields %s" % (io[0][1], show(v)[:60])); continue
        z = io and io[0][1] == "zero"
        have = init("GOT") if io and not z else (("int", 0) if z else RB)
        good = len(cuts) == (0 if z and not cuts else 1) and all(x[1] in ("split_to", "copy_to_bytes") for x in cuts)
        ctx.check(good, "read_mem takes one prefix", "mem-cut", "read_mem does not take exactly one prefix of the buffer: %s" % (cuts,))
        for x in cuts:
            n = x[2]
            ismin = n[0] == "sym" and TERMS[n[1]][0] == "call" and TERMS[n[1]][1] == "min" and {TERMS[n[1]][2], TERMS[n[1]][3]} == {LEN, have}
            ismin = ismin or (entails_le(st, n, LEN) and entails_le(st, n, have) and (n == LEN or n == have)) or (z and st.val_int(n) == 0) \
                or (n[0] == "sym" and TERMS[n[1]][0] == "call" and TERMS[n[1]][1] == "min" and ("int", 0) in TERMS[n[1]][2:] and z)
            ctx.check(ismin, "read_mem prefix length", "mem-len", "read_mem takes %s bytes, not min(requested, available)" % show(n)[:80])
        if not io: ctx.check(any(x[1] == 0 for x in emp) or not emp, "no transport read while bytes are buffered", "mem-empty", "read_mem returns end of input without reading the transport")
        else: ctx.check(any(x[1] == 1 for x in emp), "no transport read while bytes are buffered", "mem-order", "read_mem reads the transport without testing that the buffer is empty")
        if cuts: ctx.check(init("PREFIX")[1] in terms_in(v), "read_mem returns the prefix", "mem-ret", "read_mem does not return the bytes it took from the buffer")
    # ---- who may consume the buffer
    ctx.rule("who may consume: apart from read_mem, only head parsing, leading-line skipping and the hand-over of the connection remove bytes from the read buffer")
    CONSUME = ("split_to", "split_off", "split", "advance", "truncate", "clear", "copy_to_bytes", "set_len", "get_u8", "copy_to_slice", "take")
    roots = reach_consumers(P, CONSUME)
    for fn, what, ok_ in roots:
        ctx.check(ok_, "buffer consumers", "consumer:%s:%s" % (P.short(fn.n), what), "%s (%s) removes bytes from the read buffer with %s" % (fn.n, where(fn.span), what))
    ctx.floor("buffer consumers", 3)
    ctx.floor("read_mem prefix length", 2)
    ctx.floor("remaining decreases by what was delivered", 1)

def reach_consumers(P, names):
    """functions that call a consuming method on a place through field read_buf of Buffered"""
    out = []
    Bp = P.adt("proto::h1::io::Buffered")["path"]
    for f in P.fns.values():
        if not f.local: continue
        # locals that hold a (re)borrow of .read_buf
        ali = set()
        ch = True
        def is_rb(p):
            return any(isinstance(x, list) and x[0] == "f" and x[2] == "read_buf" for x in p[1])
        while ch:
            ch = False
            for stmts, term, cl in f.blocks:
                for s in stmts:
                    if s[0] == "=" and not s[1][1]:
                        r = s[2]
                        src = r[2] if r[0] in ("ref", "raw") else (r[1][1] if r[0] == "use" and r[1][0] in ("cp", "mv") else None)
                        if src and (is_rb(src) or src[0] in ali and not [x for x in src[1] if x != "*"]) and s[1][0] not in ali:
                            ali.add(s[1][0]); ch = True
        for stmts, term, cl in f.blocks:
            if term[0] != "call" or "op" in term[1]: continue
            nm = term[1].get("name") or term[1]["n"].split("::")[-1]
            if nm in names and term[2] and term[2][0][0] in ("cp", "mv"):
                p = term[2][0][1]
                if is_rb(p) or p[0] in ali:
                    ty = P.ty(f.locals[p[0]][0])
                    if "BytesMut" not in repr(ty) and "Bytes" not in repr(ty): continue
                    s = P.short(f.n)
                    allowed = s.endswith("Buffered::consume_leading_lines") or "MemRead" in s or s.endswith("read_mem") or nm == "split_to" and ("Buffered" in s)
                    out.append((f, nm, allowed or "Buffered" in s and nm == "advance" and s.endswith("consume_leading_lines")))
    return out

def cast_of(want, N):
    """want is N, a lossless/saturating conversion of N, or min(.., N)"""
    if want == N: return True
    ts = terms_in(want)
    return N[1] in ts and all(TERMS[x][0] != "bin" for x in ts) or (want[0] == "int" and want[1] == 2**64 - 1)
