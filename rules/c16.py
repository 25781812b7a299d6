"""Queued bytes: in order, all of them, flushed before idling, closing or handing over; transport errors surface."""
from rt import *
import connlib, displib, hdrlib
from hdrlib import emit, cref
LEVEL = "other"
H0, Q0 = init("HEADERS_LEFT"), init("QUEUE_LEFT")
CH, CQ = init("HEADERS_CHUNK"), init("QUEUE_CHUNK")
IOE = init("WRITE_ERR")

def who(e, st, c):
    """the part of the write buffer a call works on"""
    if not c.args: return None
    fs = fields_on(recv_path(e, st, c)) or ()
    r = recv(e, st, c)
    if "queue" in fs or r == init("WriteBuf.queue"): return "queue"
    if "headers" in fs or r == init("WriteBuf.headers"): return "headers"
    return None

def left(st, w): return st.heap[cell("left_" + w)]
def sub(a, b): return absint_bin("Sub", a, b)
def absint_bin(op, a, b):
    if b == ("int", 0): return a
    if a == b and op == "Sub": return ("int", 0)
    return ("sym", T("bin", op, a, b))
def total(st):
    a, b = left(st, "headers"), left(st, "queue")
    return b if a == ("int", 0) else a if b == ("int", 0) else ("sym", T("bin", "Add", a, b))

def wb(P):
    def h(e, st, c):
        w = who(e, st, c)
        if w is None: return None
        m = c.mname; v = left(st, w)
        nn(st, v)
        if m == "remaining": return [(v, ("left", w, v))]
        if m == "has_remaining": return [(v_gt0(e, st, v), None)]
        if m == "chunk": return [(cref(CH if w == "headers" else CQ), None)]
        if m == "chunks_vectored":
            emit(st, ("vec", w, e.snapshot(st, c.args[1])))
            return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), None)]
        if m in ("advance",):
            n = e.as_int(c.args[1])
            emit(st, ("adv", w, n)); st.heap[cell("left_" + w)] = sub(v, n)
            return [(UNIT, None)]
        if m == "reset":
            if not is0(st, v): emit(st, ("adv", w, v, "reset"))
            st.heap[cell("left_" + w)] = ("int", 0)
            return [(UNIT, None)]
        if m in ("clear", "truncate", "drain", "pop_front", "take"): emit(st, ("lost", w, m)); return None
        return None
    def v_gt0(e, st, v):
        return TRUE if v[0] == "int" and v[1] > 0 else FALSE if v == ("int", 0) else ("sym", T("cmp", "Lt", ("int", 0), v))
    def nn(st, v):
        if v[0] == "sym" and v[1] not in st.facts: st.facts[v[1]] = ("rng", 0, 2**62, frozenset())
    def io(e, st, c):
        if not (c.trait or "").startswith("rt::"): return None
        m = c.mname
        if m in ("poll_write", "poll_write_vectored"):
            if len([x for x in st.aut or () if x[0] == "write"]) >= 2: return "stop"
            src = e.snapshot(st, c.args[2]) if m == "poll_write" else None
            lim = total(st) if m.endswith("vectored") else left(st, "headers") if src == ("rf", CH) or src == CH else left(st, "queue")
            n = init("N_WRITTEN_%d" % len([x for x in st.aut or () if x[0] == "write"]))
            def okn(s):
                s.facts[n[1]] = ("rng", 0, 2**62, frozenset())
                return ready(ok(n))
            def lim_(s):
                r = okn(s)
                c1 = ("sym", T("cmp", "Le", n, lim))
                e.assume_in(s, c1, frozenset((1,)))
                return r
            return [(PENDING, ("write", "pending", m, src)), (ready(err(IOE)), ("write", "err", m, src)), (lim_, ("write", "ok", m, src, n))]
        if m in ("poll_flush", "poll_shutdown"): return [(PENDING, (m, "pending")), (ready(err(IOE)), (m, "err")), (ready(ok(UNIT)), (m, "ok"))]
        if m == "is_write_vectored": return [(TRUE, None), (FALSE, None)]
        return None
    return [(lambda c, e, st: True, h), (lambda c, e, st: True, io)]

def start(P, strat):
    WS = P.adt("proto::h1::io::WriteStrategy"); B = P.adt("proto::h1::io::Buffered"); W = P.adt("proto::h1::io::WriteBuf")
    w = mk(P, W["path"], strategy=("adt", WS["path"], WS["vix"][strat], strat, ()), headers=init("WriteBuf.headers"), queue=init("WriteBuf.queue"))
    hp = {cell("self"): mk(P, B["path"], write_buf=w, io=init("TRANSPORT")), cell("left_headers"): H0, cell("left_queue"): Q0 if strat == "Queue" else ("int", 0)}
    return hp, {H0[1]: ("rng", 0, 2**61, frozenset()), Q0[1]: ("rng", 0, 2**61, frozenset())}

def is0(st, v): return v == ("int", 0) or upper_bound(st, v) == 0 or st.val_int(v) == 0

def flush(ctx, P):
    ctx.rule("flushing writes what is queued, head bytes first, advances by exactly what the transport took, reports success only with nothing left and the transport flushed, and turns a zero-length write and every transport error into an error")
    G = "flushing the write buffer"
    for fn in ("poll_flush", "poll_shutdown"):
        f = P.fn("Buffered::" + fn)
        for strat in ("Flatten", "Queue"):
            hp, facts = start(P, strat)
            R = Rec(wb(P), limit=80)
            e = ctx.engine(rule=R, rec=3)
            e.run(f, [mref("self"), mref("cx")], heap=hp, facts=facts)
            for st, v in e.finals: one(ctx, e, st, v, fn, strat, G, True)
            for st, c in R.stopped: one(ctx, e, st, None, fn, strat, G, False)
    ctx.floor(G, 30)

def one(ctx, e, st, v, fn, strat, G, fin):
    ev = st.aut or ()
    tx = "%s with %s: [%s] -> %s" % (fn, strat, ", ".join(" ".join(show(y)[:24] if isinstance(y, tuple) else str(y) for y in x[:3] if y is not None) for x in ev if x[0] != "left"), show(v)[:60] if v is not None else "writes again")
    ws = [i for i, x in enumerate(ev) if x[0] == "write"]
    key = "%s:%s:" % (fn, strat)
    for a, i in enumerate(ws):
        nxt = ws[a + 1] if a + 1 < len(ws) else len(ev)
        x = ev[i]
        prev = ws[a - 1] if a else -1
        if x[2].endswith("vectored"):
            vec = [y[1] for y in ev[prev + 1:i] if y[0] == "vec"]
            ctx.check(vec == ["headers", "queue"], G, key + "vec", "the buffers given to the transport are %s: %s" % (vec, tx))
        else:
            ctx.check(x[3] in (CH, ("rf", CH)) or x[3] in (CQ, ("rf", CQ)) and any(y[0] == "left" for y in ev[:i]), G, key + "src", "bytes that are not the front of the queue are written (%s): %s" % (show(x[3])[:40] if x[3] else None, tx))
        advs = [y for y in ev[i + 1:nxt] if y[0] == "adv"]
        if x[1] != "ok":
            ctx.check(not advs and fin and nxt == len(ev), G, key + "stop", "after a write that did not happen the buffer is advanced or written again: " + tx)
            ctx.check(is_adt(v, "Pending") if x[1] == "pending" else unwrap(v, "Ready", "Err") is not None and IOE[1] in terms_in(unwrap(v, "Ready", "Err")), G, key + x[1], "a %s write is reported as %s: %s" % (x[1], show(v)[:60], tx))
            continue
        n = x[4]
        if nxt == len(ev) and not fin and not advs: continue
        s = lin_total([y[2] for y in advs])
        d = lin_sub(s, linear(n)) if s is not None else None
        ctx.check(d is not None and (all(k == 0 for k in d.values()) or zero_lin(st, d)), G, key + "advance", "the transport took n bytes but the buffer is advanced by %s: %s" % ([show(y[2])[:40] for y in advs], tx))
        for y in advs:
            pass
    if ws and fin:
        last = ev[ws[-1]]
        if last[1] == "ok" and st.val_int(last[4]) == 0 or last[1] == "ok" and upper_bound(st, last[4]) == 0:
            if not is0(st, total(st)): ctx.check(unwrap(v, "Ready", "Err") is not None, G, key + "zero", "the transport takes no bytes while some are left, and the result is %s: %s" % (show(v)[:60], tx))
    if not fin:
        # writing again: progress was made
        n = ev[ws[-1]][4] if ev[ws[-1]][1] == "ok" else None
        ctx.check(n is not None and (st.val_int(n) != 0 or True) and lower(e, st, n) >= 1, G, key + "progress", "the transport is written to again after it took nothing: " + tx)
        return
    if unwrap(v, "Ready", "Ok") is not None:
        ctx.check(is0(st, total(st)), G, key + "left", "success is reported while bytes may be left in the buffer (%s): %s" % (show(total(st))[:60], tx))
        i = next((i for i, x in enumerate(ev) if x[0] == "poll_flush" and x[1] == "ok"), None)
        ctx.check(i is not None and all(j < i for j in ws), G, key + "io-flush", "success is reported without the transport being flushed after the last write: " + tx)
        if fn == "poll_shutdown": ctx.check(any(x[:2] == ("poll_shutdown", "ok") for x in ev), G, key + "io-shutdown", "shutdown is reported done without shutting the transport down: " + tx)
    for i, x in enumerate(ev):
        if x[0] == "poll_shutdown": ctx.check(any(y[:2] == ("poll_flush", "ok") for y in ev[:i]) and is0(st, total(st)), G, key + "shutdown-order", "the transport is shut down before all queued bytes are written and flushed: " + tx)
        if x[0] in ("poll_flush", "poll_shutdown") and x[1] == "err": ctx.check(unwrap(v, "Ready", "Err") is not None, G, key + "err", "an error of the transport is reported as %s: %s" % (show(v)[:60], tx))
        if x[0] in ("poll_flush", "poll_shutdown") and x[1] == "pending": ctx.check(is_adt(v, "Pending"), G, key + "pend", "an unfinished %s of the transport is reported as %s: %s" % (x[0], show(v)[:60], tx))
    ctx.check(not [x for x in ev if x[0] == "lost"], G, key + "lost", "queued bytes are thrown away: " + tx)

def lower(e, st, v):
    lo, hi = e.interval(st, v)
    if lo is not None and lo >= 1: return lo
    return 1 if not c_ok0(e, st, v) else 0
def c_ok0(e, st, v):
    s = st.fork()
    return e.assume_in(s, v, frozenset((0,)))
def lin_total(vs):
    s = {}
    for v in vs:
        l = linear(v)
        if l is None: return None
        for k, x in l.items(): s[k] = s.get(k, 0) + x
    return s
def lin_le(st, g):
    """do the facts of the path imply g <= 0 ?"""
    if set(k for k, y in g.items() if y) <= {1}: return g.get(1, 0) <= 0
    for f in known_le0(st):
        d = lin_sub(g, f)
        if set(k for k, y in d.items() if y) <= {1} and d.get(1, 0) <= 0: return True
    return False
def zero_lin(st, d): return lin_le(st, d) and lin_le(st, {k: -x for k, x in d.items()})

# ---- the pieces of the write buffer
def cursor(ctx, P):
    """Cursor<Vec<u8>>: what is left is bytes[pos..]"""
    ctx.rule("the head buffer's remaining bytes are bytes[pos..]: remaining is len - pos, advancing moves pos by exactly n, discarding the front happens only for the bytes before pos and resets pos, and reset empties it")
    G = "head buffer"
    CU = P.adt("common::io::Cursor") if False else P.adt("proto::h1::io::Cursor")
    BY, POS, LEN, N, CAP = init("BYTES"), init("POS"), init("BYTES_LEN"), init("N"), init("CAP")
    def onb(e, st, c):
        if not c.args: return False
        p = recv_path(e, st, c)
        return "bytes" in (fields_on(p) or ()) or recv(e, st, c) == BY
    def h(e, st, c):
        if not onb(e, st, c): return None
        m = c.mname
        if m in ("as_ref", "deref", "as_slice", "borrow", "deref_mut", "as_mut_slice"): return [(cref(BY), None)]
        if m == "len": return [(LEN, None)]
        if m == "capacity": return [(CAP, None)]
        if m in ("index", "get"): 
            r = e.snapshot(st, c.args[1]); emit(st, ("slice", r)); return [(cref(init("SLICE")), None)]
        if m in ("drain", "clear", "truncate", "split_off", "advance", "copy_within"): emit(st, (m, e.snapshot(st, c.args[1]) if len(c.args) > 1 else None)); return [(init("DRAIN"), None)]
        return None
    facts = {LEN[1]: ("rng", 0, 2**62, frozenset()), POS[1]: ("rng", 0, 2**62, frozenset()), N[1]: ("rng", 0, 2**62, frozenset()), CAP[1]: ("rng", 0, 2**62, frozenset())}
    fns = {}
    for nm in ("remaining", "chunk", "advance"): fns[nm] = P.trait_method(CU["path"], "Buf", nm)
    for nm in ("maybe_unshift", "reset"): fns[nm] = P.fn("Cursor::" + nm)
    for nm, f in fns.items():
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
        mut = nm not in ("remaining", "chunk")
        e.run(f, [mref("self") if mut else sref("self")] + [N] * (f.argc - 1), heap={cell("self"): mk(P, CU["path"], bytes=BY, pos=POS)}, facts=facts)
        for st, v in e.finals:
            ev = [x for x in st.aut or ()]
            pos = fget(P, st, e.read(st, (cell("self"), ())), CU, "pos", eng=e)
            tx = "%s: %s -> %s, pos becomes %s" % (nm, [(x[0], show(x[1])[:60] if x[1] else None) for x in ev], show(v)[:60], show(pos)[:60])
            if nm == "remaining": ctx.check(linear(v) is not None and lin_sub(linear(v), {LEN: 1, POS: -1, 1: 0}) in ({1: 0}, {}), G, nm, "the remaining length is not len - pos: " + tx)
            elif nm == "chunk": ctx.check(v[0] == "ref" and len(ev) == 1 and ev[0][0] == "slice" and "RangeFrom" in show(ev[0][1]) and POS[1] in terms_in(ev[0][1]), G, nm, "the next chunk is not bytes[pos..]: " + tx)
            elif nm == "advance":
                ctx.check(linear(pos) is not None and lin_sub(linear(pos), {N: 1, POS: 1, 1: 0}) in ({1: 0}, {}) and not ev, G, nm, "advancing by n moves the position differently: " + tx)
            elif nm == "maybe_unshift":
                dr = [x for x in ev if x[0] != "slice"]
                if not dr: ctx.check(pos == POS, G, nm + "-keep", "the position changes without the bytes moving: " + tx)
                else: ctx.check(len(dr) == 1 and dr[0][0] == "drain" and POS[1] in terms_in(dr[0][1]) and LEN[1] not in terms_in(dr[0][1]) and is0(st, pos) and range0(dr[0][1], POS), G, nm + "-drop", "bytes other than the ones before pos are discarded, or the position is not reset: " + tx)
            elif nm == "reset":
                ctx.check(is0(st, pos) and len(ev) == 1 and (ev[0][0] == "clear" or ev[0][0] in ("truncate",) and ev[0][1] == ("int", 0)), G, nm, "reset does not empty the buffer: " + tx)
    ctx.floor(G, 6)

def range0(v, end):
    """0..end or ..end"""
    if v[0] != "adt": return False
    n = v[1].split("::")[-1]
    return n == "Range" and v[4] == (("int", 0), end) or n == "RangeTo" and v[4] == (end,)

def parts(ctx, P):
    ctx.rule("the write buffer is its head bytes followed by its queue: its length is the sum, its front is the head bytes while there are any, advancing consumes the head bytes first, and a vectored write lists both in that order")
    G = "two-part buffer"
    W = P.adt("proto::h1::io::WriteBuf")
    N = init("N")
    HC, QC = init("HC_EMPTY"), init("X")
    def h(e, st, c):
        w = who(e, st, c)
        if w is None: return None
        m = c.mname
        v = left(st, w)
        if m == "remaining": return [(v, ("left", w, v))]
        if m == "has_remaining": return [(("sym", T("cmp", "Lt", ("int", 0), v)), None)]
        if m == "chunk":
            if w == "queue": return [(cref(CQ), ("chunk", w))]
            def em(s):
                return cref(init("EMPTY_CHUNK")) if e.assume_in(s, v, frozenset((0,))) else "drop"
            s0 = st.fork()
            o = []
            if e.assume_in(s0, v, frozenset((0,))): o.append((lambda s: (e.assume_in(s, v, frozenset((0,))), cref(init("EMPTY_CHUNK")))[1], ("chunk", w, "empty")))
            o.append((lambda s: (e.assume_rng(s, v, 1, 2**62), cref(CH))[1], ("chunk", w, "some")))
            return o
        if m == "chunks_vectored":
            n = init("VECS_" + w); st.facts[n[1]] = ("rng", 0, 64, frozenset())
            return [(n, ("vec", w, e.snapshot(st, c.args[1])))]
        if m == "advance": return [(UNIT, ("adv", w, e.as_int(c.args[1])))]
        if m == "reset": return [(UNIT, ("adv", w, v))]
        return None
    def slices(e, st, c):
        if c.args and recv(e, st, c) in (init("EMPTY_CHUNK"), CH, CQ):
            r = recv(e, st, c)
            if c.mname == "is_empty" and r != CQ: return [(TRUE if r != CH else FALSE, None)]
            if c.mname == "len" and r != CQ: return [(left(st, "headers"), None)]
        if c.args and recv(e, st, c) == init("DST") and c.mname in ("index_mut", "get_unchecked_mut", "split_at_mut"):
            r = e.snapshot(st, c.args[1]); s = mref("dst_rest"); st.heap[cell("dst_rest")] = init("DST_REST")
            return [(s if c.mname != "split_at_mut" else ("tup", (mref("dst"), s)), ("sub", r))]
        return None
    facts = {x[1]: ("rng", 0, 2**61, frozenset()) for x in (H0, Q0, N)}
    hp = lambda: {cell("self"): mk(P, W["path"], headers=init("WriteBuf.headers"), queue=init("WriteBuf.queue")), cell("left_headers"): H0, cell("left_queue"): Q0, cell("dst"): init("DST")}
    for nm in ("remaining", "chunk", "advance", "chunks_vectored"):
        f = P.trait_method(W["path"], "Buf", nm)
        args = [mref("self") if nm == "advance" else sref("self")] + ([N] if nm == "advance" else [mref("dst")] if nm == "chunks_vectored" else [])
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, slices), (lambda c, e, st: True, h)]))
        e.run(f, args, heap=hp(), facts=facts)
        for st, v in e.finals:
            ev = [x for x in st.aut or () if x[0] != "left"]
            tx = "%s: %s -> %s" % (nm, [tuple(show(y)[:60] if isinstance(y, tuple) else y for y in x) for x in ev], show(v)[:60])
            lv = linear(v)
            if nm == "remaining": ctx.check(lv is not None and lin_sub(lv, {H0: 1, Q0: 1, 1: 0}) in ({1: 0}, {}), G, nm, "the length is not head bytes + queue: " + tx)
            elif nm == "chunk":
                r = strip_ref(v)
                if is0(st, H0): ctx.check(r in (CQ, ("rf", CQ)) or CQ[1] in terms_in(v), G, nm + "-q", "with no head bytes left the front is not the queue's: " + tx)
                else: ctx.check(CH[1] in terms_in(v), G, nm + "-h", "the front is not the head bytes although some are left: " + tx)
            elif nm == "advance":
                adv = [x for x in ev if x[0] == "adv"]
                hs = lin_total([x[2] for x in adv if x[1] == "headers"]); qs = lin_total([x[2] for x in adv if x[1] == "queue"])
                tot = lin_total([x[2] for x in adv])
                ctx.check(tot is not None and zero_lin(st, lin_sub(tot, {N: 1, 1: 0})), G, nm + "-sum", "advancing by n consumes a different number of bytes: " + tx)
                # queue touched only when the head bytes are used up
                ctx.check(qs is not None and (all(y == 0 for y in qs.values()) or zero_lin(st, lin_sub(hs, {H0: 1, 1: 0}))), G, nm + "-order", "queued bytes are consumed while head bytes are left: " + tx)
                ctx.check(hs is not None and lin_le(st, lin_sub(hs, {H0: 1, 1: 0})), G, nm + "-bound", "more head bytes are consumed than there are: " + tx)
            else:
                vec = [x for x in ev if x[0] == "vec"]
                ctx.check([x[1] for x in vec] == ["headers", "queue"], G, nm + "-order", "the vectored write does not list head bytes then queue: " + tx)
                if len(vec) == 2:
                    sub = [x for x in ev if x[0] == "sub"]
                    ctx.check(len(sub) == 1 and vec[1][2] in (("rf", init("DST_REST")), init("DST_REST")) and (sub[0][1] == init("VECS_headers") or sub[0][1][0] == "adt" and sub[0][1][1].endswith("RangeFrom") and sub[0][1][4] == (init("VECS_headers"),)), G, nm + "-at", "the queue's slices are not placed right after the head's: " + tx)
                    ctx.check(lv is not None and lin_sub(lv, {init("VECS_headers"): 1, init("VECS_queue"): 1, 1: 0}) in ({1: 0}, {}), G, nm + "-count", "the number of slices is not the sum: " + tx)
    ctx.floor(G, 8)

def buffering(ctx, P):
    ctx.rule("buffering a chunk keeps all of it, once, behind what is already buffered: flattening appends every part of it and steps past exactly what was appended; queueing appends the chunk itself")
    G = "buffering a chunk"
    W = P.adt("proto::h1::io::WriteBuf"); WS = P.adt("proto::h1::io::WriteStrategy")
    BUF = init("CHUNK")
    def h(e, st, c):
        if not c.args: return None
        m = c.mname
        r = recv(e, st, c)
        if r == BUF:
            k = sum(1 for x in st.aut or () if x[0] == "chunk" and x[1] == "some")
            if m == "chunk":
                if k >= 2: return "stop"
                l = init("LEN_%d" % k)
                def nz(s): s.facts[l[1]] = ("rng", 1, 2**60, frozenset()); return cref(init("PART_%d" % k))
                return [(cref(init("NOTHING")), ("chunk", "empty")), (nz, ("chunk", "some", k))]
            if m in ("remaining", "has_remaining"): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), None)]
            if m == "advance": return [(UNIT, ("bufadv", e.as_int(c.args[1])))]
            if m in ("into", "from"): return [(BUF, None)]
        if r == init("NOTHING"):
            if m == "is_empty": return [(TRUE, None)]
            if m == "len": return [(("int", 0), None)]
        for k in range(3):
            if r == init("PART_%d" % k):
                if m == "is_empty": return [(FALSE, None)]
                if m == "len": return [(init("LEN_%d" % k), None)]
        fs = fields_on(recv_path(e, st, c)) or ()
        if m in ("extend_from_slice", "put_slice", "write_all") and "headers" in fs: return [(UNIT, ("append", e.snapshot(st, c.args[1])))]
        if m in ("push_back", "push") and ("queue" in fs or r == init("WriteBuf.queue")) and not (c.fn is not None and c.fn.local and c.fn.blocks): return [(UNIT, ("queued", c.args[1]))]
        if m in ("push_front", "insert", "clear", "truncate", "pop_front", "pop_back", "drain") and ("queue" in fs or "headers" in fs) and m != "drain": return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("odd", m))]
        if m == "maybe_unshift": return [(UNIT, None)]
        return None
    f = P.fn("WriteBuf::buffer")
    for strat in ("Flatten", "Queue"):
        hp, _ = start(P, strat)
        w = mk(P, W["path"], strategy=("adt", WS["path"], WS["vix"][strat], strat, ()), queue=init("WriteBuf.queue"))
        R = Rec([(lambda c, e, st: True, h)], limit=60)
        e = ctx.engine(rule=R, rec=3)
        e.run(f, [mref("self"), BUF], heap={cell("self"): w})
        for st, v, fin in [(s, v, True) for s, v in e.finals] + [(s, None, False) for s, c in R.stopped]:
            ev = st.aut or ()
            tx = "%s: %s" % (strat, [tuple(show(y)[:40] if isinstance(y, tuple) else y for y in x) for x in ev])
            ctx.check(not [x for x in ev if x[0] == "odd"], G, strat + "-odd", "the buffered bytes are rearranged: " + tx)
            if strat == "Queue":
                q = [x for x in ev if x[0] == "queued"]
                ctx.check(len(q) == 1 and BUF[1] in terms_in(q[0][1]) and not [x for x in ev if x[0] in ("append", "bufadv")], G, "queue", "the chunk is not queued exactly once: " + tx)
                continue
            parts_ = [i for i, x in enumerate(ev) if x[:2] == ("chunk", "some")]
            for a, i in enumerate(parts_):
                nxt = parts_[a + 1] if a + 1 < len(parts_) else len(ev)
                k = ev[i][2]
                ap = [j for j in range(i, nxt) if ev[j][0] == "append"]
                ad = [j for j in range(i, nxt) if ev[j][0] == "bufadv"]
                ctx.check(len(ap) == 1 and init("PART_%d" % k)[1] in terms_in(ev[ap[0]][1]), G, "append", "a part of the chunk is not appended exactly once: " + tx)
                ctx.check(len(ad) == 1 and ev[ad[0]][1] == init("LEN_%d" % k) and ap and ad[0] > ap[0], G, "step", "the chunk is not advanced by the part that was appended: " + tx)
            if fin: ctx.check(("chunk", "empty") in ev and not [x for x in ev if x[0] == "queued"], G, "all", "buffering stops before the chunk is used up: " + tx)
    ctx.floor(G, 6)

def deque(ctx, P):
    """BufList over an abstract deque of k buffers with arbitrary lengths >= 1"""
    ctx.rule("the queue of body buffers is first in, first out (decided for every queue of up to 3 buffers of any length): its length is the sum, its front is the first buffer, advancing consumes buffers in order, dropping a buffer only once it is used up, and vectored writes list them in order")
    G = "body queue"
    B = P.adt("common::buf::BufList")
    N = init("N")
    for k in range(4):
        R = [init("R_%d" % i) for i in range(k)]
        Bv = [init("QB_%d" % i) for i in range(k)]
        facts = {r[1]: ("rng", 1, 2**58, frozenset()) for r in R}
        facts[N[1]] = ("rng", 0, 2**60, frozenset())
        def popped(st): return sum(1 for x in st.aut or () if x[0] == "pop")
        def bref(i): return mref("qb_%d" % i)
        def ix(e, st, c):
            if c.args and c.args[0][0] == "ref":
                v = recv(e, st, c)
                if v in Bv: return Bv.index(v)
            return None
        def h(e, st, c):
            if not c.args: return None
            m = c.mname
            i = ix(e, st, c)
            if i is not None:
                if m == "remaining": return [(st.heap[cell("rem_%d" % i)], None)]
                if m == "has_remaining": return [(("sym", T("cmp", "Lt", ("int", 0), st.heap[cell("rem_%d" % i)])), None)]
                if m == "chunk": return [(cref(init("QCHUNK_%d" % i)), None)]
                if m == "advance":
                    n = e.as_int(c.args[1]); old = st.heap[cell("rem_%d" % i)]
                    emit(st, ("adv", i, n, old, popped(st))); st.heap[cell("rem_%d" % i)] = sub(old, n)
                    return [(UNIT, None)]
                if m == "chunks_vectored":
                    n = init("VECS_%d" % i); st.facts[n[1]] = ("rng", 0, 64, frozenset())
                    return [(n, ("vec", i, e.snapshot(st, c.args[1])))]
                return None
            fs = fields_on(recv_path(e, st, c)) or ()
            r = recv(e, st, c)
            if r == init("DST") or r == init("DST_REST"):
                if m in ("index_mut",):
                    st.heap[cell("dst_rest")] = init("DST_REST"); return [(mref("dst_rest"), ("sub", e.snapshot(st, c.args[1])))]
                if m == "len": return [(init("DST_LEN"), None)]
                if m == "is_empty": return [(("sym", T("cmp", "Eq", init("DST_LEN"), ("int", 0))), None)]
            if "bufs" in fs or r == init("DEQUE"):
                p = popped(st)
                if m in ("iter", "iter_mut", "into_iter"): return [(init("ITER"), ("iter",))]
                if m == "len": return [(("int", k - p), None)]
                if m == "is_empty": return [(TRUE if k == p else FALSE, None)]
                if m in ("front", "front_mut"): return [(some(bref(p)) if p < k else NONE, None)]
                if m in ("get", "get_mut", "index", "index_mut"):
                    j = e.as_int(c.args[1])
                    if j != ("int", 0): return None
                    if m.startswith("get"): return [(some(bref(p)) if p < k else NONE, None)]
                    return [(bref(p), None)] if p < k else "stop"
                if m == "pop_front":
                    if p >= k: return "stop"
                    return [(some(Bv[p]), ("pop", p, st.heap[cell("rem_%d" % p)]))]
                if m == "push_back": return [(UNIT, ("push", c.args[1]))]
                if m in ("pop_back", "push_front", "clear", "truncate", "drain", "remove", "rotate_left", "swap"): return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("odd", m))]
            if r == init("ITER") or c.args[0] == init("ITER"):
                if m in ("into_iter", "by_ref"): return [(c.args[0], None)]
                if m == "next":
                    j = sum(1 for x in st.aut if x[0] == "next")
                    return [(some(bref(j)) if j < k else NONE, ("next", j))]
                if m in ("map", "fold", "sum", "for_each", "take", "take_while", "skip"):
                    if m == "map": return [(("tup", (init("MAPPED"), c.args[1])), None)]
                    if m == "fold":
                        acc = c.args[1]
                        for j in range(k):
                            acc = call(e, st, c.args[2], [acc, bref(j)], h)
                            if acc is None: return None
                        return [(acc, None)]
            if c.args[0][0] == "tup" and c.args[0][1] and c.args[0][1][0] == init("MAPPED") and m == "sum":
                acc = ("int", 0)
                for j in range(k):
                    x = call(e, st, c.args[0][1][1], [bref(j)], h)
                    if x is None: return None
                    acc = x if acc == ("int", 0) else ("sym", T("bin", "Add", acc, x))
                return [(acc, None)]
            return None
        def call(e, st, clo, args, h):
            e2 = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]))
            f = P.fns.get(clo[1]) if clo[0] in ("clo", "fn") else None
            if f is None or not f.blocks:
                nm = str(clo)
                if "remaining" in nm and args and args[-1][0] == "ref": return st.heap.get(cell("rem_%s" % args[-1][1][0][1][3:]))
                return None
            hp = dict(st.heap); hp[cell("clo")] = clo
            e2.run(f, [mref("clo") if P.ty(f.locals[1][0])[0] == "ref" else clo] + args, heap=hp, facts=st.facts)
            vs = {v for _, v in e2.finals}
            return vs.pop() if len(vs) == 1 else None
        for nm in ("remaining", "chunk", "advance", "chunks_vectored", "push"):
            f = P.fn("BufList::push") if nm == "push" else P.trait_method(B["path"], "Buf", nm)
            if nm == "push" and k != 1: continue
            mut = nm in ("advance", "push")
            args = [mref("self") if mut else sref("self")] + ([N] if nm == "advance" else [mref("dst")] if nm == "chunks_vectored" else [init("NEWBUF")] if nm == "push" else [])
            fc = dict(facts)
            st_facts = fc
            if nm == "advance":
                tot = ("int", 0)
                for r in R: tot = r if tot == ("int", 0) else ("sym", T("bin", "Add", tot, r))
            rec = Rec([(lambda c, e, st: True, h)], limit=80)
            e = ctx.engine(rule=rec, rec=k + 2)
            e.widen_from = k + 3
            hp = {cell("self"): mk(P, B["path"], bufs=init("DEQUE")), cell("dst"): init("DST")}
            for i in range(k): hp[cell("qb_%d" % i)] = Bv[i]; hp[cell("rem_%d" % i)] = R[i]
            fc[init("DST_LEN")[1]] = ("rng", 1, 2**30, frozenset())
            e.run(f, args, heap=hp, facts=fc)
            for st, v in e.finals:
                ev = st.aut or ()
                tx = "%s with %d buffers: %s -> %s" % (nm, k, [tuple(show(y)[:30] if isinstance(y, tuple) else y for y in x) for x in ev if x[0] not in ("iter", "next")], show(v)[:80])
                ctx.check(not [x for x in ev if x[0] == "odd"], G, nm + "-odd", "buffers are removed or added at the wrong end: " + tx)
                lv = linear(v)
                if nm == "remaining": ctx.check(lv is not None and lin_sub(lv, dict([(r, 1) for r in R] + [(1, 0)])) in ({1: 0}, {}), G, nm, "the length is not the sum of the buffers: " + tx)
                elif nm == "chunk": ctx.check(init("QCHUNK_0")[1] in terms_in(v) if k else not [t for t in terms_in(v) if "QCHUNK" in show(("sym", t))], G, nm, "the front is not the first buffer: " + tx)
                elif nm == "push": ctx.check([x for x in ev if x[0] == "push"] and [x[1] for x in ev if x[0] == "push"] == [init("NEWBUF")], G, nm, "a new buffer is not appended at the end exactly once: " + tx)
                elif nm == "advance":
                    adv = [x for x in ev if x[0] == "adv"]
                    tot = lin_total([x[2] for x in adv])
                    if not ctx.check(tot is not None and zero_lin2(st, lin_sub(tot, {N: 1, 1: 0})), G, nm + "-sum", "advancing by n consumes a different number of bytes: " + tx): continue
                    ctx.check(all(x[1] == x[4] for x in adv), G, nm + "-order", "a buffer behind the front is consumed: " + tx)
                    for i in {x[1] for x in adv} - {x[1] for x in ev if x[0] == "pop"}:
                        g = {a: -b for a, b in (linear(st.heap[cell("rem_%d" % i)]) or {}).items()}
                        g[1] = g.get(1, 0) + 1
                        ctx.check(lin_le(st, g), G, nm + "-empty", "a used-up buffer stays in the queue: " + tx)
                    for x in ev:
                        if x[0] == "pop": ctx.check(zero_lin2(st, linear(x[2])), G, nm + "-pop", "a buffer is dropped although it may have bytes left (%s): %s" % (show(x[2]), tx))
                elif nm == "chunks_vectored":
                    vec = [x for x in ev if x[0] == "vec"]
                    ctx.check([x[1] for x in vec] == list(range(len(vec))), G, nm + "-order", "buffers are listed out of order or skipped: " + tx)
                    ctx.check(lv is not None and lin_sub(lv, dict([(init("VECS_%d" % i), 1) for i in range(len(vec))] + [(1, 0)])) in ({1: 0}, {}), G, nm + "-count", "the number of slices is not the sum: " + tx)
                    subs = [x[1] for x in ev if x[0] == "sub"]
                    for i, sb in enumerate(subs):
                        l = linear(sb[4][0]) if sb[0] == "adt" and sb[1].endswith("RangeFrom") else None
                        ctx.check(l is not None and lin_sub(l, dict([(init("VECS_%d" % j), 1) for j in range(i)] + [(1, 0)])) in ({1: 0}, {}), G, nm + "-at", "a buffer's slices are not placed right behind the previous one's: " + tx)
                    ctx.check(len(subs) == len(vec), G, nm + "-each", tx)
                    if len(vec) < k:
                        l = dict([(init("VECS_%d" % i), 1) for i in range(len(vec))] + [(1, 0)])
                        ctx.check(zero_lin2(st, lin_sub(l, {init("DST_LEN"): 1, 1: 0})), G, nm + "-stop", "listing stops although there is room: " + tx)
    ctx.floor(G, 25)

def zero_lin2(st, g):
    """as zero_lin, using up to three facts"""
    ks = [f for f in known_le0(st) if len([x for x in f if x != 1 and f[x]]) <= 5]
    def le(g, d):
        if set(k for k, y in g.items() if y) <= {1}: return g.get(1, 0) <= 0
        if d == 0: return False
        return any(le(lin_sub(g, f), d - 1) for f in ks if any(k != 1 and y and g.get(k, 0) * y > 0 for k, y in f.items()))
    return le(g, 3) and le({k: -x for k, x in g.items()}, 3)

def conn_flush(ctx, L):
    ctx.rule("the connection's flush writes everything out, and may skip that only when another message is about to be read from bytes already received; its result is the transport's; shutting down goes through the same flush")
    n = 0
    for role in ("server", "client"):
        for f in L.ent:
            if f.name not in ("poll_flush", "poll_shutdown"): continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        for t in L.run(f, role, r, w, k):
                            ops = [x for x in t.ev if x[0] in ("poll_flush", "poll_shutdown")]
                            okd = unwrap(t.ret, "Ready", "Ok") is not None
                            erd = unwrap(t.ret, "Ready", "Err")
                            if f.name == "poll_flush" and not ops:
                                # skipped
                                nr = t.st.val_int(t.sf("notify_read"))
                                ctx.check(okd and nr == 1, "skipping a flush", "skip:" + t.key(), "the flush is skipped although the connection will not be asked to read again; " + t.text())
                                l = [x for x in t.ev if x[0] == "rbempty"]
                                ctx.check(bool(l) and l[0][1] == FALSE, "skipping a flush", "skip-buf:" + t.key(), "the flush is skipped although there is nothing to parse; " + t.text())
                                continue
                            if not ops: ctx.check(False, "the flush's result", "no-op:" + t.key(), "the transport is not shut down; " + t.text()); continue
                            o = ops[0][1]
                            ctx.check(ops[0][0] == f.name, "the flush's result", "which:" + t.key(), t.text())
                            ctx.check(is_adt(t.ret, "Pending") if o == "pending" else erd is not None and init("IO_ERR")[1] in terms_in(erd) if o == "err" else okd, "the flush's result", "result:%s:%s" % (o, t.key()), "a %s %s of the transport is reported as %s; %s" % (o, f.name, show(t.ret)[:60], t.text()))
    ctx.floor("skipping a flush", 2); ctx.floor("the flush's result", 40)

def order(ctx, L):
    """a head (or interim response) is only started with no body byte queued"""
    ctx.rule("the connection becomes ready for another head only while no body byte is queued, bytes are put into the head buffer only in that state, and body bytes only while a body is being written: so no head or interim response overtakes a queued body")
    for role in ("server", "client"):
        for f in L.ent:
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        for t in L.run(f, role, r, w, k):
                            wr = [i for i, x in enumerate(t.ev) if x[0] in ("hbuf", "encode", "end", "encend", "trailers", "encode_head") or x[:2] == ("io", "buffer")]
                            if t.post[1] == "Init" and w != "Init":
                                last = max([i for i, x in enumerate(t.ev) if x == ("can_headers_buf", TRUE)], default=-1)
                                body = [i for i in wr if t.ev[i][0] not in ("hbuf", "encode_head")]
                                ctx.check(last >= 0 and all(i < last for i in body), "ready for another head", "idle:" + t.key(), "another head can be started although body bytes may still be queued; " + t.text())
                            heads = [i for i, x in enumerate(t.ev) if x[0] in ("hbuf", "encode_head")]
                            if heads: ctx.check(w == "Init", "head bytes are queued first", "head:" + t.key(), "head bytes are queued while a body is being (or has been) written; " + t.text())
                            bod = [i for i in wr if i not in heads and t.ev[i][0] != "end" or t.ev[i][0] == "end" and t.ev[i][1] == "some"]
                            if bod: ctx.check(w == "Body" or bool(heads), "body bytes belong to a body", "body:" + t.key(), "body bytes are queued although no body is being written; " + t.text())
    ctx.floor("ready for another head", 4); ctx.floor("head bytes are queued first", 2); ctx.floor("body bytes belong to a body", 4)

def loop(ctx, D):
    ctx.rule("the dispatcher flushes after everything it wrote before it goes idle or yields, and reports the error of a read, write or flush")
    G = "the loop flushes what it wrote"
    def outs(nm):
        def h(e, st, c):
            if sum(1 for x in st.aut or () if x[:2] == ("stub", nm)) >= (2 if nm == "poll_read" else 3): return "stop"
            er = init("ERR_" + nm)
            return [(PENDING, ("stub", nm, "pending")), (ready(ok(UNIT)), ("stub", nm, "ok")), (ready(err(er)), ("stub", nm, "err"))]
        return h
    stub = [(nm, outs(nm)) for nm in ("poll_read", "poll_write")]
    D.MUT_ONCE = tuple(x for x in D.MUT_ONCE if x != "poll_flush")
    for role in ("server", "client"):
        for kw in (dict(body_rx=True), dict()):
            for p in D.run("poll_loop", role=role, stub=stub, **kw):
                ws = [i for i, x in enumerate(p.ev) if x[:2] == ("stub", "poll_write")]
                er = [x for x in p.ev if x[0] in ("stub", "op") and x[2] == "err"]
                for x in er:
                    v = None if p.ret is None else unwrap(p.e.snapshot(p.st, p.ret), "Ready", "Err")
                    nm = init("ERR_" + x[1])
                    ctx.check(x is p.ev[-1] and v is not None and nm[1] in terms_in(v), "errors end the loop", "err:%s" % x[1], "an error of %s is not reported; %s" % (x[1], p.text()))
                if er or p.again or p.ret is None or ("yield",) in p.ev: continue
                fl = max([i for i, x in enumerate(p.ev) if x[:2] == ("op", "poll_flush")], default=-1)
                if fl >= 0: ctx.check(("op", "wants_read_again", FALSE) in p.ev[fl:] , G, "again:%s" % role, "the dispatcher stops after a flush that may have been put off, without asking whether there is more to read; " + p.text())
                for i in ws[-1:]:
                    fl = any(x[:2] == ("op", "poll_flush") for x in p.ev[i:]) or any(x == ("q", "has_buffered_write", FALSE) for x in p.ev[i:])
                    ctx.check(fl, G, "flush:%s" % role, "the dispatcher stops after writing without flushing; " + p.text())
                if not ws: ctx.check(False, G, "write:%s" % role, "the dispatcher stops without having tried to write; " + p.text())
    ctx.floor(G, 20); ctx.floor("errors end the loop", 12)

def handover(ctx, D, P):
    ctx.rule("the transport is handed over - to an upgrade, or to the caller that asked for no shutdown - only after a completed flush, and is otherwise shut down (which flushes first) when the connection is done; failures of either are reported")
    G = "flushed before it is let go"
    C, S = P.adt("proto::h1::conn::Conn"), P.adt("proto::h1::conn::State")
    B = P.adt("proto::h1::io::Buffered")
    def io(e, st, c):
        if c.mname not in ("poll_flush", "poll_shutdown") or not c.args: return None
        if c.short.split("::")[-2:] not in (["Buffered", "poll_flush"], ["Buffered", "poll_shutdown"]): return None
        return [(PENDING, ("io", c.mname, "pending")), (ready(err(init("IO_ERR"))), ("io", c.mname, "err")), (ready(ok(UNIT)), ("io", c.mname, "ok"))]
    def lp(e, st, c): return [(PENDING, ("stub", "poll_loop", "pending")), (ready(ok(UNIT)), ("stub", "poll_loop", "ok")), (ready(err(init("LOOP_ERR"))), ("stub", "poll_loop", "err"))]
    def date(e, st, c): return [(UNIT, None)] if c.mname == "update_date" else None
    for role in ("server", "client"):
        for up in (some(init("UPGRADE")), NONE):
            for sh in (TRUE, FALSE):
                for kw in (dict(body_rx=True), dict(), dict(closing=TRUE)):
                    conn = mk(P, C["path"], state=mk(P, S["path"], upgrade=up, error=init("STATE_ERROR")), io=init("BUFFERED"))
                    for p in D.run("poll_inner", role=role, stub=[("poll_loop", lp)], extra_args=[sh], conn=conn,
                                   inline=("poll_flush_handover", "has_pending_upgrade", "pending_upgrade", "poll_shutdown", "take_error", "poll_flush"), extra=[(lambda c, e, st: True, io), (lambda c, e, st: True, date)], **kw):
                        if p.ret is None: continue
                        tx = "upgrade %s, shutdown %s: %s" % ("pending" if up != NONE else "none", "wanted" if sh == TRUE else "not wanted", p.text())
                        l = [x for x in p.ev if x[0] == "stub"]
                        if l and l[0][2] != "ok":
                            ctx.check(is_adt(p.ret, "Pending") if l[0][2] == "pending" else unwrap(p.ret, "Ready", "Err") is not None, G, "loop", "the loop's outcome is not passed on; " + tx); continue
                        bad = [x for x in p.ev if x[0] == "io" and x[2] != "ok"]
                        if bad:
                            ctx.check(bad[0] is [x for x in p.ev if x[0] == "io"][-1] and (is_adt(p.ret, "Pending") if bad[0][2] == "pending" else unwrap(p.ret, "Ready", "Err") is not None and init("IO_ERR")[1] in terms_in(p.e.snapshot(p.st, p.ret))), G, "bad-%s" % bad[0][2], "a %s %s is ignored; %s" % (bad[0][2], bad[0][1], tx)); continue
                        d = unwrap(p.ret, "Ready", "Ok")
                        if d is None:
                            if is_adt(p.ret, "Pending"): ctx.ok("not done yet")
                            continue        # an error recorded earlier
                        done = [x[1] for x in p.ev if x[0] == "io"]
                        if is_adt(d, "Upgrade"):
                            ctx.check("poll_flush" in done and up != NONE, G, "upgrade", "the transport is handed to the upgrade without the queued bytes being flushed; " + tx)
                        else:
                            ctx.check(is_adt(d, "Shutdown") and ("poll_shutdown" in done if sh == TRUE else "poll_flush" in done), G, "done-%s" % ("shutdown" if sh == TRUE else "handover"), "the connection ends without %s; %s" % ("shutting the transport down" if sh == TRUE else "flushing what is queued", tx))
                            if sh == TRUE or up == NONE: pass
    ctx.floor(G, 20)

def run(ctx):
    P = ctx.prog()
    flush(ctx, P)
    cursor(ctx, P); parts(ctx, P); buffering(ctx, P); deque(ctx, P)
    L = connlib.Lib(ctx)
    conn_flush(ctx, L); order(ctx, L)
    D = displib.Disp(ctx)
    loop(ctx, D); handover(ctx, D, P)
