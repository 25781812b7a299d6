"""Read-buffer cursors never expose uninitialised or out-of-range memory."""
from rt import *
from c25 import le, add, sub, zero_lin
LEVEL = "other"
F, I, CAP = init("FILLED"), init("INIT"), init("CAPACITY")
RAW = init("MEMORY")
I0 = ("int", 0)

def rng(buf, s, e): return ("adt", "hv::Range", 0, "Range", (buf, s, e))
def isr(v): return v is not None and v[0] == "adt" and v[1] == "hv::Range"
def ptr(buf, s, e): return ("adt", "hv::Ptr", 0, "Ptr", (buf, s, e))
def isp(v): return v is not None and v[0] == "adt" and v[1] == "hv::Ptr"
def slen(e, st, v):
    """length of a slice argument"""
    n = 0
    while v[0] == "ref" and n < 4:
        x = e.read(st, v[1])
        if isr(x): return sub(x[4][2], x[4][1])
        v, n = x, n + 1
        if v[0] != "ref": break
    return None

def slices():
    """operations on slices and raw pointers, as ranges of one memory block"""
    k = [0]
    def cellref(st, v, mut=1):
        k[0] += 1
        nm = cell("hv_rng%d" % (len(st.heap)))
        while nm in st.heap: k[0] += 1; nm = cell("hv_rng%d_%d" % (len(st.heap), k[0]))
        st.heap[nm] = v
        return ("ref", (nm, ()), mut)
    def assume(e, st, a, b):
        """a <= b from here on (otherwise the operation panics)"""
        return [s for x, s in bools(e, st, e.compare(st, "Le", a, b, "usize")) if x]
    def h(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if m in ("min", "max") and len(c.args) == 2 and c.args[0][0] in ("sym", "int") and c.args[1][0] in ("sym", "int"):
            out = []
            for x, s in bools(e, st, e.compare(st, "Le", c.args[0], c.args[1], "usize")):
                out += e.finish(s, c.dest, c.target, c.args[0] if bool(x) == (m == "min") else c.args[1])
            return ("states", out)
        if not c.args: return None
        a0 = c.args[0]
        r = recv(e, st, c)
        if isp(a0) or len(c.args) > 1 and isp(c.args[1]):
            if m in ("cast", "cast_mut", "cast_const", "as_ptr", "as_mut_ptr"): return [(a0, None)]
            if m in ("add", "offset", "wrapping_add", "byte_add") and isp(a0):
                return [(ptr(a0[4][0], add(a0[4][1], c.args[1]), a0[4][2]), ("within", add(a0[4][1], c.args[1]), a0[4][2]))]
            if m in ("copy_from_nonoverlapping", "copy_from") and isp(a0): d, s, n = a0, c.args[1], c.args[2]
            elif m in ("copy_to_nonoverlapping", "copy_to"): s, d, n = c.args[:3]
            elif m in ("copy_nonoverlapping", "copy"): s, d, n = c.args[:3]
            elif m == "write_bytes": d, s, n = a0, None, c.args[2]
            elif m == "write": d, s, n = a0, None, ("int", 1)
            elif m in ("from_raw_parts", "from_raw_parts_mut"):
                end = add(a0[4][1], c.args[1])
                st.aut = (st.aut or ()) + (("within", end, a0[4][2]),)
                return [(cellref(st, rng(a0[4][0], a0[4][1], end)), None)]
            else: return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("unknown", m))]
            if not isp(d): return [(UNIT, ("unknown", "write to " + show(d)[:60]))]
            end = add(d[4][1], n)
            return [(UNIT, ("write", d[4][0], d[4][1], end, d[4][2], "bytes" if s is None else (s, n)))]
        if isr(r):
            b, s, x = r[4]
            if m in ("len",): return [(sub(x, s), None)]
            if m in ("as_mut_ptr", "as_ptr", "as_mut_ptr_range"): return [(ptr(b, s, x), None)]
            if m in ("index", "index_mut", "get_unchecked", "get_unchecked_mut"):
                g = c.args[1]
                n = g[1].split("::")[-1] if g[0] == "adt" else None
                if n == "RangeTo": a, z = s, add(s, g[4][0])
                elif n == "Range": a, z = add(s, g[4][0]), add(s, g[4][1])
                elif n == "RangeFrom": a, z = add(s, g[4][0]), x
                elif n == "RangeFull": a, z = s, x
                else: return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("unknown", m))]
                out = []
                if "unchecked" in m:
                    st.aut = (st.aut or ()) + (("within", z, x), ("within", a, z))
                    sts = [st]
                else: sts = [s3 for s2 in assume(e, st, z, x) for s3 in assume(e, s2, a, z)]
                for s2 in sts:
                    s2.own() if hasattr(s2, "own") else None
                    out += e.finish(s2, c.dest, c.target, cellref(s2, rng(b, a, z)))
                return ("states", out)
            if m in ("split_at", "split_at_mut"):
                mid = add(s, c.args[1]); out = []
                for s2 in assume(e, st, mid, x): out += e.finish(s2, c.dest, c.target, ("tup", (cellref(s2, rng(b, s, mid)), cellref(s2, rng(b, mid, x)))))
                return ("states", out)
            if m in ("copy_from_slice", "clone_from_slice", "write_copy_of_slice", "write_slice"):
                l = length_of(e, st, c.args[1]); out = []
                if l is None: return [(UNIT, ("unknown", m))]
                for s2 in assume(e, st, l, sub(x, s)):
                    for s3 in assume(e, s2, sub(x, s), l):
                        s3.aut = (s3.aut or ()) + (("write", b, s, x, x, (c.args[1], l)),)
                        out += e.finish(s3, c.dest, c.target, UNIT)
                return ("states", out)
            if m in ("fill",): return [(UNIT, ("write", b, s, x, x, "bytes"))]
            if m in ("as_uninit_slice_mut", "deref", "deref_mut", "as_mut", "as_ref", "borrow_mut", "slice_assume_init_mut", "slice_assume_init_ref", "assume_init_mut", "assume_init_ref"): return [(a0, None)]
            if m in ("iter", "iter_mut"): return [(init("ITER"), ("unknown", m))]
        return None
    return [(lambda c, e, st: True, h)]

def length_of(e, st, v):
    l = slen(e, st, v)
    if l is not None: return l
    try: return e.length(st, v)
    except Exception: return None

def le_facts(e, pairs):
    """facts for a <= b between symbols"""
    from absint import State
    out = {}
    for a, b in pairs:
        t = T("cmp", "Lt", b, a)
        out[t] = ("in", frozenset((0,)))
    return out

def run(ctx):
    P = ctx.prog("a")
    B = P.adt("rt::io::ReadBuf"); C = P.adt("rt::io::ReadBufCursor")
    ctx.rule("read buffer: every function of the buffer and its cursor, run on any buffer with filled <= initialised <= capacity, leaves it so; initialised grows only over bytes written in that call from its old end on (or by an unsafe fn's contract); filled never shrinks; writes and raw pointers stay within the memory; byte slices handed out end at or before the initialised part")
    for a in (B, C):
        for fl in a["variants"][0][2]: ctx.check(fl[2] == "priv", "fields are private", "priv:%s.%s" % (a["path"], fl[0]), "field %s of %s can be set from outside its module" % (fl[0], a["path"]))
    ctx.floor("fields are private", 4)
    BOUND = {F[1]: ("rng", 0, 2**63 - 1, frozenset()), I[1]: ("rng", 0, 2**63 - 1, frozenset()), CAP[1]: ("rng", 0, 2**63 - 1, frozenset())}
    PRE = dict(BOUND); PRE.update(le_facts(None, [(F, I), (I, CAP), (F, CAP)]))
    SRC = init("SRC"); N = init("N"); SLEN = ("sym", T("len", ("rf", SRC)))
    def buf(): return mk(P, B["path"], raw=mref("raw"), filled=F, init=I)
    def heap(): return {cell("raw"): rng(RAW, I0, CAP), cell("buf"): buf(), cell("self"): mk(P, C["path"], buf=mref("buf"))}
    def isty(t, a):
        return t[0] == "adt" and t[1] == a["path"]
    def recvty(f):
        if not f.argc: return None
        t = P.ty(f.locals[1][0])
        return (t[2], "ref") if t[0] == "ref" else (t, "val")
    mod = [f for f in P.fns.values() if f.local and owner(P, f) in (B["path"], C["path"]) and "{closure" not in f.n]
    seen = {}
    for f in sorted(mod, key=lambda f: f.n):
        if f.trait and f.trait.split("::")[-1] in ("Debug",): continue
        if f.name == "fmt": continue
        rt = recvty(f)
        args, h = [], heap()
        if rt and (isty(rt[0], B) or isty(rt[0], C)):
            nm = "buf" if isty(rt[0], B) else "self"
            args.append(mref(nm) if rt[1] == "ref" else h[cell(nm)])
        pre = dict(PRE)
        ctor = not args
        for i in range(len(args) + 1, f.argc + 1):
            t = P.ty(f.locals[i][0])
            if t[0] == "ref" and t[2][0] == "slice":
                if ctor: args.append(mref("raw"))
                else: args.append(sref("SRC")); h[cell("SRC")] = SRC if False else h.get(cell("SRC"), SRC)
            else: args.append(N)
        pre[N[1]] = ("rng", 0, 2**64 - 1, frozenset())
        lenhint = []
        def srclen(e, st, c):
            if c.mname == "len" and c.args and recv(e, st, c) == SRC: return [(SLEN, None)]
            if c.mname in ("as_ptr",) and c.args and recv(e, st, c) == SRC: return [(init("SRCPTR"), None)]
            return None
        pre[SLEN[1]] = ("rng", 0, 2**63 - 1, frozenset())
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, srclen)] + slices()))
        e.run(f, args, heap=h, facts=pre)
        if not e.finals: ctx.bad("noret:" + f.n, "%s never returns" % f.n); continue
        seen[f.name] = seen.get(f.name, 0) + 1
        for st, v in e.finals:
            ev = st.aut or ()
            t = "%s (%s): path [%s] returns %s" % (f.n, where(f.span), ", ".join(" ".join(show(y)[:50] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:100])
            key = f.name
            unk = [x for x in ev if x[0] == "unknown"]
            if unk: ctx.bad("unknown:" + key, "an operation on the buffer's memory is not understood; " + t); continue
            if ctor:
                b = v
                if not is_struct(b, B): ctx.bad("ctor:" + key, "what is created is not understood; " + t); continue
                f2, i2 = field(P, st, b, B, "filled", e), field(P, st, b, B, "init", e)
                safe_bytes = P.ty(f.locals[1][0])[2][1] == ("prim", "u8") if P.ty(f.locals[1][0])[0] == "ref" else False
                ctx.check(st.val_int(f2) == 0 and (st.val_int(i2) == 0 or safe_bytes and le(st, i2, CAP)), "a new buffer is empty", "new:" + key, "a new buffer starts with filled %s and initialised %s; %s" % (show(f2), show(i2), t))
                continue
            b = e.read(st, (cell("buf"), ()))
            f2, i2 = field(P, st, b, B, "filled", e), field(P, st, b, B, "init", e)
            raw = field(P, st, b, B, "raw", e)
            ctx.check(raw == mref("raw") or raw[0] == "ref" and raw[1] == (cell("raw"), ()), "the memory stays the same", "raw:" + key, t)
            t += "; filled = %s, initialised = %s" % (show(f2)[:60], show(i2)[:60])
            writes = [x for x in ev if x[0] == "write"]
            for x in ev:
                if x[0] == "within": ctx.check(le(st, x[1], x[2]), "pointers stay within the memory", "ptr:" + key, t)
            for x in writes:
                ctx.check(x[1] == RAW and le(st, x[3], x[4]), "writes stay within the memory", "oob:" + key, "bytes are written past the end of the memory; " + t)
                if isinstance(x[5], tuple):
                    ctx.check(le(st, x[5][1], SLEN) if x[5][0] in (init("SRCPTR"), sref("SRC")) or SRC[1] in terms_in(x[5][0]) else False, "writes stay within the memory", "src:" + key, "more is copied than the source has (or from elsewhere); " + t)
            ctx.check(le(st, F, f2), "filled never shrinks", "shrink:" + key, "the filled part shrinks; " + t)
            if f.unsafe:
                # contract: the caller vouches that the next n bytes (or the first n) are initialised and within the memory
                assume_n = [(N, CAP)] if f.name.startswith("set_") else [(add(F, N), CAP)]
                st2 = st
                okk = up_to(st, f2, [F, N if f.name.startswith("set_") else add(F, N)]) and up_to(st, i2, [I, N if f.name.startswith("set_") else add(F, N)])
                ctx.check(okk, "unsafe operations move by what the caller vouched for", "unsafe:" + key, "an unsafe operation changes filled or initialised by something else than its argument; " + t)
                if not f.name.startswith("set_"): ctx.check(le(st, f2, i2), "filled <= initialised <= capacity", "inv:" + key, "the filled part exceeds the initialised part; " + t)
            else:
                ctx.check(le(st, f2, i2), "filled <= initialised <= capacity", "inv:" + key, "the filled part exceeds the initialised part; " + t)
                ctx.check(le(st, i2, CAP), "filled <= initialised <= capacity", "cap:" + key, "the initialised part exceeds the capacity; " + t)
                ctx.check(covered(st, i2, writes), "initialised only by writing", "init:" + key, "bytes count as initialised that were not written; " + t)
                # data appended: exactly the source
                if init("SRC")[1] and any(a == sref("SRC") for a in args):
                    d = lin_sub(linear(sub(f2, F)), linear(SLEN))
                    ctx.check(zero_lin(d), "appending appends exactly the source", "append:" + key, t)
                    w = [x for x in writes if isinstance(x[5], tuple)]
                    ctx.check(len(w) == 1 and zero_lin(lin_sub(linear(w[0][2]), linear(F))) and zero_lin(lin_sub(linear(w[0][3]), linear(f2))), "appending appends exactly the source", "append2:" + key, t)
                elif not exposes_mut(P, f): ctx.check(zero_lin(lin_sub(linear(f2), linear(F))), "filled moves only by appending", "move:" + key, "a safe operation moves the filled part without writing; " + t)
                else: ctx.check(zero_lin(lin_sub(linear(f2), linear(F))), "filled moves only by appending", "move:" + key, "a safe operation moves the filled part without writing; " + t)
            # what is handed out
            rty = P.ty(f.locals[0][0])
            if rty[0] == "ref" and rty[2][0] == "slice":
                x = e.read(st, v[1]) if v[0] == "ref" else None
                if not isr(x): ctx.bad("out:" + key, "the slice handed out is not understood; " + t); continue
                by8 = rty[2][1] == ("prim", "u8")
                if by8:
                    ctx.check(le(st, x[4][2], i2), "byte slices end in the initialised part", "expose:" + key, "a byte slice handed out by safe code reaches past the initialised part; " + t)
                    ctx.check(rty[1] == 0 and le(st, x[4][2], f2) or rty[1] and le(st, f2, x[4][1]) or not rty[1] is True, "byte slices end in the initialised part", "expose2:" + key, t)
                else: ctx.check(f.unsafe, "uninitialised memory only from unsafe fns", "uninit:" + key, "a safe function hands out memory that may be uninitialised (and could be de-initialised through it); " + t)
                if by8 and rty[1]: ctx.check(le(st, F, x[4][1]), "byte slices end in the initialised part", "exposemut:" + key, "already filled bytes are handed out for writing; " + t)
            if f.name in ("remaining", "capacity", "len", "init_len"):
                want = {"remaining": sub(CAP, F), "capacity": CAP, "len": F, "init_len": I}[f.name]
                ctx.check(zero_lin(lin_sub(linear(v), linear(want))), "sizes are exact", "size:" + f.name, "%s is %s; %s" % (f.name, show(v), t))
    for g, n in (("filled <= initialised <= capacity", 12), ("initialised only by writing", 5), ("writes stay within the memory", 3), ("byte slices end in the initialised part", 3), ("a new buffer is empty", 2), ("appending appends exactly the source", 2), ("sizes are exact", 3)): ctx.floor(g, n)
    for nm in ("as_mut", "advance", "set_init", "set_filled"):
        for f in mod:
            if f.name == nm: ctx.check(f.unsafe, "moving without writing is unsafe", "unsafefn:" + nm, "%s can be called from safe code" % f.n)
    ctx.floor("moving without writing is unsafe", 4)
    # ---- other functions of the module must not touch the fields
    # ---- users of the unsafe operations
    ctx.rule("users of the unsafe operations: the number of bytes passed on is the number the transport filled into memory of that very buffer, starting at its unfilled part")
    users = {}
    for f in P.fns.values():
        if not f.local or owner(P, f) in (B["path"], C["path"]): continue
        for stmts, term, cl in f.blocks:
            if term[0] == "call" and isinstance(term[1], dict):
                n = P.short(term[1].get("n", ""))
                if (n.startswith("rt::io::ReadBuf") and n.split("::")[-1] in ("as_mut", "advance", "set_init", "set_filled")) or n.split("::")[-1] in ("advance_mut", "assume_init", "chunk_mut", "set_len", "unfilled_mut", "inner_mut") and ("bytes::" in n or "BufMut" in n or "tokio::io::ReadBuf" in n or n.startswith("std::vec")):
                    users.setdefault(f.id, (f, set()))[1].add(n.split("::")[-1])
    okset = set()
    # transport -> read buffer of the connection
    IOB = P.adt("proto::h1::io::Buffered")
    g = P.fn("Buffered::poll_read_from_io")
    okset.add(g.id)
    NF, NI = init("NEW_FILLED"), init("NEW_INIT")
    def io(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if not c.args: return None
        p = recv_path(e, st, c)
        onbuf = p and "read_buf" in (fields_on(p) or ())
        if onbuf or recv(e, st, c) == init("READ_BUF"):
            if m == "chunk_mut":
                st.heap[cell("chunk")] = rng(RAW, I0, CAP)
                return [(mref("chunk"), ("chunk",))]
            if m == "advance_mut": return [(UNIT, ("advance_mut", c.args[1]))]
            if m in ("len", "capacity", "remaining_mut", "is_empty"): return None
            return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("buf", m))]
        if m == "poll_read":
            cur = c.args[-1]
            out = []
            bp = None
            b = fget(P, st, cur, C, "buf", eng=e)
            if b[0] != "ref": return [(PENDING, ("read", "?"))]
            rb = e.read(st, b[1])
            f0, i0 = field(P, st, rb, B, "filled", e), field(P, st, rb, B, "init", e)
            raw = field(P, st, rb, B, "raw", e)
            mem = e.read(st, raw[1]) if raw[0] == "ref" else None
            path = b[1]
            def done(s2, ret):
                nb = mk(P, B["path"], raw=raw, filled=NF, init=NI)
                e.write(s2, path, nb)
                for a, bb in ((f0, NF), (NF, NI), (i0, NI), (NI, sub(mem[4][2], mem[4][1]) if isr(mem) else CAP)):
                    x = e.compare(s2, "Le", a, bb, "usize")
                    if x[0] == "sym": s2.facts[e_pos(e, s2, x)] = e_fact(e, s2, x)
                return ret
            st.aut = (st.aut or ()) + (("reading", f0, i0, mem),)
            return [(lambda s2: done(s2, ready(ok(UNIT))), ("read", "ok")), (lambda s2: done(s2, ready(err(init("IOERR")))), ("read", "err")), (lambda s2: done(s2, PENDING), ("read", "pending"))]
        return None
    def e_pos(e, st, x):
        t = TERMS[x[1]]
        return t[1][1] if t[0] == "not" and t[1][0] == "sym" else x[1]
    def e_fact(e, st, x):
        return ("in", frozenset((0,))) if TERMS[x[1]][0] == "not" else ("in", frozenset((1,)))
    fl = init("BUFFERED")
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, io)] + slices()))
    pre = {x[1]: ("rng", 0, 2**63 - 1, frozenset()) for x in (CAP, NF, NI)}
    e.run(g, [mref("self"), mref("cx")], heap={cell("self"): mk(P, IOB["path"], read_buf=init("READ_BUF")), }, facts=pre)
    for st, v in e.finals:
        ev = st.aut or ()
        t = "%s (%s): path [%s] returns %s" % (g.n, where(g.span), ", ".join(" ".join(show(y)[:50] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:80])
        adv = [x for x in ev if x[0] == "advance_mut"]
        rd = [x for x in ev if x[0] == "reading"]
        for x in rd: ctx.check(st.val_int(x[1]) == 0 and st.val_int(x[2]) == 0 and isr(x[3]) and x[3][4][0] == RAW, "the transport writes into the buffer's free memory", "io-mem", t)
        if any(x == ("read", "ok") for x in ev):
            ctx.check(len(adv) == 1 and adv[0][1] == NF, "the buffer grows by what was read", "io-adv", "the read buffer grows by %s after the transport filled %s bytes; %s" % (show(adv[0][1]) if adv else "nothing", show(NF), t))
            i = [k for k, x in enumerate(ev) if x[0] == "chunk"]; j = [k for k, x in enumerate(ev) if x[0] == "advance_mut"]
            ctx.check(bool(i and j) and not any(x[0] == "buf" for x in ev[i[-1]:j[0]]), "the buffer grows by what was read", "io-between", "the buffer may be moved between handing out its memory and counting what was read; " + t)
            n = unwrap(v, "Ready", "Ok")
            ctx.check(n == NF, "the buffer grows by what was read", "io-ret", t)
        else: ctx.check(not adv, "the buffer grows by what was read", "io-noadv", "the read buffer grows although nothing was read; " + t)
    ctx.floor("the buffer grows by what was read", 5)
    # tokio adapter
    CP = P.adt("common::io::compat::Compat")
    g = P.trait_method(CP["path"], "AsyncRead", "poll_read")
    okset.add(g.id)
    TF, TI = init("TOKIO_FILLED"), init("TOKIO_INIT")
    def tb(e, st, c):
        m = c.mname or c.name.split("::")[-1]
        if not c.args: return None
        if recv(e, st, c) == init("TBUF"):
            if m == "filled": st.heap[cell("tf")] = rng(RAW, I0, TF); return [(mref("tf"), None)]
            if m == "initialized": st.heap[cell("ti")] = rng(RAW, I0, TI); return [(mref("ti"), None)]
            if m == "inner_mut": st.heap[cell("tm")] = rng(RAW, I0, CAP); return [(mref("tm"), None)]
            if m in ("assume_init", "set_filled", "advance"): return [(UNIT, (m, c.args[1]))]
            if m in ("capacity",): return [(CAP, None)]
            if m in ("unfilled_mut",): st.heap[cell("tm")] = rng(RAW, TF, CAP); return [(mref("tm"), None)]
            return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("tbuf", m))]
        return None
    pre = {x[1]: ("rng", 0, 2**63 - 1, frozenset()) for x in (CAP, NF, NI, TF, TI)}
    pre.update(le_facts(None, [(TF, TI), (TI, CAP), (TF, CAP)]))
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, tb), (lambda c, e, st: True, io)] + slices()))
    e.run(g, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx"), mref("tbuf")], heap={cell("self"): init("COMPAT"), cell("tbuf"): init("TBUF")}, facts=pre)
    for st, v in e.finals:
        ev = st.aut or ()
        t = "%s (%s): path [%s] returns %s" % (g.n, where(g.span), ", ".join(" ".join(show(y)[:50] if isinstance(y, tuple) else str(y) for y in x) for x in ev), show(v)[:80])
        rd = [x for x in ev if x[0] == "reading"]
        for x in rd:
            whole = isr(x[3]) and st.val_int(x[3][4][1]) == 0
            ctx.check(whole and x[1] == TF and le(st, x[2], TI), "the adapter carries over progress", "tokio-pre", "the inner buffer starts with filled %s, initialised %s; %s" % (show(x[1]), show(x[2]), t))
        sf = [x for x in ev if x[0] == "set_filled"]; ai = [x for x in ev if x[0] == "assume_init"]
        if any(x == ("read", "ok") for x in ev):
            ctx.check(len(sf) == 1 and sf[0][1] == NF, "the adapter carries over progress", "tokio-fill", "the outer buffer is told %s bytes are filled, not what was read; %s" % (show(sf[0][1]) if sf else "no", t))
            ctx.check(bool(ai) and all(le(st, add(TF, x[1]), NI) for x in ai), "the adapter carries over progress", "tokio-init", "the outer buffer is told that bytes are initialised that are not; " + t)
        else: ctx.check(not sf and not any(x[0] == "advance" for x in ev), "the adapter carries over progress", "tokio-nofill", t)
    ctx.floor("the adapter carries over progress", 5)
    for f, ops in users.values():
        ctx.check(f.id in okset, "users of unsafe buffer operations are analysed", "user:" + f.n, "%s (%s) uses %s, whose contract is not analysed there" % (f.n, where(f.span), ", ".join(sorted(ops))))
    ctx.floor("users of unsafe buffer operations are analysed", 2)

def owner(P, f):
    t = P.ty(f.selfty) if f.selfty is not None else None
    return t[1] if t and t[0] == "adt" else None
def is_struct(v, a): return v is not None and v[0] == "adt" and v[1] == a["path"]
def field(P, st, v, a, name, e): return fget(P, st, v, a, name, eng=e)
def exposes_mut(P, f):
    t = P.ty(f.locals[0][0])
    return t[0] == "ref" and t[1]
def up_to(st, v, opts):
    """v is one of the options (or their maximum)"""
    return any(zero_lin(lin_sub(linear(v), linear(o))) for o in opts if linear(v) is not None)
def covered(st, i2, writes):
    """every byte of [INIT, i2) was written (or there is none)"""
    end = I
    left = list(writes)
    if le(st, i2, end): return True
    for _ in range(len(left) + 1):
        for w in left:
            if le(st, w[2], end) and le(st, end, w[3]):
                end = w[3]; left.remove(w); break
        if le(st, i2, end): return True
    return False
