"""Errors: kind and cause of every failure that reaches the application."""
from rt import *
import c20, c26, c29, c30, clientlib, connlib, displib, h2slib, h2streamlib
from clientlib import PIN
LEVEL = "other"
IOC, ISIO = init("IO_CAUSE"), None

class Errs:
    """what every error constructor of the crate makes: {name: [(kind, cause, events)]}"""
    def __init__(self, ctx, cfg="a"):
        self.ctx, self.P = ctx, ctx.prog(cfg); self.cfg = cfg
        P = self.P
        self.E = P.adt("error::Error"); self.I = P.adt("error::ErrorImpl"); self.K = P.adt("error::Kind")
        self.memo = {}
    def kind(self, v):
        if v[0] != "adt": return "?"
        return v[3] + ("(" + ",".join(self.kind(x) for x in v[4]) + ")" if v[4] else "")
    def value(self, e, st, v):
        """(kind, cause) of an error object built here"""
        if v[0] != "adt": return None
        x = fget(self.P, st, v, self.E, "inner", eng=e)
        n = 0
        while x[0] == "ref" and n < 5: x = e.read(st, x[1]); n += 1
        if x[0] != "adt": return None
        k = fget(self.P, st, x, self.I, "kind", eng=e); c = fget(self.P, st, x, self.I, "cause", eng=e)
        return (self.kind(e.snapshot(st, k)), e.snapshot(st, c[4][0]) if is_adt(c, "Some") else (None if is_adt(c, "None") else c))
    def into(self, e, st, c):
        """conversions into the boxed cause keep the value"""
        if c.mname in ("into", "from") and len(c.args) == 1 and (c.fn is None or not c.fn.local): return [(c.args[0], None)]
        if c.mname == "is_io" and "h2::" in c.short: return [(TRUE, ("is_io", e.snapshot(st, c.args[0]), True)), (FALSE, ("is_io", e.snapshot(st, c.args[0]), False))]
        if c.mname == "into_io" and "h2::" in c.short:
            v = e.snapshot(st, c.args[0])
            if ("is_io", v, True) in (st.aut or ()): return [(some(("sym", T("io_of", v))), None)]
            return [(some(("sym", T("io_of", v))), ("is_io", v, True)), (NONE, ("is_io", v, False))]
        if c.mname == "get_io" and "h2::" in c.short: return [(some(sref("IOREF")), ("is_io", e.snapshot(st, c.args[0]), True)), (NONE, ("is_io", e.snapshot(st, c.args[0]), False))]
        return None
    def ctor(self, name):
        if name not in self.memo:
            f = self.P.fn("error::Error::" + name)
            e = self.ctx.engine(self.cfg, rule=Rec([(lambda c, e, st: True, self.into)]))
            a = [init("CAUSE%d" % i) for i in range(f.argc)]
            e.run(f, a)
            self.memo[name] = (f, [(self.value(e, st, v), st.aut or ()) for st, v in e.finals])
        return self.memo[name]
    def all(self, v):
        """value -> [(kind, cause)]; the kind of an error that was handed in is 'as is'"""
        if v is None: return []
        if v[0] == "sym":
            t = TERMS[v[1]]
            if t[0] == "err":
                out = []
                for kc, ev in self.ctor(t[1])[1]:
                    if kc is None: out.append(("?", None)); continue
                    k, c = kc
                    if c is not None and c[0] == "sym":
                        ct = TERMS[c[1]]
                        for i, a in enumerate(t[2:]):
                            if c == init("CAUSE%d" % i): c = a; break
                            if ct[0] == "io_of" and ct[1] == init("CAUSE%d" % i): c = ("sym", T("io_of", a)); break
                    out.append((k, c))
                return out
            if t[0] == "errwith": return [(k, t[2]) for k, c in self.all(t[1])]
            return [("as is", v)]
        return [("?", v)]

    # ---- a path against the failures on it
    def judge(self, ctx, G, key, p, ret, fails, own=(), sinks=(), swallow=None, text=None):
        """every failure on the path is reported with an allowed kind and its value as the cause; every
        error reported is one of those failures or (without a cause) one hyper found itself"""
        found = []
        def walk(v, d=0):
            if v is None or d > 8: return
            if v[0] == "sym":
                t = TERMS[v[1]]
                if t[0] in ("err", "errwith") or v in vals: found.append(v)
            elif v[0] == "adt":
                for x in v[4]: walk(x, d + 1)
            elif v[0] in ("tup", "arr"):
                for x in v[1]: walk(x, d + 1)
            elif v[0] == "ref" and d < 4:
                try: walk(p.e.read(p.st, v[1]), d + 1)
                except Exception: pass
        vals = {f[1] for f in fails}
        walk(ret)
        for s in sinks: walk(s)
        t = text or p.text()
        hit = set()
        for i, (pat, val, kinds, what) in enumerate(fails):
            n = [j for j, x in enumerate(p.ev) if x[:len(pat)] == pat]
            if not n: continue
            alts = [self.all(v) for v in found]
            good = [v for v, al in zip(found, alts) if al and all((c == val or c == ("sym", T("io_of", val)) or val is None and c is None) and k in kinds for k, c in al)]
            if good:
                hit.update(good); ctx.ok(G); continue
            if swallow and swallow(p, pat, n[0]): continue
            near = [(k, show(c)[:40] if c else "no cause") for al in alts for k, c in al]
            ctx.bad("%s:%s" % (key, what), "%s is %s instead of as %s with that cause; %s" % (what, "reported as %s" % ", ".join("%s of %s" % x for x in near) if near else "not reported", " or ".join(sorted(kinds)), t), G)
            hit.update(found)
        for v in found:
            if v in hit: continue
            al = self.all(v)
            ctx.check(bool(al) and all(k in own and (c is None or c[0] in ("str",) or own[k] is not None and own[k](c)) for k, c in al), "errors hyper finds itself", key + ":own:" + "/".join(sorted({k for k, c in al})),
                      "an error (%s) is reported that is neither a failure on this path nor one of %s; %s" % (", ".join("%s of %s" % (k, show(c)[:40] if c else "nothing") for k, c in al), ", ".join(sorted(own)), t))

def own(*ks): return {k: None for k in ks}
def strcause(c): return True

def run(ctx):
    X = Errs(ctx); P = X.P
    table(ctx, X, P); chain(ctx, X, P); parse(ctx, X, P)
    conn(ctx, X, P); disp(ctx, X, P); h2(ctx, X, P); client(ctx, X, P); bodies(ctx, X, P); upgrade(ctx, X, P)

PRED = {"is_parse": lambda k: k.startswith("Parse("), "is_parse_too_large": lambda k: k in ("Parse(TooLarge)", "Parse(UriTooLong)"), "is_parse_status": lambda k: k == "Parse(Status)",
        "is_parse_version_h2": lambda k: k == "Parse(VersionH2)", "is_user": lambda k: k.startswith("User("), "is_canceled": lambda k: k == "Canceled", "is_closed": lambda k: k == "ChannelClosed",
        "is_incomplete_message": lambda k: k == "IncompleteMessage", "is_body_write_aborted": lambda k: k == "User(BodyWriteAborted)", "is_shutdown": lambda k: k == "Shutdown"}

def kinds(P, A):
    """every value of an enum of enums without data"""
    out = []
    for i, (nm, d, fl) in enumerate(A["variants"]):
        subs = [()]
        for f in fl:
            t = P.ty(f[1])
            if t[0] != "adt" or t[1] not in P.adts: return None
            subs = [s + (x,) for s in subs for x in kinds(P, P.adts[t[1]])]
        out += [("adt", A["path"], i, nm, s) for s in subs]
    return out

def table(ctx, X, P):
    ctx.rule("constructors: each makes one kind and keeps the cause it was given (HTTP/2 errors that wrap a transport error become transport errors); predicates are evaluated on every kind; source() is the cause")
    G = "error constructors"
    for f in sorted(P.fns.values(), key=lambda f: f.n):
        if not (f.local and f.n.startswith("error::Error::new") and f.blocks) or "{" in f.n: continue
        for kc, ev in X.ctor(f.name)[1]:
            if not ctx.check(kc is not None, G, f.name, "%s does not build an error object" % f.n): continue
            k, c = kc
            want = [P.ty(f.locals[i + 1][0]) for i in range(f.argc)]
            cause = [i for i, t in enumerate(want) if not (t[0] == "adt" and t[1].startswith("error::"))]
            if not cause: ctx.check(c is None, G, f.name, "%s invents a cause (%s)" % (f.n, show(c) if c else "")); continue
            io = [x for x in ev if x[0] == "is_io"]
            cv = init("CAUSE%d" % cause[0])
            if io:
                ctx.check((k, c) == (("Io", ("sym", T("io_of", cv))) if io[-1][2] else ("Http2", cv)), G, f.name + ":io", "%s turns an HTTP/2 error that %s into %s of %s" % (f.n, "wraps a transport error" if io[-1][2] else "is no transport error", k, show(c) if c else None))
            else: ctx.check(c == cv, G, f.name, "%s drops or changes the cause it is given (cause %s)" % (f.n, show(c) if c else None))
            h2a = any(t[0] == "adt" and t[1].startswith("h2::") for t in want)
            ctx.check(bool(io) == h2a, G, f.name + ":h2", "an HTTP/2 error is not examined for a transport error in " + f.n)
    ctx.floor(G, 25)
    ks = kinds(P, X.K)
    f = P.fn("error::Error::with")
    for k in ks or ():
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, X.into)]))
        e.run(f, [mk(P, X.E["path"], inner=mref("impl")), init("GIVEN")], heap={cell("impl"): mk(P, X.I["path"], kind=k, cause=NONE)})
        for st, v in e.finals:
            kc = X.value(e, st, v)
            ctx.check(kc == (X.kind(k), init("GIVEN")), G, "with:" + X.kind(k), "adding a cause to an error of kind %s gives %s" % (X.kind(k), kc and (kc[0], show(kc[1]) if kc[1] else "no cause")))
    G = "predicates"
    if ks is None or len(ks) < 25: raise mir.AnchorError("error kinds are not plain enums (%s)" % (ks and len(ks)))
    preds = [f for f in P.fns.values() if f.local and f.n.startswith("error::Error::is_") and "{" not in f.n]
    have = {f.name for f in preds}
    for nm in list(PRED) + ["is_timeout"]:
        if nm not in have: ctx.bad("pred:" + nm, "public predicate %s is gone" % nm, G)
    for f in preds:
        if f.name not in PRED and f.name != "is_timeout": ctx.bad("pred:" + f.name, "predicate %s is not described" % f.n, G); continue
        def fs(e, st, c):
            if c.fn is not None and c.fn.local and c.mname == "find_source": return [(some(sref("FOUND")), ("find", tuple(gen(P, c)), True)), (NONE, ("find", tuple(gen(P, c)), False))]
            return None
        for k in ks:
            kn = X.kind(k)
            e = ctx.engine(rule=Rec([(lambda c, e, st: True, fs)]))
            e.run(f, [mref("self")], heap={cell("self"): mk(P, X.E["path"], inner=mref("impl")), cell("impl"): mk(P, X.I["path"], kind=k, cause=init("ANYCAUSE"))})
            for st, v in e.finals:
                ev = st.aut or ()
                for b, s in bools(e, st, v):
                    if f.name == "is_timeout":
                        fd = [x for x in ev if x[0] == "find"]
                        ok_ = bool(b) if kn == "HeaderTimeout" else len(fd) == 1 and any("TimedOut" in str(y) and "KeepAlive" not in str(y) for y in fd[0][1]) and bool(b) == fd[0][2]
                        ctx.check(ok_, G, "is_timeout:" + kn, "is_timeout() is %s for %s (%s)" % (bool(b), kn, "timeout in its causes: %s" % fd))
                    else: ctx.check(bool(b) == PRED[f.name](kn), G, "%s:%s" % (f.name, kn), "%s() is %s for an error of kind %s" % (f.name, bool(b), kn))
    ctx.floor(G, 250)

def gen(P, c):
    out = []
    for a in c.args_ty() if hasattr(c, "args_ty") else (c.info.get("args") or ()):
        try: out.append(str(P.ty(a)))
        except Exception: out.append(str(a))
    return out

def chain(ctx, X, P):
    ctx.rule("source() gives the stored cause; looking for a cause of a type asks each error of the chain in turn, from the cause on, and gives the first that is of the type asked for; the reset reason is that of the first HTTP/2 error in the chain, else INTERNAL_ERROR; a keep-alive time-out's source is the time-out mark")
    G = "source chain"
    f = P.trait_method(X.E["path"], "Error", "source")
    for cause in (NONE, some(mref("boxed"))):
        e = ctx.engine(rule=Rec([]))
        e.run(f, [mref("self")], heap={cell("boxed"): init("CAUSE"), cell("self"): mk(P, X.E["path"], inner=mref("impl")), cell("impl"): mk(P, X.I["path"], kind=init("KIND"), cause=cause)})
        for st, v in e.finals:
            g = at(e, st, v[4][0]) if is_adt(v, "Some") else None
            ctx.check(is_adt(v, "None") if cause == NONE else g == init("CAUSE"), G, "source", "source() of an error %s is %s" % ("without a cause" if cause == NONE else "with a cause", show(v)[:60]))
    f = P.fn("error::Error::find_source")
    C0 = init("SRC0")
    def h(e, st, c):
        m = c.mname
        if m == "source" and c.args:
            if c.fn is not None and c.fn.local and "error::Error" in c.fn.n and via_self(e, st, c.args[0]): return [(some(sref0("SRC0")), ("src", "self", 0)), (NONE, ("src", "self", None))]
            r = at(e, st, c.args[0])
            if r[0] == "sym" and TERMS[r[1]][0] == "init" and str(TERMS[r[1]][1]).startswith("SRC"):
                n = int(TERMS[r[1]][1][3:])
                if n >= 2: return [(NONE, ("src", n, None))]
                return [(some(sref0("SRC%d" % (n + 1))), ("src", n, n + 1)), (NONE, ("src", n, None))]
        if m in ("downcast_ref", "is") and c.args:
            r = at(e, st, c.args[0]); n = TERMS[r[1]][1] if r[0] == "sym" else "?"
            if m == "is": return [(TRUE, ("down", n, True)), (FALSE, ("down", n, False))]
            return [(some(c.args[0]), ("down", n, True, tuple(gen(P, c)))), (NONE, ("down", n, False, tuple(gen(P, c))))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h)]), rec=6)
    e.run(f, [mref("self")], heap={cell("self"): init("SELF")})
    n = 0
    for st, v in e.finals:
        ev = st.aut or ()
        tx = "%s gives %s" % ([x[:3] for x in ev], show(v)[:40])
        cur = None; want = "?"; good = True
        for x in ev:
            if x[0] == "src":
                good = good and x[1] == ("self" if cur is None else cur) and (cur is None or asked)
                cur = x[2]; asked = False
                if cur is None: want = None
            else:
                good = good and x[1] == "SRC%s" % cur; asked = True
                if x[2]: want = cur
        if want is None: good = good and is_adt(v, "None")
        else: good = good and is_adt(v, "Some") and at(e, st, v[4][0]) == init("SRC%s" % want) and ev[-1][0] == "down"
        ctx.check(good, G, "find_source", "the chain of causes is not searched in order to its end: " + tx); n += 1
    if n < 4: raise mir.AnchorError("find_source has %d paths" % n)
    f = P.fn("error::Error::h2_reason")
    def r(e, st, c):
        if c.fn is not None and c.fn.local and c.mname == "find_source": return [(some(sref0("H2E")), ("find", tuple(gen(P, c)))), (NONE, ("find", tuple(gen(P, c))))]
        if c.mname == "reason" and c.args and at(e, st, c.args[0]) == init("H2E"): return [(some(init("REASON")), ("reason", True)), (NONE, ("reason", False))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, r)]))
    e.run(f, [mref("self")], heap={cell("self"): init("SELF")})
    for st, v in e.finals:
        ev = st.aut or ()
        fd = [x for x in ev if x[0] == "find"]
        ctx.check(len(fd) == 1 and any("h2::Error" in y for y in fd[0][1]), G, "h2_reason-type", "the reset reason is looked for in something other than HTTP/2 errors: %s" % (fd,))
        if ("reason", True) in ev: ctx.check(v == init("REASON"), G, "h2_reason", "the reason of an HTTP/2 error in the chain is not used: " + show(v)[:60])
        else:
            n = e.as_int(v)
            ctx.check(reason_code(P, e, st, v) == 2, G, "h2_reason-default", "without an HTTP/2 error in the chain the reason is %s instead of INTERNAL_ERROR" % show(v)[:60])
    KA = P.adt("proto::h2::ping::KeepAliveTimedOut")
    f = P.trait_method(KA["path"], "Error", "source")
    t = str([s for b in f.blocks for s in b[0]])
    e = ctx.engine(rule=Rec([])); e.run(f, [mref("self")], heap={cell("self"): init("SELF")})
    for st, v in e.finals: ctx.check(is_adt(v, "Some"), G, "keepalive-source", "a keep-alive time-out has no time-out in its chain: " + show(v))
    g = [f for f in P.fns.values() if f.local and f.name == "crate_error" and "KeepAliveTimedOut" in f.n]
    if not g: raise mir.AnchorError("KeepAliveTimedOut::crate_error")
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, X.into)])); e.run(g[0], [init("KATO")])
    for st, v in e.finals:
        kc = X.value(e, st, v)
        ctx.check(kc is not None and kc[0] == "Http2" and kc[1] == init("KATO"), G, "keepalive-error", "a keep-alive time-out becomes %s" % (kc,))
    ctx.floor(G, 10)

def sref0(n): return ("ref", (("C", init(n)), ()), 0)
def at(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    return v
def via_self(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6:
        if v[1][0] == cell("self"): return True
        v = e.read(st, v[1]); n += 1
    return False
def reason_code(P, e, st, v):
    if v[0] == "adt" and v[4]: v = v[4][0]
    n = e.as_int(v)
    if n and n[0] == "int": return n[1]
    s = show(v)
    return 2 if "INTERNAL_ERROR" in s else s


HPARSE = {"HeaderName": "Header(Token)", "HeaderValue": "Header(Token)", "NewLine": "Header(Token)", "Token": "Header(Token)", "Status": "Status", "TooManyHeaders": "TooLarge", "Version": "Version"}
FROMS = {"InvalidMethod": "Method", "InvalidStatusCode": "Status", "InvalidUri": "Uri", "InvalidUriParts": "Uri"}

def parse(ctx, X, P):
    ctx.rule("conversion of the parser library's errors: each becomes the parse kind of the part of the head it is about, and any parse error becomes an error of the parse kind")
    G = "parse errors"
    seen = set()
    for f in P.fns.values():
        if not (f.local and f.name == "from" and f.trait and "error::Parse as" in f.n): continue
        t = P.ty(f.locals[1][0])
        if t[0] != "adt": continue
        src = t[1].split("::")[-1]
        if t[1].startswith("httparse"):
            A = P.adt("httparse::Error")
            for i, (nm, d, fl) in enumerate(A["variants"]):
                e = ctx.engine(rule=Rec([])); e.run(f, [("adt", A["path"], i, nm, ())])
                for st, v in e.finals: ctx.check(nm in HPARSE and X.kind(v) == HPARSE[nm], G, "httparse:" + nm, "the parser's %s error becomes Parse::%s" % (nm, X.kind(v)))
            seen.add("httparse")
        else:
            e = ctx.engine(rule=Rec([])); e.run(f, [init("FROM")])
            for st, v in e.finals: ctx.check(src in FROMS and X.kind(v) == FROMS[src], G, "from:" + src, "%s becomes Parse::%s" % (src, X.kind(v)))
            seen.add(src)
    for need in ["httparse"] + list(FROMS):
        ctx.check(need in seen, G, "missing:" + need, "no conversion of %s errors" % need)
    f = [g for g in P.fns.values() if g.local and g.name == "from" and g.trait and "error::Error as" in g.n and "error::Parse" in g.n]
    if not f: raise mir.AnchorError("From<Parse> for Error")
    for k in kinds(P, P.adt("error::Parse")):
        e = ctx.engine(rule=Rec([])); e.run(f[0], [k])
        for st, v in e.finals: ctx.check(X.value(e, st, v) == ("Parse(%s)" % X.kind(k), None), G, "into:" + X.kind(k), "Parse::%s becomes %s" % (X.kind(k), X.value(e, st, v)))
    ctx.floor(G, 20)

def conn(ctx, X, P):
    from connlib import PERR, EERR
    IO_ERR, DECODE_ERR, NOT_EOF = init("IO_ERR"), init("DECODE_ERR"), init("NOT_EOF")
    ctx.rule("HTTP/1 connection, every operation from every state: a failure of the transport, parser, decoder, encoder or an unfinished body is returned or stored with its documented kind and the original error as its cause; swallowed are only a failure on an idle connection with nothing buffered (a clean close) and body bytes nobody reads")
    G = "connection errors"
    AS = {"as is"}
    L = connlib.Lib(ctx)
    fails = [(("ioread", "err"), IO_ERR, {"Io"}, "a transport read error"), (("poll_flush", "err"), IO_ERR, AS, "a transport write error"), (("poll_shutdown", "err"), IO_ERR, AS, "a transport shutdown error"),
             (("parse", "err"), PERR, AS, "a head that cannot be read"), (("encode_head", "err"), EERR, AS, "a head that cannot be written"), (("decode", "err"), DECODE_ERR, AS, "a body that cannot be read"),
             (("end", "err"), NOT_EOF, {"User(BodyWriteAborted)"}, "a body that ends early"), (("timeout", "fired"), None, {"HeaderTimeout"}, "the header time-out")]
    def swallow(p, pat, i):
        if pat[0] == "parse":
            if X.all(unwrap(p.ret, "Ready", "Some", "Err") or UNIT)[:1] == [("Parse(VersionH2)", None)]: return True     # the HTTP/2 preface (C09)
            return p.f.name == "poll_read_head" and is_adt(unwrap(p.ret, "Ready") or UNIT, "None") and p.has("rbempty", TRUE) and (p.role == "server" or not p.pre[2] == "Busy")
        if pat[0] == "decode": return p.f.name == "poll_drain_or_close_read"
        if pat[0] == "encode_head": return p.has("parse", "err")
        return False
    IDLE = (("Init", "Init"),)
    mine = own("IncompleteMessage", "UnexpectedMessage", "HeaderTimeout", "Parse(VersionH2)")
    for role in ("server", "client"):
        for f in L.ent:
            if f.name.startswith("set_"): continue
            for r in connlib.READ:
                for w in connlib.WRITE:
                    for k in connlib.KA:
                        if not connlib.allowed(f.name, role, r, w, k): continue
                        for t in L.run(f, role, r, w, k, extra=(c20.ERRS,), over=dict(error=NONE)):
                            if t.has("ioread", "eof") and f.name == "poll_read_keep_alive" and (r, w) not in IDLE:
                                ks = [x[0] for x in X.all(unwrap(t.ret, "Ready", "Err") or UNIT)]
                                ctx.check("IncompleteMessage" in ks, G, "eof:" + role, "the peer goes away in the middle of a message (%s, %s, %s) and this is not reported as an incomplete message: %s returns %s" % (r, w, k, t.text(), show(t.ret)[:90]))
                            X.judge(ctx, G, "%s:%s" % (role, f.name), t, t.ret, fails, mine, sinks=(t.e.snapshot(t.st, t.sf("error")),), swallow=swallow, text=t.text() + " returns " + show(t.ret)[:90])
    f = [f for f in L.ent if f.name == "take_error"]
    if not f: raise mir.AnchorError("Conn::take_error")
    for role in ("server", "client"):
        for ev in (NONE, some(init("STORED"))):
            for t in L.run(f[0], role, "Closed", "Closed", "Disabled", over=dict(error=ev)):
                ctx.check(unwrap(t.ret, "Err") == (init("STORED") if ev != NONE else None) and is_adt(t.sf("error"), "None"), G, "take_error:" + role, "a stored error is not what the connection ends with: %s" % show(t.ret)[:60])
    ctx.floor(G, 500)

def disp(ctx, X, P):
    from displib import HERR, UERR, BERR, SERR
    import c18
    ctx.rule("HTTP/1 dispatcher: failures of the connection, the service, the user's body, flushing and shutdown end the connection (or go to the message's reader or caller) with their documented kind and cause")
    G = "dispatcher errors"
    D = displib.Disp(ctx)
    AS = {"as is"}
    LERR, IERR = init("LOOP_ERR"), init("INNER_ERR")
    flush = lambda k: (("op", k, "err"), init("ERR_" + k), {"BodyWrite"}, "a transport write error")
    fails = [(("op", "poll_read_head", "err"), HERR, AS, "a head that cannot be read"), (("op", "poll_read_body", "err"), init("BODY_IO_ERR"), {"Body"}, "a body that cannot be read"),
             (("op", "poll_read_keep_alive", "err"), init("ERR_poll_read_keep_alive"), AS, "unexpected input"), (("disp", "poll_msg", "err"), UERR, {"User(Service)"}, "an error of the user's service"),
             (("body", "poll_frame", "err"), BERR, {"User(Body)"}, "an error of the user's body"), (("op", "end_body", "err"), init("ERR_end_body"), AS, "a body that ends early"),
             flush("poll_flush"), flush("poll_flush_handover"), (("op", "poll_shutdown", "err"), init("ERR_poll_shutdown"), {"Shutdown"}, "a transport shutdown error"),
             (("op", "take_error", "err"), SERR, AS, "a stored connection error"), (("loop", "err"), LERR, AS, "an error of the loop"), (("inner", "err"), IERR, AS, "an error of the connection")]
    def sinks(p): return [x[-1] for x in p.ev if x[0] == "tx" and x[1] == "send_error" or x[:2] == ("disp", "recv_msg")]
    def swallow(p, pat, i):
        # the caller or service took the error
        if pat[0] == "op" and pat[1] == "take_error": return False
        return False
    n = 0
    ex = [c20.ERRS]
    def go(fn, **kw):
        nonlocal n
        for p in D.run(fn, extra=ex, **kw):
            if p.again and not any(True for f in fails if p.has(*f[0])): continue
            own_ = own("IncompleteMessage") if fn in ("poll_read", "poll_read_head", "poll_catch") else own()
            if fn == "poll_catch": own_ = dict(own_); own_["Body"] = None
            X.judge(ctx, G, "%s:%s" % (fn, kw.get("role")), p, p.ret, fails, own_, sinks=sinks(p), swallow=swallow); n += 1
    lp = lambda e, st, c: [(PENDING, ("loop", "pending")), (ready(ok(UNIT)), ("loop", "ok")), (ready(err(LERR)), ("loop", "err"))]
    D_ = P.adt("proto::Dispatched")
    sd = ("adt", D_["path"], D_["vix"]["Shutdown"], "Shutdown", ())
    inn = lambda e, st, c: [(PENDING, ("inner", "pending")), (ready(ok(sd)), ("inner", "ok")), (ready(err(IERR)), ("inner", "err"))]
    for role in ("server", "client"):
        go("poll_read_head", role=role)
        for tx in (False, True): go("poll_read", role=role, body_tx=tx, stub=[("poll_read_head", lambda e, st, c: "stop" if ("rh",) in (st.aut or ()) else [(PENDING, ("rh",)), (ready(ok(UNIT)), ("rh",))])])
        for rx in (False, True): go("poll_write", role=role, body_rx=rx)
        go("poll_flush", role=role)
        for sh in (TRUE, FALSE): go("poll_inner", role=role, stub=[("poll_loop", lp)], extra_args=[sh])
        for tx in (False, True): go("poll_catch", role=role, stub=[("poll_inner", inn)], body_tx=tx, extra_args=() if P.fn("Dispatcher::poll_catch").argc == 2 else (init("SHOULD"),))
    # the server side hands a connection error back
    S = P.adt("proto::h1::dispatch::Server")["path"]
    f = P.trait_method(S, "Dispatch", "recv_msg")
    e = ctx.engine(rule=Rec([c20.ERRS])); e.run(f, [mref("self"), err(init("CONN_ERR"))], heap={cell("self"): init("SERVER")})
    for st, v in e.finals: ctx.check(unwrap(v, "Err") == init("CONN_ERR"), G, "server-recv", "the server side does not hand a connection error back unchanged: " + show(v)[:60])
    f = P.trait_method(S, "Dispatch", "poll_msg")
    ctx.floor(G, 60)

def bodies(ctx, X, P):
    ctx.rule("incoming bodies: an error sent by the connection reaches the reader as it is; an HTTP/2 error becomes a body error (on trailers an HTTP/2 or transport error) with the original as its cause; a user body or stream failure on an outgoing HTTP/2 body is a body-write or user-body error of that cause")
    G = "body errors"
    class Q: pass
    def wrap(f, e, st, v):
        q = Q(); q.e, q.st, q.ret, q.ev, q.f = e, st, v, st.aut or (), f
        q.has = lambda *pat: any(x[:len(pat)] == pat for x in q.ev)
        return q
    f, e, fin = c26.chan_paths(ctx, P)
    for st, v in fin:
        q = wrap(f, e, st, v)
        X.judge(ctx, G, "channel", q, v, [(("data", "err"), c26.CHERR, {"as is"}, "an error sent to the body")], own(), text=c26.text(f, st, v))
    for done in (TRUE, FALSE):
        f, e, fin = c26.h2_paths(ctx, P, done)
        for st, v in fin:
            q = wrap(f, e, st, v)
            X.judge(ctx, G, "h2", q, v, [(("data", "err"), c30.RERR, {"Body"}, "an HTTP/2 body error"), (("trailers", "err"), c30.RERR, {"Http2", "Io"}, "an HTTP/2 trailers error")], own(), text=c26.text(f, st, v),
                    swallow=lambda p, pat, i: not p.has("noreason") and p.st.val_int(init("REASON_CODE")) == 0)
    for buffered in (False, True):
        for p in c29.run_pipe(ctx, P, "a", buffered):
            X.judge(ctx, G, "pipe", p, p.ret, [(("poll_reset", "err"), c29.RSTERR, {"BodyWrite"}, "a stream error"), (("capacity", "err"), c29.CAPERR, {"BodyWrite"}, "a flow-control error"),
                    (("frame", "err"), c29.BERR, {"User(Body)"}, "an error of the user's body")]
                    + [(x, c29.SENDERR, {"BodyWrite"}, "a frame that cannot be sent") for x in p.ev if x[0] == "send" and x[-1] == "err"],
                    {"BodyWrite": lambda c: True})
    ctx.floor(G, 30)


def h2(ctx, X, P):
    ctx.rule("HTTP/2 server: a failed handshake, accept or close ends the connection with an HTTP/2 error (or transport error) of that cause; on a stream, a service error is a user-service error, a failure to send or a reset is an HTTP/2 error of that cause; the reset reason sent is looked for in that error")
    G = "HTTP/2 server errors"
    from h2slib import HSERR, ACCERR, CLOSERR, TIMEDOUT
    H2 = {"Http2", "Io"}
    S = h2slib.Srv(ctx)
    fails = [(("hs", "err"), HSERR, H2, "a failed handshake"), (("accept", "err"), ACCERR, H2, "a failure of the connection"), (("closed", "err"), CLOSERR, H2, "a failure while closing"),
             (("rec", "ensure_not_timed_out", "err"), TIMEDOUT, {"as is"}, "the keep-alive time-out")]
    PN = some(("tup", (h2slib.RECORDER, h2slib.PONGER)))
    runs = [S.poll(S.handshaking(), close_pending=FALSE, extra=[c20.ERRS])] + [S.poll(S.serving(ping=pg, closing=cl), close_pending=FALSE, extra=[c20.ERRS]) for pg in (NONE, PN) for cl in (NONE, some(h2slib.CLOSING))]
    for k, ps in enumerate(runs):
        for p in ps:
            p.pinged = k > 2
            if p.again and not any(p.has(*f[0]) for f in fails): continue
            pf = fails + ([(("closed", "ok"), h2slib.CLOSING, {"as is"}, "the error the connection is closing for")] if p.has("closed", "ok") and not p.has("accept") else [])
            if p.has("accept", "none") and p.pinged: ctx.check(p.has("rec", "ensure_not_timed_out"), G, "timeout-asked", "the connection ends without being asked whether it is because of the keep-alive time-out; " + p.text())
            X.judge(ctx, G, "server", p, p.ret, pf, own())
    from h2streamlib import SVCERR, SENDERR, RSTERR, PIPEERR, REASON
    for kw in (dict(), dict(connect=True), dict(body=True)):
        for p in h2streamlib.run_server(ctx, "a", **kw):
            if p.again: continue
            fl = [(("service", "err"), SVCERR, {"User(Service)"}, "an error of the user's service"), (("send_response", "err"), SENDERR, H2, "a response that cannot be sent"), (("poll_reset", "err"), RSTERR, H2, "a stream error"),
                  (("pipe", "err"), PIPEERR, {"as is"}, "a body that cannot be sent")]
            X.judge(ctx, G, "stream", p, p.ret, fl, {"Http2": lambda c: True, "Io": lambda c: True, "User(UnexpectedHeader)": None})
            for x in p.get("reset"):
                if not p.has("service", "err"): continue
                t = TERMS[x[1][1]] if x[1][0] == "sym" else ("",)
                ctx.check(t[0] == "h2_reason" and any(k == "User(Service)" and c == SVCERR for v in errs_in(t) for k, c in X.all(v)), G, "stream-reason", "the reset reason after a service error is not taken from that error; " + p.text())
    ctx.floor(G, 15)

def errs_in(t):
    out = []
    def walk(v, d=0):
        if not isinstance(v, tuple) or d > 6: return
        if v and v[0] == "sym" and TERMS[v[1]][0] in ("err", "errwith"): out.append(v); return
        if v and v[0] == "ref":
            for y in v: walk(y, d + 1)
            return
        for y in v:
            if isinstance(y, tuple): walk(y, d + 1)
    walk(t)
    return out

def client(ctx, X, P):
    from clientlib import Cli, H2ERR, CONNERR, WHENERR, TX, TXQ
    ctx.rule("client: a request's caller gets the connection's error unchanged (or, if the request was never started, a cancellation with that error as the cause), an HTTP/2 error for its own stream or start, a keep-alive time-out; a request dropped unsent is a cancellation, one whose task is gone is a dispatch-gone error")
    G = "client errors"
    H2 = {"Http2", "Io"}
    C = Cli(ctx)
    SWP = lambda p, pat, i: pat[0] == "pipe" or pat[0] == "h2ready" and (p.has("timed_out?", "yes") or p.has("noerror", TRUE)) 
    n = 0
    for label, p, _ in clientlib.all_paths(ctx, C):
        if p.again and label != "h2:ClientTask::poll": continue
        ans = p.get("answer")
        fails = [(("h2ready", "err"), H2ERR, H2, "a failure of the HTTP/2 connection"), (("send_request", "err"), H2ERR, H2, "a request that cannot be started"), (("timed_out?", "yes"), init("TIMED_OUT"), {"as is"}, "the keep-alive time-out"),
                 (("when", "err"), WHENERR, {"as is"}, "a failed request"), (("pipe", "err"), init("PIPE_ERR"), set(), "a request body that cannot be sent")]
        mine = {"h1:recv_msg": own("UnexpectedMessage"), "queue:Envelope::drop": own("Canceled"), "queue:Callback::drop": own("User(DispatchGone)"), "h2:SendWhen::poll": own("User(DispatchGone)"),
                "h2:ClientTask::poll": own("User(InvalidConnectWithBody)", "Canceled", "User(DispatchGone)"), "queue:Callback::send": own("User(DispatchGone)")}.get(label, own("Canceled", "User(DispatchGone)"))
        if label.startswith("send:"): mine = own("Canceled", "ChannelClosed", "User(DispatchGone)")
        mine = {k: (lambda c: True) if k == "User(DispatchGone)" else x for k, x in mine.items()}
        if label == "h1:recv_msg" and is_adt(p.pre["msg"], "Err"):
            for a in ans:
                al = [y for v in errs_in_val(a[2], {CONNERR}) for y in X.all(v)]
                want = [("Canceled", CONNERR)] if a[1] == TXQ else [("as is", CONNERR)]
                ctx.check(al == want, G, "conn-error:" + ("queued" if a[1] == TXQ else "in-flight"), "the caller of a%s request is told %s instead of %s when the connection fails; %s" % (" queued" if a[1] == TXQ else "n in-flight", [(k, show(c) if c else None) for k, c in al], want[0][0], p.text()))
            if not ans: ctx.check(unwrap(p.ret, "Err") == CONNERR, G, "conn-error:returned", "a connection error nobody waits for is not what the connection ends with; " + p.text())
            n += 1; continue
        if [x for x in p.ev if x[0] in ("h2ready", "send_request", "timed_out?", "answer")][-1:] == [("h2ready", "err")] and is_adt(p.ret, "Ready"): ctx.check(p.has("timed_out?"), G, "timeout-asked", "the connection failed and is not asked whether it is because of the keep-alive time-out; " + p.text())
        X.judge(ctx, G, label, p, p.ret, fails, mine, sinks=[a[2] for a in ans], swallow=SWP)
        if label == "queue:Envelope::drop": ctx.check(any(k == "Canceled" for a in ans for v in errs_in_val(a[2], ()) for k, c in X.all(v)), G, "dropped-unsent", "a request dropped unsent is not reported as canceled; " + p.text())
        if label == "queue:Callback::drop": ctx.check(any(k == "User(DispatchGone)" for a in ans for v in errs_in_val(a[2], ()) for k, c in X.all(v)), G, "task-gone", "a request whose task is gone is not reported as such; " + p.text())
        n += 1
    if n < 60: raise mir.AnchorError("only %d client paths" % n)
    RM = P.adt("proto::h2::client::ResponseFutMap"); f = P.trait_method(RM["path"], "Future", "poll")
    RF = init("RESP_FUT")
    def rf(e, st, c):
        r = recv(e, st, c) if c.args else None
        if r == RF and c.mname == "poll": return [(PENDING, ("resp", "pending")), (ready(ok(init("RSP"))), ("resp", "ok")), (ready(err(H2ERR)), ("resp", "err"))]
        if c.fn is not None and c.fn.local and c.mname == "ensure_not_timed_out": return [(ok(UNIT), ("timed", "no")), (err(init("TIMED_OUT")), ("timed", "yes"))]
        if c.fn is not None and c.fn.local and c.mname in ("record_non_data", "record_data", "for_stream"): return [(init("PING"), None)]
        if c.mname in ("from", "into") and "h2::" in c.short + str(c.targs): return [(("sym", T("h2err", e.snapshot(st, c.args[0]))), None)]
        return None
    for con in (NONE, some(init("SS"))):
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, rf), c20.ERRS], limit=300))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, RM["path"], fut=RF, ping=some(init("PING")), send_stream=some(con))})
        for st, v in e.finals:
            p = h2slib.SP(e, f, st, v, False)
            if p.has("resp", "err"): ctx.check(p.has("timed"), G, "timeout-asked", "a request failed and is not asked whether it is because of the keep-alive time-out; " + p.text())
            X.judge(ctx, G, "response", p, v, [(("resp", "err"), H2ERR, H2, "a failed request"), (("timed", "yes"), init("TIMED_OUT"), {"as is"}, "the keep-alive time-out")],
                    {"Http2": lambda c: True, "Io": lambda c: True} if p.has("resp", "ok") else own(), swallow=lambda p, pat, i: pat[0] == "resp" and p.has("timed", "yes"))
    ctx.floor(G, 20)

def errs_in_val(v, vals):
    out = []
    def walk(v, d=0):
        if v[0] == "sym":
            if TERMS[v[1]][0] in ("err", "errwith") or v in vals: out.append(v)
        elif v[0] == "adt" and d < 8:
            for x in v[4]: walk(x, d + 1)
        elif v[0] in ("tup", "arr") and d < 8:
            for x in v[1]: walk(x, d + 1)
    walk(v)
    return out

def upgrade(ctx, X, P):
    import c33
    ctx.rule("upgrades and tunnels: the waiter gets the error it was sent, a cancellation if the connection went away, no-upgrade where there is none and manual-upgrade where the connection's user takes it by hand; a failed tunnel's writer is told a body-write error of the stream's failure")
    G = "upgrade errors"
    A = P.adt("upgrade::OnUpgrade"); PE = P.adt("upgrade::Pending")
    f = P.trait_method(A["path"], "Future", "poll")
    RX, TX, UERR = init("RX"), init("TX"), init("SENT_ERR")
    def h(e, st, c):
        m, s = c.mname, c.short
        if m == "poll" and ((c.trait or "").split("::")[-1] == "Future" and "Receiver" in c.name + s or c.fn is None):
            return [(PENDING, ("rx", "pending")), (ready(ok(ok(init("UPGD")))), ("rx", "ok")), (ready(ok(err(UERR))), ("rx", "sent")), (ready(err(init("CANCELED"))), ("rx", "gone"))]
        if m in ("lock", "panic_if_poisoned"): return [(init("GUARD"), None)]
        if m in ("deref", "deref_mut") and c.args and recv(e, st, c) == init("GUARD"): return [(mref("rx"), None)]
        if m == "send" and c.args and c.args[0] == TX: return [(ok(UNIT), ("send", e.snapshot(st, c.args[1])))]
        return None
    for rx in (NONE, some(init("ARC"))):
        e = ctx.engine(rule=Rec([(lambda c, e, st: True, h), c20.ERRS]))
        e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], rx=rx), cell("rx"): RX})
        for st, v in e.finals:
            p = h2slib.SP(e, f, st, v, False)
            if rx == NONE: ctx.check(X.all(unwrap(v, "Ready", "Err")) == [("User(NoUpgrade)", None)], G, "none", "waiting where no upgrade is possible is reported as %s" % show(v)[:80]); continue
            if p.has("rx", "gone"):
                al = X.all(unwrap(v, "Ready", "Err"))
                ctx.check(len(al) == 1 and al[0][0] == "Canceled", G, "gone", "an upgrade whose connection went away is reported as %s" % show(v)[:80])
            elif p.has("rx", "sent"): ctx.check(unwrap(v, "Ready", "Err") == UERR, G, "sent", "the error sent to the waiter is replaced by " + show(v)[:80])
    f = P.fn("upgrade::Pending::manual")
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, h), c20.ERRS])); e.run(f, [mk(P, PE["path"], tx=TX)])
    for st, v in e.finals:
        s = [x[1] for x in st.aut or () if x[0] == "send"]
        ctx.check(len(s) == 1 and X.all(unwrap(s[0], "Err")) == [("User(ManualUpgrade)", None)], G, "manual", "taking the connection by hand is reported to the waiter as %s" % [show(x)[:60] for x in s])
    A = P.adt("proto::h2::upgrade::UpgradedSendStreamTask")
    f = P.trait_method(A["path"], "Future", "poll")
    e = ctx.engine(rule=Rec(c33.task_handlers(P)))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): mk(P, A["path"], h2_tx=c33.TX, rx=c33.MPSC, close_notify=c33.CLOSEN, error_tx=some(c33.ETX))})
    for st, v in e.finals:
        p = h2slib.SP(e, f, st, v, False)
        X.judge(ctx, G, "tunnel", p, v, [(("poll_reset", "err"), c29.RSTERR, {"BodyWrite"}, "a stream error"), (("capacity", "err"), c29.CAPERR, {"BodyWrite"}, "a flow-control error")]
                + [(x, c29.SENDERR, {"BodyWrite"}, "a frame that cannot be sent") for x in p.ev if x[0] == "send" and x[-1] == "err"], {"BodyWrite": lambda c: True}, sinks=[x[1] for x in p.get("error_sent")])
    ctx.floor(G, 15)
