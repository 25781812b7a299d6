"""Paths of the HTTP/1 dispatcher (proto::h1::dispatch::Dispatcher) with the connection, the
service/client side, the bodies and the body channel replaced by all their outcomes."""
from rt import *
import connlib
from connlib import FR

BODY, SENDER, SENDER2, RXBODY = init("BODY"), init("SENDER"), init("SENDER_new"), init("INCOMING_BODY")
HEAD, LEN, WANTS, HERR, CERR = init("HEAD"), init("BODY_LEN"), init("WANTS"), init("HEAD_ERR"), init("CONN_ERR")
OHEAD, UERR, BERR, SERR = init("OUT_HEAD"), init("SERVICE_ERR"), init("BODY_ERR"), init("STATE_ERR")
PEND, UPG, IOERR = init("UPGRADE_PENDING"), init("ON_UPGRADE"), init("TRANSPORT_ERR")
EXACT, HINT = init("EXACT"), init("HINT")

class DRule(Rec):
    """also reports drops of the marked resources"""
    def __init__(self, handlers, watch=(), **kw):
        Rec.__init__(self, handlers, **kw)
        self.watch = watch
        self.on_drop = self._drop
    def _drop(self, e, st, path, ty, term):
        if not self.watch: return None
        v = e.read(st, path)
        if v[0] == "sym" and TERMS[v[1]][0] == "deref": return None
        if ty[0] in ("ref", "ptr"): return None
        def owns(v, d=0):
            if d > 8: return
            if v in self.watch: yield v
            elif v[0] == "adt":
                for x in v[4]: yield from owns(x, d + 1)
            elif v[0] in ("tup", "arr"):
                for x in v[1]: yield from owns(x, d + 1)
            elif v[0] == "ovr":
                for _, x in v[2]: yield from owns(x, d + 1)
        for w in owns(v):
            st.aut = (st.aut or ()) + (("dropped", w),)
        return None

VOCAB = {"poll_flush_handover", "poll_read_head", "poll_read_body", "poll_drain_or_close_read", "write_head", "write_body", "write_body_and_end", "write_trailers", "end_body",
         "poll_read_keep_alive", "poll_flush", "poll_shutdown", "take_error", "pending_upgrade", "on_upgrade", "close_read", "close_write", "disable_keep_alive",
         "wants_read_again", "can_read_head", "can_read_body", "can_write_head", "can_write_body", "can_buffer_body", "has_buffered_write", "is_read_closed",
         "is_write_closed", "has_initial_read_write_state", "into_inner"}

class Disp:
    MUT_ONCE = ("poll_read_head", "poll_read_body", "poll_drain_or_close_read", "write_head", "write_body", "write_body_and_end", "write_trailers", "end_body", "poll_read_keep_alive", "poll_frame", "poll_msg", "poll_flush")
    def __init__(self, ctx, cfg="a"):
        self.ctx, self.cfg = ctx, cfg
        P = self.P = ctx.prog(cfg)
        self.A = P.adt("proto::h1::dispatch::Dispatcher")
        self.C = P.adt("proto::h1::conn::Conn")
        self.conn_fns = {f.id for f in P.fns.values() if f.local and f.argc and P.ty(f.locals[1][0])[0] == "ref" and P.ty(f.locals[1][0])[2][0] == "adt" and P.ty(f.locals[1][0])[2][1] == self.C["path"]}
        self.roles = {"server": P.adt("proto::h1::role::Server")["path"] if "proto::h1::role::Server" in P.adts else None,
                      "client": P.adt("proto::h1::role::Client")["path"] if "proto::h1::role::Client" in P.adts else None}

    def fn(self, name): return self.P.fn("Dispatcher::" + name)

    def handlers(self, stub=(), inline=()):
        P = self.P
        mut = lambda st: [i for i, x in enumerate(st.aut or ()) if x[0] in ("op", "disp") ]
        def cached(st, tag, name):
            ev = st.aut or ()
            for x in reversed(ev):
                if x[0] == "op" and tag == "q": return None
                if x[0] == "disp" and x[1] in ("poll_msg", "recv_msg") and tag == "dq": return None
                if x[0] == tag and x[1] == name: return x[2]
            return None
        def conn(e, st, c):
            m = c.mname
            f = c.fn
            if m not in VOCAB or m in inline: return None
            selfmut = P.ty(f.locals[1][0])[1]
            rty = P.ty(f.locals[0][0])
            if not selfmut:
                if rty == ("prim", "bool"):
                    v = cached(st, "q", m)
                    if v is not None: return [(v, None)]
                    return [(TRUE, ("q", m, TRUE)), (FALSE, ("q", m, FALSE))]
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("q", m, None))]
            if m in self.MUT_ONCE and any(x[:2] == ("op", m) for x in (st.aut or ())): return "stop"
            a = tuple(e.snapshot(st, x) for x in c.args[1:] if not (x[0] == "ref" and x[1][0] == cell("cx")))
            op = lambda o: ("op", m, o) + a
            if m == "poll_read_head":
                return [(PENDING, op("pending")), (ready(NONE), op("eof")), (ready(some(err(HERR))), op("err")), (ready(some(ok(("tup", (HEAD, LEN, WANTS))))), op("ok"))]
            if m == "poll_read_body":
                return [(PENDING, op("pending")), (ready(NONE), op("none")), (ready(some(err(init("BODY_IO_ERR")))), op("err"))] + [(ready(some(ok(FR[k]))), op(k)) for k in ("data", "trailers", "other")]
            if m in ("poll_flush", "poll_shutdown", "poll_read_keep_alive", "poll_flush_handover"):
                er = init("ERR_" + m)
                return [(PENDING, op("pending")), (ready(err(er)), op("err")), (ready(ok(UNIT)), op("ok"))]
            if m == "end_body": return [(ok(UNIT), op("ok")), (err(init("ERR_end_body")), op("err"))]
            if m == "take_error": return [(ok(UNIT), op("ok")), (err(SERR), op("err"))]
            if m == "pending_upgrade": return [(some(PEND), op("some")), (NONE, op("none"))]
            if m == "on_upgrade": return [(UPG, op(None))]
            if rty == ("prim", "bool"): return [(TRUE, op(TRUE)), (FALSE, op(FALSE))]
            if rty == ("tuple", ()): return [(UNIT, op(None))]
            return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), op(None))]
        def disp(e, st, c):
            m = c.mname
            if m == "should_poll":
                v = cached(st, "dq", m)
                return [(v, None)] if v is not None else [(TRUE, ("dq", m, TRUE)), (FALSE, ("dq", m, FALSE))]
            if m == "poll_ready": return [(PENDING, ("disp", m, "pending")), (ready(ok(UNIT)), ("disp", m, "ok")), (ready(err(UNIT)), ("disp", m, "err"))]
            if m == "poll_msg":
                if any(x[:2] == ("disp", m) for x in (st.aut or ())): return "stop"
                return [(PENDING, ("disp", m, "pending")), (ready(NONE), ("disp", m, "none")), (ready(some(err(UERR))), ("disp", m, "err")), (ready(some(ok(("tup", (OHEAD, BODY))))), ("disp", m, "ok"))]
            if m == "recv_msg":
                a = e.snapshot(st, c.args[1])
                return [(ok(UNIT), ("disp", m, "ok", a)), (err(init("RECV_ERR")), ("disp", m, "err", a))]
            return None
        def body(e, st, c):
            if not c.args or recv(e, st, c) != BODY: return None
            m = c.mname
            if m == "is_end_stream":
                return [(TRUE, ("body", m, TRUE)), (FALSE, ("body", m, FALSE))]
            if m == "size_hint": return [(HINT, ("body", m, None))]
            if m == "poll_frame":
                if any(x[:2] == ("body", m) for x in (st.aut or ())): return "stop"
                return [(PENDING, ("body", m, "pending")), (ready(NONE), ("body", m, "none")), (ready(some(err(BERR))), ("body", m, "err"))] + [(ready(some(ok(FR[k]))), ("body", m, k)) for k in FR]
            return None
        def hint(e, st, c):
            if c.args and recv(e, st, c) == HINT and c.mname == "exact": return [(some(EXACT), ("hint", "exact")), (NONE, ("hint", "none"))]
            return None
        def sender(e, st, c):
            if not c.args: return None
            r = recv(e, st, c)
            if r not in (SENDER, SENDER2): return None
            m = c.mname
            if c.args[0][0] != "ref": return None
            a = tuple(e.snapshot(st, x) for x in c.args[1:] if not (x[0] == "ref" and x[1][0] == cell("cx")))
            if m == "poll_ready":
                if any(x[:2] == ("tx", m) for x in (st.aut or ())): return "stop"
                return [(PENDING, ("tx", m, "pending")), (ready(ok(UNIT)), ("tx", m, "ok")), (ready(err(init("CLOSED"))), ("tx", m, "err"))]
            if m in ("try_send_data", "try_send_trailers"): return [(ok(UNIT), ("tx", m, "ok") + a), (err(a[0] if a else UNIT), ("tx", m, "err") + a)]
            if m in ("send_error", "abort"): return [(UNIT, ("tx", m, None) + a)]
            return None
        def newbody(e, st, c):
            m = c.mname
            if m == "empty": return [(init("EMPTY_BODY"), ("newbody", "empty"))]
            if m == "new_channel": return [(("tup", (SENDER2, RXBODY)), ("newbody", "channel", c.args[0], c.args[1]))]
            return None
        def frames(e, st, c):
            for p, h in connlib_frames: 
                r = h(e, st, c)
                if r is not None: return r
            return None
        L = connlib.Lib.handlers
        connlib_frames = [(None, h) for h in frame_handlers()]
        def wants(e, st, c):
            if c.mname == "contains" and c.args and recv(e, st, c) == WANTS:
                v = e.as_int(c.args[1])
                nm = {1: "EXPECT", 2: "UPGRADE"}.get(v[1] if v[0] == "int" else None, show(v))
                return [(TRUE, ("wants", nm, TRUE)), (FALSE, ("wants", nm, FALSE))]
            return None
        def ext(e, st, c):
            if c.short.startswith("http::Extensions") and c.mname == "insert": return [(NONE, ("ext", e.snapshot(st, c.args[1])))]
            if c.short.startswith("http::Extensions"): return [(init("EXT_" + c.mname), None)]
            return None
        def yld(e, st, c): return [(PENDING, ("yield",))]
        def stubs(e, st, c):
            for nm, h in stub:
                if c.fn is not None and c.fn.local and c.mname == nm and c.args and c.args[0][0] == "ref" and c.args[0][1][0] == cell("self"):
                    return h(e, st, c)
            return None
        return [(lambda c, e, st: bool(stub) and bool(c.args), stubs),
                (lambda c, e, st: c.fn is not None and c.fn.id in self.conn_fns, conn),
                (lambda c, e, st: (c.trait or "").split("::")[-1] == "Dispatch", disp),
                (lambda c, e, st: True, sender), (lambda c, e, st: True, body), (lambda c, e, st: True, hint),
                (named("Incoming::empty", "Incoming::new_channel"), newbody),
                (lambda c, e, st: True, frames), (method("contains"), wants), (lambda c, e, st: True, ext),
                (named("task::yield_now"), yld)]

    def value(self, body_tx=False, body_rx=False, closing=FALSE, conn=None):
        P = self.P
        G = P.adt("proto::h1::dispatch::SenderDropGuard")
        tx = ("adt", G["path"], 0, "SenderDropGuard", (some(SENDER) if body_tx else NONE,))
        rx = ("adt", "std::pin::Pin", 0, "Pin", (mref("body_rx"),))
        d = mk(P, self.A["path"], conn=conn or init("CONN"), dispatch=init("DISPATCH"), body_tx=tx, body_rx=rx, is_closing=closing)
        return {cell("self"): d, cell("body_rx"): some(BODY) if body_rx else NONE}

    def run(self, fname, role="server", stub=(), watch=(SENDER, SENDER2), extra_args=(), by_pin=False, inline=(), extra=(), **kw):
        """inline: connection operations to look into rather than to replace by their outcomes"""
        rule = DRule(list(extra) + self.handlers(stub, inline), watch=watch)
        e = self.ctx.engine(self.cfg, rule=rule, drops=True)
        f = fname if not isinstance(fname, str) else self.fn(fname)
        a0 = ("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)) if by_pin else mref("self")
        args = [a0] + [mref("cx")] * (f.argc > 1) + list(extra_args)
        e.run(f, args, subst={"T": ("adt", self.roles[role], ())}, heap=self.value(**kw))
        out = [Path(self, e, f, st, v, False) for st, v in e.finals] + [Path(self, e, f, st, None, True) for st, c in rule.stopped]
        for p in out: p.kw = kw
        return out

class Path:
    def __init__(s, lib, e, f, st, ret, again):
        s.lib, s.e, s.f, s.st, s.ret, s.again = lib, e, f, st, ret, again
        s.ev = st.aut or ()
    def field(s, name):
        return fget(s.lib.P, s.st, s.e.read(s.st, (cell("self"), ())), s.lib.A, name, eng=s.e)
    def rx(s): return s.e.read(s.st, (cell("body_rx"), ()))
    def tx(s): return s.e.project(s.st, s.field("body_tx"), ("f", 0, "0", None, None))
    def closing(s): return s.st.val_int(s.field("is_closing"))
    def has(s, *pat): return any(x[:len(pat)] == pat for x in s.ev)
    def idx(s, *pat):
        for i, x in enumerate(s.ev):
            if x[:len(pat)] == pat: return i
        return -1
    def get(s, *pat): return [x for x in s.ev if x[:len(pat)] == pat]
    def q_before(s, i, name):
        """answer of a connection query still valid at event i"""
        for x in reversed(s.ev[:i]):
            if x[0] == "op": return None
            if x[0] == "q" and x[1] == name: return x[2]
        return None
    def text(s):
        evs = ", ".join(" ".join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x if y is not None) for x in s.ev)
        return "%s (%s): path [%s] %s" % (s.f.n, where(s.f.span), evs, "loops" if s.again else "returns " + show(s.ret)[:80])

def frame_handlers():
    def frame(e, st, c):
        v = recv(e, st, c) if c.args else None
        for k, s in FR.items():
            if v == s: break
        else: return None
        m = c.mname
        isd = k in ("data", "empty"); ist = k == "trailers"
        if m == "is_data": return [(TRUE if isd else FALSE, None)]
        if m == "is_trailers": return [(TRUE if ist else FALSE, None)]
        pay = init("PAYLOAD_" + k)
        if m in ("data_ref", "data_mut"): return [(some(("ref", (("C", pay), ()), 0)) if isd else NONE, None)]
        if m in ("trailers_ref", "trailers_mut"): return [(some(("ref", (("C", pay), ()), 0)) if ist else NONE, None)]
        if m == "into_data": return [(ok(pay) if isd else err(s), None)]
        if m == "into_trailers": return [(ok(pay) if ist else err(s), None)]
        return None
    def payload(e, st, c):
        v = recv(e, st, c) if c.args else None
        for k in ("data", "empty"):
            if v == init("PAYLOAD_" + k):
                em = k == "empty"
                if c.mname == "is_empty": return [(TRUE if em else FALSE, None)]
                if c.mname == "has_remaining": return [(FALSE if em else TRUE, None)]
                if c.mname in ("len", "remaining"):
                    if em: return [(("int", 0), None)]
                    def nz(s):
                        l = init("PLEN"); s.facts[l[1]] = ("rng", 1, 2**62, frozenset()); return l
                    return [(nz, None)]
        return None
    return [frame, payload]
