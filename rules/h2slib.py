"""Paths of the HTTP/2 server connection future (proto::h2::server::Server) with the h2 crate,
the service and the executor replaced by all their outcomes."""
from rt import *

HCONN, SVC, EXEC, RESPOND, REQ, RSTREAM, RECORDER, PONGER = (init(x) for x in ("H2CONN", "SERVICE", "EXEC", "RESPOND", "REQ", "RECV_STREAM", "PING_RECORDER", "PONGER"))
ACCERR, HSERR, CLOSERR, CLOSING, TIMEDOUT = (init(x) for x in ("ACCEPT_ERR", "HANDSHAKE_ERR", "CLOSED_ERR", "CLOSING_ERR", "PING_TIMED_OUT"))
PEND, UPG, CLEN, SFUT = init("UPGRADE_PENDING"), init("ON_UPGRADE"), init("CONTENT_LENGTH"), init("SERVICE_FUTURE")

class Srv:
    def __init__(self, ctx, cfg="a"):
        self.ctx, self.cfg = ctx, cfg
        P = self.P = ctx.prog(cfg)
        self.S = P.adt("proto::h2::server::Server"); self.St = P.adt("proto::h2::server::State"); self.V = P.adt("proto::h2::server::Serving")

    def server(self, state, **kw):
        P = self.P
        kw.setdefault("service", SVC); kw.setdefault("exec", EXEC)
        return mk(P, self.S["path"], state=state, **kw)
    def serving(self, closing=NONE, ping=NONE):
        v = mk(self.P, self.V["path"], conn=HCONN, closing=closing, ping=ping)
        return ("adt", self.St["path"], self.St["vix"]["Serving"], "Serving", (v,))
    def handshaking(self):
        P = self.P
        vi = self.St["vix"]["Handshaking"]
        fl = self.St["variants"][vi][2]
        return ("adt", self.St["path"], vi, "Handshaking", tuple(init("HS") if f[0] == "hs" else init("Handshaking." + f[0]) for f in fl))

    def handlers(self, cl=("none", "zero", "nonzero")):
        once = lambda st, *pat: any(x[:len(pat)] == pat for x in (st.aut or ()))
        def hconn(e, st, c):
            if not c.args: return None
            r = recv(e, st, c)
            m = c.mname
            if r == init("HS") and m == "poll":
                return [(PENDING, ("hs", "pending")), (ready(err(HSERR)), ("hs", "err")), (ready(ok(HCONN)), ("hs", "ok"))]
            if r != HCONN: return None
            if m == "poll_accept":
                if once(st, "accept"): return "stop"
                return [(PENDING, ("accept", "pending")), (ready(NONE), ("accept", "none")), (ready(some(err(ACCERR))), ("accept", "err")), (ready(some(ok(("tup", (REQ, RESPOND))))), ("accept", "ok"))]
            if m == "poll_closed": return [(PENDING, ("closed", "pending")), (ready(ok(UNIT)), ("closed", "ok")), (ready(err(CLOSERR)), ("closed", "err"))]
            if m == "ping_pong": return [(some(init("PINGPONG")), ("hc", m))]
            return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("hc", m) + tuple(c.args[1:]))]
        def req(e, st, c):
            if c.short.endswith("content_length_parse_all"):
                o = []
                if "none" in cl: o.append((NONE, ("cl", "none")))
                if "zero" in cl: o.append((some(("int", 0)), ("cl", "zero")))
                def nz(s):
                    s.facts[CLEN[1]] = ("rng", 1, 2**63, frozenset()); return some(CLEN)
                if "nonzero" in cl: o.append((nz, ("cl", "nonzero")))
                return o
            if not c.args: return None
            r = recv(e, st, c)
            if r == REQ:
                if c.mname == "method": return [(("ref", (("C", init("METHOD")), ()), 0), None)]
                if c.mname == "headers": return [(("ref", (("C", init("REQ_HEADERS")), ()), 0), None)]
                if c.mname == "into_parts": return [(("tup", (init("REQ_PARTS"), RSTREAM)), None)]
            if c.mname in ("eq", "ne") and len(c.args) == 2 and (r == init("METHOD") or recv(e, st, c, 1) == init("METHOD")):
                o = recv(e, st, c, 1) if r == init("METHOD") else r
                prev = [x for x in (st.aut or ()) if x[0] == "connect"]
                if prev: return [((TRUE if prev[-1][1] == "yes" else FALSE) if c.mname == "eq" else (FALSE if prev[-1][1] == "yes" else TRUE), None)]
                return [(TRUE if c.mname == "eq" else FALSE, ("connect", "yes", o)), (FALSE if c.mname == "eq" else TRUE, ("connect", "no", o))]
            if r == RESPOND and c.mname in ("send_reset", "send_response"):
                return [(UNIT if c.mname == "send_reset" else e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("respond", c.mname) + tuple(e.snapshot(st, x) for x in c.args[1:]))]
            if r == RECORDER:
                if c.mname == "ensure_not_timed_out": return [(ok(UNIT), ("rec", c.mname, "ok")), (err(TIMEDOUT), ("rec", c.mname, "err"))]
                if c.mname == "clone": return [(RECORDER, None)]
                return [(UNIT, ("rec", c.mname))]
            if r == PONGER and c.mname == "poll":
                return [(PENDING, ("pong", "pending"))] + [(ready(self.pong(k)), ("pong", k)) for k in ("SizeUpdate", "KeepAliveTimedOut")]
            if r == SVC and c.mname == "call" and not (c.fn is not None and c.fn.local and c.fn.blocks):
                return [(SFUT, ("service", e.snapshot(st, c.args[1])))]
            if r == EXEC and c.mname == "execute_h2stream": return [(UNIT, ("exec", e.snapshot(st, c.args[1])))]
            if r == EXEC and c.mname == "clone": return [(EXEC, None)]
            return None
        def chan(e, st, c):
            if c.short.endswith("ping::channel"): return [(("tup", (RECORDER, PONGER)), ("pingchannel",) + tuple(e.snapshot(st, a) for a in c.args))]
            if c.short.endswith("Config::is_enabled"): return [(TRUE, ("ping_enabled", TRUE)), (FALSE, ("ping_enabled", FALSE))]
            return None
        def body(e, st, c):
            if c.short.endswith("upgrade::pending"): return [(("tup", (PEND, UPG)), ("upgrade",))]
            if c.short.endswith("Incoming::h2"): return [(init("H2BODY"), ("newbody", "h2") + tuple(e.snapshot(st, a) for a in c.args))]
            if c.short.endswith("Incoming::empty"): return [(init("EMPTY_BODY"), ("newbody", "empty"))]
            if c.short == "http::Request::from_parts": return [(init("HREQ"), ("fromparts", c.args[0], c.args[1]))]
            if c.short.startswith("http::Extensions") and c.mname == "insert": return [(NONE, ("ext", e.snapshot(st, c.args[1])))]
            return None
        return [(lambda c, e, st: True, hconn), (lambda c, e, st: True, req), (lambda c, e, st: True, body), (lambda c, e, st: True, chan)]

    def pong(self, k):
        A = self.P.adt("proto::h2::ping::Ponged")
        vi = A["vix"][k]
        return ("adt", A["path"], vi, k, tuple(init("PONG_" + k) for _ in A["variants"][vi][2]))

    def poll(self, state, ping=False, extra=(), cl=("none", "zero", "nonzero"), **kw):
        P = self.P
        f = P.trait_method(self.S["path"], "Future", "poll")
        rule = Rec(list(extra) + self.handlers(cl))
        e = self.ctx.engine(self.cfg, rule=rule)
        e.run(f, [("adt", "std::pin::Pin", 0, "Pin", (mref("self"),)), mref("cx")], heap={cell("self"): self.server(state, **kw)})
        return [SP(e, f, st, v, False) for st, v in e.finals] + [SP(e, f, st, None, True) for st, c in rule.stopped]

class SP:
    def __init__(s, e, f, st, ret, again): s.e, s.f, s.st, s.ret, s.again, s.ev = e, f, st, ret, again, st.aut or ()
    def has(s, *pat): return any(x[:len(pat)] == pat for x in s.ev)
    def get(s, *pat): return [x for x in s.ev if x[:len(pat)] == pat]
    def idx(s, *pat):
        for i, x in enumerate(s.ev):
            if x[:len(pat)] == pat: return i
        return -1
    def text(s):
        evs = ", ".join(" ".join(show(y)[:50] if isinstance(y, tuple) else str(y) for y in x if y is not None) for x in s.ev)
        return "%s (%s): path [%s] %s" % (s.f.n, where(s.f.span), evs, "loops" if s.again else "returns " + show(s.ret)[:100])
