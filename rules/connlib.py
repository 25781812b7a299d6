"""Transition relation of the HTTP/1 connection state machine (proto::h1::conn::Conn).

Every operation the rest of the crate can call on the connection is interpreted from every
abstract state (reading x writing x keep-alive), for both roles, with the decoder, the
encoder, the head parser, the head encoder and the transport replaced by all their outcomes.
"""
from rt import *

D, E1, E2, DNEW = init("DECODER"), init("ENCODER"), init("ENCODER_new"), init("DECODER_new")
IO, MSG, PERR, EERR, TFUT = init("IO"), init("MSG"), init("PARSE_ERR"), init("ENCODE_ERR"), init("TIMEOUT_FUT")
FR = {k: init("FRAME_" + k) for k in ("data", "empty", "trailers", "other")}
RBUF = init("READ_BUF"); HBUF = init("HEADERS_BUF")
READ = ("Init", "Continue", "Body", "KeepAlive", "Closed")
WRITE = ("Init", "Body", "KeepAlive", "Closed")
KA = ("Idle", "Busy", "Disabled")

class Lib:
    def __init__(self, ctx, cfg="a"):
        self.ctx, self.cfg = ctx, cfg
        P = self.P = ctx.prog(cfg)
        self.C = P.adt("proto::h1::conn::Conn"); self.S = P.adt("proto::h1::conn::State")
        self.R = P.adt("proto::h1::conn::Reading"); self.W = P.adt("proto::h1::conn::Writing"); self.K = P.adt("proto::h1::conn::KA")
        for a, names in ((self.R, READ), (self.W, WRITE), (self.K, KA)):
            have = tuple(v[0] for v in a["variants"])
            if set(have) != set(names): raise mir.AnchorError("states of %s are %s" % (a["path"], have))
        self.roles = {"server": P.adt("proto::h1::role::Server")["path"] if ("proto::h1::role::Server" in P.adts) else None,
                      "client": P.adt("proto::h1::role::Client")["path"] if ("proto::h1::role::Client" in P.adts) else None}
        self.sfields = {f[0] for f in self.S["variants"][0][2]}
        self.ent = self.entries()

    def is_conn_fn(self, f):
        P = self.P
        if not f.argc: return False
        t = P.ty(f.locals[1][0])
        return t[0] in ("ref",) and t[2][0] == "adt" and t[2][1] in (self.C["path"], self.S["path"])

    def owner_in(self, f):
        """f (or the item it is nested in) belongs to the connection or its state"""
        if self.is_conn_fn(f): return True
        t = self.P.ty(f.selfty) if f.selfty is not None else None
        if t and t[0] == "adt" and t[1] in (self.C["path"], self.S["path"]): return True
        if f.root and f.root in self.P.fns and f.root != f.id: return self.owner_in(self.P.fns[f.root])
        return False

    def entries(self):
        """operations on &mut Conn called from outside the connection's own code"""
        P = self.P
        ext = set()
        for f in P.fns.values():
            if not f.local or self.owner_in(f): continue
            for stmts, term, cl in f.blocks:
                if term[0] == "call" and "id" in term[1]:
                    ext.add(term[1].get("res", {}).get("id") or term[1]["id"])
        out = []
        for f in P.fns.values():
            if not f.local or f.id not in ext or not self.is_conn_fn(f): continue
            t = P.ty(f.locals[1][0])
            if t[2][1] == self.C["path"] and t[1]: out.append(f)
        return sorted(out, key=lambda f: f.n)

    def queries(self):
        P = self.P
        return {f.name: f for f in P.fns.values() if f.local and self.is_conn_fn(f) and P.ty(f.locals[1][0])[2][1] == self.C["path"] and not P.ty(f.locals[1][0])[1]}

    def state(self, r, w, k, **over):
        P = self.P
        rv = ("adt", self.R["path"], self.R["vix"][r], r, (D,) if self.R["variants"][self.R["vix"][r]][2] else ())
        wv = ("adt", self.W["path"], self.W["vix"][w], w, (E1,) if self.W["variants"][self.W["vix"][w]][2] else ())
        kv = ("adt", self.K["path"], self.K["vix"][k], k, ())
        sv = mk(P, self.S["path"], reading=rv, writing=wv, keep_alive=kv, **{a: b for a, b in over.items() if a in self.sfields})
        return mk(P, self.C["path"], io=IO, state=sv)

    def subst(self, role):
        return {"T": ("adt", self.roles[role], ())}

    # ---- boundary
    def handlers(self, role, extra=()):
        P = self.P
        def last(st, *names):
            for x in reversed(st.aut or ()):
                if x[0] in names: return x
            return None
        def decode(e, st, c):
            who = recv(e, st, c)
            return [(PENDING, ("decode", "pending", who)), (ready(err(init("DECODE_ERR"))), ("decode", "err", who))] + \
                   [(ready(ok(FR[k])), ("decode", k, who)) for k in FR]
        def deof(e, st, c):
            l = last(st, "decode", "deof", "body_set")
            if l and l[0] == "deof": return [(l[1], None)]
            return [(TRUE, ("deof", TRUE)), (FALSE, ("deof", FALSE))]
        def frame(e, st, c):
            v = recv(e, st, c) if c.args else None
            for k, s in FR.items():
                if v == s: break
            else: return None
            m = c.mname
            isd = k in ("data", "empty"); ist = k == "trailers"
            if m == "is_data": return [(TRUE if isd else FALSE, None)]
            if m == "is_trailers": return [(TRUE if ist else FALSE, None)]
            pay = init("PAYLOAD_" + k)
            if m in ("data_ref", "data_mut"): return [(some(("ref", (("C", pay), ()), 0)) if isd else NONE, None)]
            if m in ("trailers_ref", "trailers_mut"): return [(some(("ref", (("C", pay), ()), 0)) if ist else NONE, None)]
            if m == "into_data": return [(ok(pay) if isd else err(s), None)]
            if m == "into_trailers": return [(ok(pay) if ist else err(s), None)]
            return None
        def payload(e, st, c):
            v = recv(e, st, c) if c.args else None
            for k in ("data", "empty"):
                if v == init("PAYLOAD_" + k):
                    em = k == "empty"
                    if c.mname == "is_empty": return [(TRUE if em else FALSE, None)]
                    if c.mname == "has_remaining": return [(FALSE if em else TRUE, None)]
                    if c.mname in ("len", "remaining"):
                        if em: return [(("int", 0), None)]
                        def nz(s):
                            l = init("PLEN"); s.facts[l[1]] = ("rng", 1, 2**62, frozenset()); return l
                        return [(nz, None)]
            return None
        def enc(e, st, c):
            m = c.mname
            who = recv(e, st, c)
            def q(tag):
                l = last(st, tag)
                if l and l[2] == who and not (tag == "eeof" and last(st, "encode", "eeof")[0] == "encode"): return [(l[1], None)]
                return [(TRUE, (tag, TRUE, who)), (FALSE, (tag, FALSE, who))]
            if m == "is_eof": return q("eeof")
            if m == "is_last": return q("elast")
            if m == "is_close_delimited": return q("eclose")
            if m == "encode": return [(init("ENCODED"), ("encode", who, c.args[1]))]
            if m == "end": return [(ok(NONE), ("end", "none", who)), (ok(some(init("END_BUF"))), ("end", "some", who)), (err(init("NOT_EOF")), ("end", "err", who))]
            if m == "encode_and_end": return [(TRUE, ("encend", TRUE, who, c.args[1])), (FALSE, ("encend", FALSE, who, c.args[1]))]
            if m == "encode_trailers": return [(some(init("TRAILER_BUF")), ("trailers", "some", who)), (NONE, ("trailers", "none", who))]
            return None
        def parse(e, st, c):
            return [(PENDING, ("parse", "pending")), (ready(err(PERR)), ("parse", "err")), (ready(ok(MSG)), ("parse", "ok"))]
        def ench(e, st, c):
            arg = e.snapshot(st, c.args[0])
            return [(ok(E2), ("encode_head", "ok", arg)), (err(EERR), ("encode_head", "err", arg))]
        def io(e, st, c):
            if not c.args: return None
            p = recv_path(e, st, c)
            if not p or "io" not in fields_on(p): return None
            m = c.mname
            def fork(tag): return [(TRUE, (tag, TRUE)), (FALSE, (tag, FALSE))]
            if m in ("read_buf", "read_buf_mut"): return [(("ref", (("C", RBUF), ()), 0), None)]
            if m in ("headers_buf", "write_buf"):
                st.heap[cell(m)] = HBUF
                return [(mref(m), ("io", m))]
            if m in ("can_headers_buf", "can_buffer", "has_buffered_write", "is_read_blocked"):
                wr = ("encode", "end", "encend", "trailers", "hbuf", "encode_head", "poll_flush")
                l = last(st, m, *(wr if m != "is_read_blocked" else ("ioread",)))
                if l and l[0] == m: return [(l[1], None)]
                # a completed flush leaves no body byte queued (C16 "a completed flush leaves the queue empty")
                if l and l[:2] == ("poll_flush", "ok") and m == "can_headers_buf": return [(TRUE, (m, TRUE))]
                return fork(m)
            if m == "buffer": return [(UNIT, ("io", "buffer", c.args[1]))]
            if m == "poll_read_from_io":
                def n(s):
                    l = init("NREAD"); s.facts[l[1]] = ("rng", 1, 2**62, frozenset()); return ready(ok(l))
                return [(PENDING, ("ioread", "pending")), (ready(err(init("IO_ERR"))), ("ioread", "err")), (ready(ok(("int", 0))), ("ioread", "eof")), (n, ("ioread", "data"))]
            if m in ("poll_flush", "poll_shutdown"):
                return [(PENDING, (m, "pending")), (ready(err(init("IO_ERR"))), (m, "err")), (ready(ok(UNIT)), (m, "ok"))]
            if m == "consume_leading_lines": return [(UNIT, ("io", m))]
            if c.fn is not None and c.fn.local and c.fn.blocks and P.ty(c.fn.locals[0][0]) == ("prim", "bool") and c.fn.argc == 1: return None     # a predicate built on the others: looked into
            if m.startswith("set_") or c.fn is not None and c.fn.local or (c.trait or "").startswith("rt::"):
                return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("io", m))]
            return None
        def rbuf(e, st, c):
            v = recv(e, st, c) if c.args else None
            if v != RBUF and "read_buf" not in (fields_on(recv_path(e, st, c)) or () if c.args else ()): return None
            if c.mname in ("is_empty", "has_remaining"):
                l = last(st, "rbempty", "ioread", "io")
                if l and l[0] == "rbempty": em = l[1]
                else: em = None
                neg = c.mname == "has_remaining"
                o = [(TRUE, ("rbempty", TRUE)), (FALSE, ("rbempty", FALSE))] if em is None else [(em, None)]
                return [((FALSE if x == TRUE else TRUE) if neg else x, y) for x, y in o]
            return None
        def hbuf(e, st, c):
            if not c.args or c.args[0][0] != "ref" or c.args[0][1][0] not in (cell("headers_buf"), cell("write_buf")): return None
            v = c.args[1] if len(c.args) > 1 else None
            n = 0
            while v and v[0] == "ref" and n < 5: v = e.read(st, v[1]); n += 1
            return [(UNIT, ("hbuf", c.mname, v))]
        def sleep(e, st, c):
            v = recv(e, st, c)
            if v == TFUT or {TFUT[1], init("NEWSLEEP")[1]} & set(terms_in(v)): return [(ready(UNIT), ("timeout", "fired")), (PENDING, ("timeout", "waiting"))]
            return None
        def timer(e, st, c):
            if c.mname == "now": return [(init("NOW"), None)]
            if c.mname == "reset": return [(UNIT, ("timer", "reset", c.args[2] if len(c.args) > 2 else None))]
            if c.mname in ("sleep_until", "sleep"): return [(init("NEWSLEEP"), ("timer", c.mname, c.args[1] if len(c.args) > 1 else None))]
            return None
        def hdr(e, st, c):
            if c.mname in ("connection_any_close", "connection_keep_alive", "connection_close", "te_is_trailers"):
                l = last(st, c.mname, "hmap")
                if l and l[0] == c.mname and l[2] == e.snapshot(st, c.args[0]): return [(l[1], None)]
                return [(TRUE, (c.mname, TRUE, e.snapshot(st, c.args[0]))), (FALSE, (c.mname, FALSE, e.snapshot(st, c.args[0])))]
            return None
        def hmap(e, st, c):
            """writes to the outgoing header map"""
            if c.short.startswith("http::HeaderMap") and c.mname in ("insert", "append", "remove", "get", "get_all", "clear", "contains_key", "entry"):
                k = e.snapshot(st, c.args[1]) if len(c.args) > 1 else None
                v = e.snapshot(st, c.args[2]) if len(c.args) > 2 else None
                if c.mname == "get": return [(some(sref("HV")), ("hget", TRUE, k)), (NONE, ("hget", FALSE, k))]
                if c.mname == "contains_key": return [(TRUE, ("hget", TRUE, k)), (FALSE, ("hget", FALSE, k))]
                return [(init("HM_" + c.mname), ("hmap", c.mname, k, v))]
            return None
        def enc_pred(c, e, st):
            return c.fn is not None and c.fn.local and c.short.split("::")[-2:-1] == ["Encoder"] or c.short.endswith("Encoder::encode")
        def clone(e, st, c):
            if (c.trait or "").split("::")[-1] != "Clone" or c.args[0][0] != "ref": return None
            return [(e.read(st, c.args[0][1]), None)]
        return list(extra) + [(method("clone"), clone), (named("Decoder::decode"), decode), (named("Decoder::is_eof"), deof),
                (named("Decoder::new"), lambda e, st, c: [(DNEW, ("newdec", c.args[0]))]),
                (lambda c, e, st: bool(c.args), payload), (lambda c, e, st: bool(c.args), frame),
                (lambda c, e, st: bool(c.args), rbuf), (lambda c, e, st: bool(c.args), hbuf),
                (enc_pred, enc), (named("Buffered::parse"), parse), (named("role::encode_headers"), ench),
                (method("poll"), sleep), (lambda c, e, st: c.short.startswith("common::time::Time::"), timer),
                (lambda c, e, st: c.short.startswith("headers::"), hdr), (lambda c, e, st: True, hmap),
                (lambda c, e, st: bool(c.args) and c.fn is not None and c.fn.local or (bool(c.args) and (c.trait or "").startswith("rt::")), io)]

    def run(self, f, role, r, w, k, over=None, facts=None, extra=()):
        """-> list of Tr"""
        rule = Rec(self.handlers(role, extra))
        e = self.ctx.engine(self.cfg, rule=rule, rec=2)
        args = [mref("self")]
        for i in range(1, f.argc):
            t = self.P.ty(f.locals[i + 1][0])
            args.append(mref("arg%d" % i) if t[0] == "ref" else init("arg%d" % i))
        e.run(f, args, subst=self.subst(role), heap={cell("self"): self.state(r, w, k, **(over or {}))}, facts=facts)
        return [Tr(self, e, f, role, (r, w, k), st, v) for st, v in e.finals]

    def all(self, roles=("server", "client"), only=None, over=None):
        for role in roles:
            for f in self.ent:
                if only and f.name not in only: continue
                for r in READ:
                    for w in WRITE:
                        for k in KA:
                            for t in self.run(f, role, r, w, k, over): yield t

# states in which each operation may be called (checked at its call sites by C21)
def allowed(name, role, r, w, k):
    if name == "poll_read_head": return r == "Init" and (role == "server" or w != "Init")
    if name == "poll_read_body": return r in ("Body", "Continue")
    if name == "write_head": return w == "Init" and not (role == "client" and r == "Closed")
    if name in ("write_body", "write_body_and_end", "write_trailers", "end_body"): return w == "Body"
    if name == "poll_flush_handover": return r == "Closed" and w == "Closed"   # only once is_done (checked by C16)
    if name == "poll_read_keep_alive": return r not in ("Body", "Continue") and not (r == "Init" and (role == "server" or w != "Init"))
    return True

class Tr:
    def __init__(s, lib, e, f, role, pre, st, ret):
        s.lib, s.e, s.f, s.role, s.pre, s.st, s.ret = lib, e, f, role, pre, st, ret
        s.ev = st.aut or ()
        s.rv, s.wv, s.kv = s.sf("reading"), s.sf("writing"), s.sf("keep_alive")
        s.post = (s.var(s.rv, lib.R), s.var(s.wv, lib.W), s.var(s.kv, lib.K))
    def sf(s, name):
        """state field after the operation"""
        v = s.e.read(s.st, (cell("self"), ()))
        return fget(s.lib.P, s.st, fget(s.lib.P, s.st, v, s.lib.C, "state", eng=s.e), s.lib.S, name, eng=s.e)
    def var(s, v, a):
        if v[0] == "adt": return v[3]
        d = s.st.val_int(s.e.discr(s.st, v, a["path"]))
        return a["variants"][a["byd"][d]][0] if d is not None else "?"
    def has(s, *pat):
        return any(x[:len(pat)] == pat for x in s.ev)
    def get(s, tag):
        return [x for x in s.ev if x[0] == tag]
    def key(s): return "%s:%s:%s->%s" % (s.role, s.f.name, "/".join(s.pre), "/".join(s.post))
    def text(s):
        evs = ", ".join("%s=%s" % (x[0], x[1] if isinstance(x[1], str) else show(x[1])[:30]) for x in s.ev if len(x) > 1)
        return "%s: %s (%s) takes reading/writing/keep-alive %s to %s after [%s]" % (s.role, s.f.n, where(s.f.span), "/".join(s.pre), "/".join(s.post), evs)
