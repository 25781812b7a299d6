"""Options: what a builder does to the connection it makes, from setter to consumer, for every option alone and after every other."""
from rt import *
import hdrlib, connlib, parselib, c20
from h2streamlib import PIN
LEVEL = "other"
IO, SVC, EXEC = init("IO"), init("SERVICE"), init("EXEC")
SEC = 10**9
PC = ("sym", T("parserconfig"))
def pc(v, name, b): return ("sym", T("pc", v, name, b))

def deref(e, st, v):
    n = 0
    while v[0] == "ref" and n < 6: v = e.read(st, v[1]); n += 1
    return v

def base(P):
    """external pieces: parser configuration, Into, Arc, durations"""
    def h(e, st, c):
        m, s = c.mname, c.short
        if "ParserConfig" in s:
            if m == "default": return [(PC, None)]
            if m == "clone": return [(deref(e, st, c.args[0]), None)]
            if len(c.args) == 2 and c.args[0][0] == "ref":
                v, p, n = c.args[0], None, 0
                while v[0] == "ref" and n < 6: p = v[1]; v = e.read(st, p); n += 1
                e.write(st, p, pc(v, m, e.snapshot(st, c.args[1]))); return [(c.args[0], None)]
        if m == "into" and len(c.args) == 1:
            if is_adt(c.args[0], "Some") or is_adt(c.args[0], "None"): return [(c.args[0], None)]
        if m == "clone" and len(c.args) == 1:
            v = deref(e, st, c.args[0])
            if v[0] in ("sym", "int", "bool") and (c.fn is None or not c.fn.local): return [(v, None)]
        if s.endswith("Duration::from_secs") and c.args[0][0] == "int": return [(("int", c.args[0][1] * SEC), None)]
        if "Arc" in s and m == "new": return [(("sym", T("arc", c.args[0])), None)]
        if m == "panic" or "panic" in m: return [(DIE, ("panic",))]
        return None
    return (lambda c, e, st: True, h)

def flat(e, st, v, pre=""):
    """value -> {path: leaf}"""
    out = {}
    v = e.snapshot(st, v)
    if v[0] == "adt" and v[1] in e.p.adts and e.p.adts[v[1]]["kind"] == "struct" and v[1].startswith("proto::"):
        for i, f in enumerate(e.p.adts[v[1]]["variants"][0][2]): out.update(flat(e, st, v[4][i], pre + ("." if pre else "") + f[0]))
        return out
    out[pre] = v
    return out

class Maker:
    """one builder: its options and what a connection made from it looks like"""
    def __init__(self, ctx, cfg, path, kind):
        self.ctx, self.cfg, self.P, self.kind = ctx, cfg, ctx.prog(cfg), kind
        self.A = self.P.adt(path + "::Builder"); self.path = path
        self.cache = {}
    def fn(self, name, optional=False):
        r = [f for f in self.P.fns.values() if f.local and f.n.startswith(self.path + "::Builder") and f.name == name and f.blocks and "{closure" not in f.n]
        if len(r) != 1:
            if optional: return None
            raise mir.AnchorError("%s::Builder::%s" % (self.path, name))
        return r[0]
    def run(self, f, args, heap, extra=(), facts=None):
        e = self.ctx.engine(self.cfg, rule=Rec(list(extra) + [base(self.P)], limit=300))
        e.run(f, args, heap=heap, facts=dict(facts or {}))
        return e
    def new(self):
        f = self.fn("new")
        e = self.run(f, [EXEC] * f.argc, {})
        if len(e.finals) != 1: raise mir.AnchorError("%s does not build one value" % f.n)
        st, v = e.finals[0]
        return e.snapshot(st, v)
    def set(self, b, name, args, facts=None):
        """[(builder after, facts)] ; empty = panics"""
        f = self.fn(name)
        e = self.run(f, [mref("self")] + list(args), {cell("self"): b}, facts=facts)
        out = []
        for st, v in e.finals:
            same = v[0] == "ref" and v[1] == (cell("self"), ())
            self.ctx.check(same, "chained", self.path + name, "%s does not return the builder it was called on" % f.n)
            out.append((e.snapshot(st, e.read(st, (cell("self"), ()))), dict(st.facts)))
        return out
    def make(self, b, facts=None):
        """[{key: value}] of connections built"""
        k = repr(b)
        if k not in self.cache: self.cache[k] = getattr(self, "make_" + self.kind)(b, facts)
        return self.cache[k]
    # -- HTTP/1
    def make_h1s(self, b, facts):
        f = self.fn("serve_connection")
        e = self.run(f, [mref("self"), IO, SVC], {cell("self"): b}, facts=facts)
        return [self.conn(e, st, v) for st, v in e.finals]
    def conn(self, e, st, v):
        want = self.P.adt("proto::h1::conn::Conn")["path"]
        def find(v, d=0):
            if v[0] == "adt":
                if v[1] == want: return v
                for x in v[4]:
                    r = find(x, d + 1)
                    if r: return r
            if v[0] in ("tup", "arr"):
                for x in v[1]:
                    r = find(x, d + 1)
                    if r: return r
        r = find(e.snapshot(st, v))
        if r is None: raise mir.AnchorError("connection in the result of %s: %s" % (self.path, show(v)[:200]))
        return flat(e, st, r)
    def future(self, b, facts):
        """the state of the future handshake() returns"""
        f = self.fn("handshake")
        e = self.run(f, [mref("self"), IO], {cell("self"): b}, facts=facts)
        if len(e.finals) != 1: raise mir.AnchorError("%s returns no future" % f.n)
        st, v = e.finals[0]
        t = TERMS[v[1]] if v[0] == "sym" else ("?",)
        if t[:2] != ("agg", "coroutine"): raise mir.AnchorError("%s returns no async block: %s" % (f.n, show(v)[:80]))
        return self.P.fns[t[2]], t[3][1]
    def make_h1c(self, b, facts):
        g, fs = self.future(b, facts)
        e = self.run(g, [PIN(mref("fut")), mref("cx")][:g.argc], {cell("fut"): fresh(fs)}, facts=facts)
        return [self.conn(e, st, v) for st, v in e.finals]
    # -- HTTP/2
    def h2b(self):
        B, PP = ("adt", "$H2B", 0, "B", ()), init("PINGPONG")
        def h(e, st, c):
            m, s = c.mname, c.short
            if s.startswith("h2::") and "Builder" in s or m == "default" and "h2::" in s and "Builder" in s:
                if m in ("default", "new"): return [(B, ("h2", "new"))]
                if m == "handshake": return [(init("H2FUT"), ("h2", "handshake"))]
                return [(c.args[0], ("h2", m) + tuple(e.snapshot(st, a) for a in c.args[1:]))]
            if m == "poll" and c.args and peel(e, st, c.args[0]) == init("H2FUT"): return [(ready(ok(("tup", (init("H2TX"), init("H2CONN"))))), None)]
            if m == "ping_pong": return [(some(PP), None)]
            if s.endswith("ping::channel"): return [(("tup", (init("RECORDER"), init("PONGER"))), ("ping",) + tuple(e.snapshot(st, a) for a in c.args))]
            if m == "execute_h2_future" and c.args: return [(UNIT, None)]
            if m == "panic_if_poisoned": return None
            return None
        return (lambda c, e, st: True, h)
    def effects(self, e, st, extra):
        d = {}
        for x in st.aut or ():
            if x[0] == "h2" and x[1] not in ("new", "handshake"):
                k = "h2." + x[1]
                d[k] = x[2:] if k not in d else d[k] + ("again",) + x[2:]
                if not any(y == ("h2", "new") for y in st.aut): d["late"] = x
            if x[0] == "ping": d.update(self.pingcfg(e, st, x[1:]))
        seen = False
        for x in st.aut or ():
            if x == ("h2", "handshake"): seen = True
            elif x[0] == "h2" and seen: d["late." + x[1]] = x[2:]
        d.update(extra)
        return d
    def pingcfg(self, e, st, args):
        C = self.P.adt("proto::h2::ping::Config"); Tm = self.P.adt("common::time::Time"); d = {}
        for a in args:
            if a[0] == "adt" and a[1] == C["path"]:
                for i, f in enumerate(C["variants"][0][2]): d["ping." + f[0]] = a[4][i]
            if a[0] == "adt" and a[1] == Tm["path"]: d["ping.timer"] = a
        return d
    def make_h2s(self, b, facts):
        f = self.fn("serve_connection")
        e = self.run(f, [mref("self"), IO, SVC], {cell("self"): b}, extra=[self.h2b()], facts=facts)
        out = []
        S = self.P.adt("proto::h2::server::Server"); St = None
        for st, v in e.finals:
            v = e.snapshot(st, v); srv = [x for x in adts(v) if x[1] == S["path"]]
            if len(srv) != 1: raise mir.AnchorError("server in the result of serve_connection")
            g = {f[0]: srv[0][4][i] for i, f in enumerate(S["variants"][0][2])}
            x = {"date_header": g["date_header"], "timer": g["timer"]}
            C = self.P.adt("proto::h2::ping::Config")
            for y in adts(g["state"]):
                if y[1] == C["path"]: x.update(self.pingcfg(e, st, [y]))
            out.append(self.effects(e, st, x))
        return out
    def make_h2c(self, b, facts):
        g, fs = self.future(b, facts)
        sub = []
        def h(e, st, c):
            if c.fn is not None and c.fn.local and c.mname == "handshake" and "proto::h2::client" in c.fn.n:
                sub.append((c.fn, tuple(e.snapshot(st, deref(e, st, a)) if a[0] == "ref" else e.snapshot(st, a) for a in c.args), dict(st.facts))); return [(init("HS"), ("hs",))]
            return None
        e = self.run(g, [PIN(mref("fut")), mref("cx")][:g.argc], {cell("fut"): fresh(fs)}, extra=[(lambda c, e, st: True, h)], facts=facts)
        out = []
        Cf = self.P.adt("proto::h2::client::Config"); Tm = self.P.adt("common::time::Time")
        for fn, args, fc in dedup(sub):
            heap = {}; a2 = []
            for i, a in enumerate(args):
                if a[0] == "adt" and a[1] == Cf["path"]: heap[cell("config")] = a; a2.append(mref("config"))
                else: a2.append(a)
            if not heap: raise mir.AnchorError("the configuration does not reach proto::h2::client::handshake")
            e1 = self.run(fn, a2, heap)
            st1, v1 = e1.finals[0]
            t = TERMS[v1[1]]
            if t[:2] != ("agg", "coroutine"): raise mir.AnchorError("proto::h2::client::handshake is no async function")
            g2 = self.P.fns[t[2]]
            e2 = self.run(g2, [PIN(mref("fut")), mref("cx")][:g2.argc], {**heap, cell("fut"): fresh(t[3][1])}, extra=[self.h2b()], facts=fc)
            for st, v in e2.finals:
                if unwrap(v, "Ready", "Ok") is None: continue
                out.append(self.effects(e2, st, {}))
        return out

def fresh(fs):
    """an async block that was never polled"""
    return ("ovr", init("COROUTINE"), tuple(((i, None), x) for i, x in enumerate(fs)) + (("discr", ("int", 0)),))
def dedup(l):
    o = []
    for x in l:
        if x not in o: o.append(x)
    return o
def adts(v):
    if v[0] == "adt":
        yield v
        for x in v[4]: yield from adts(x)
    elif v[0] in ("tup", "arr"):
        for x in v[1]: yield from adts(x)
def peel(e, st, v):
    n = 0
    while n < 10:
        n += 1
        if v[0] == "ref": v = e.read(st, v[1])
        elif v[0] == "adt" and v[1].split("::")[-1] == "Pin": v = v[4][0]
        elif v[0] == "sym" and TERMS[v[1]][0] == "agg": return v
        else: return v
    return v


X, Y = init("OPT_VALUE"), init("OPT_VALUE2")
BIG = {X[1]: ("rng", 8192, 2**31, frozenset()), Y[1]: ("rng", 8192, 2**31, frozenset())}

def defaults(M):
    """what the documentation says an unset option is"""
    if M.kind in ("h1s", "h1c"):
        d = {"title": FALSE, "case": FALSE, "headers": NONE, "writev": None, "buf": None, "pc": PC}
        d.update({"half": FALSE, "ka": TRUE, "date": TRUE, "pipeline": FALSE, "timer": None, "hrt": ("default", some(("int", 30 * SEC)))} if M.kind == "h1s" else {"h09": FALSE, "exact": None})
        if M.cfg == "b" and M.kind == "h1c": d["order"] = FALSE
        return d
    d = {"adaptive": FALSE, "swnd": None, "cwnd": None, "h2.max_header_list_size": (("int", 16384),), "h2.max_frame_size": (("int", 16384),), "h2.max_local_error_reset_streams": (some(("int", 1024)),), "interval": NONE, "timeout": ("int", 20 * SEC), "timer": None}
    if M.kind == "h2s": d.update({"h2.max_send_buffer_size": (("int", 409600),), "h2.max_concurrent_streams": (("int", 200),), "date": TRUE})
    else: d.update({"h2.max_send_buffer_size": (("int", 1 << 20),), "h2.initial_max_send_streams": (("int", 100),), "idle": FALSE, "h2.enable_push": (FALSE,)})
    return d

def options(M, X):
    """option -> [(case, arguments, what it changes)]"""
    def put(**k):
        def f(d): d.update(k)
        return f
    def h2(k, v):
        def f(d):
            if v is None: d.pop("h2." + k, None)
            else: d["h2." + k] = v
        return f
    same = lambda d: None
    flag = lambda k: [("on", [TRUE], put(**{k: TRUE})), ("off", [FALSE], put(**{k: FALSE}))]
    def parser(name):
        def up(b):
            def f(d): d["pc"] = pc(d["pc"], name, b)
            return f
        return [("on", [TRUE], up(TRUE)), ("off", [FALSE], up(FALSE))]
    if M.kind in ("h1s", "h1c"):
        o = {"title_case_headers": flag("title"), "preserve_header_case": flag("case"), "max_headers": [("value", [X], put(headers=some(X)))], "writev": flag("writev"), "max_buf_size": [("value", [X], put(buf=X, exact=None))]}
        if M.kind == "h1s":
            o.update({"half_close": flag("half"), "keep_alive": flag("ka"), "auto_date_header": flag("date"), "pipeline_flush": flag("pipeline"),
                "allow_multiple_spaces_in_request_line_delimiters": parser("allow_multiple_spaces_in_request_line_delimiters"), "ignore_invalid_headers": parser("ignore_invalid_headers_in_requests"),
                "header_read_timeout": [("some", [some(X)], put(hrt=("set", some(X)))), ("none", [NONE], put(hrt=("set", NONE)))], "timer": [("value", [X], put(timer=X))]})
        else:
            for n in ("allow_spaces_after_header_name_in_responses", "allow_obsolete_multiline_headers_in_responses", "ignore_invalid_headers_in_responses"): o[n] = parser(n)
            o.update({"http09_responses": flag("h09"), "read_buf_exact_size": [("some", [some(X)], put(exact=X, buf=None)), ("none", [NONE], put(exact=None, buf=None))]})
            if M.cfg == "b": o["preserve_header_order"] = flag("order")
        return o
    W = ("int", 65535)
    opt = lambda k: [("some", [some(X)], h2(k, (X,))), ("none", [NONE], h2(k, None))]
    keep = lambda k: [("some", [some(X)], h2(k, (X,))), ("none", [NONE], same)]
    val = lambda k: [("value", [X], h2(k, (X,)))]
    o = {"initial_stream_window_size": [("some", [some(X)], put(swnd=X, adaptive=FALSE)), ("none", [NONE], same)], "initial_connection_window_size": [("some", [some(X)], put(cwnd=X, adaptive=FALSE)), ("none", [NONE], same)],
         "adaptive_window": [("on", [TRUE], put(adaptive=TRUE, swnd=W, cwnd=W)), ("off", [FALSE], put(adaptive=FALSE))],
         "max_header_list_size": val("max_header_list_size"), "max_send_buf_size": val("max_send_buffer_size"), "header_table_size": opt("header_table_size"), "max_concurrent_streams": opt("max_concurrent_streams"),
         "keep_alive_interval": [("some", [some(X)], put(interval=some(X))), ("none", [NONE], put(interval=NONE))], "keep_alive_timeout": [("value", [X], put(timeout=X))],
         "max_pending_accept_reset_streams": opt("max_pending_accept_reset_streams"), "timer": [("value", [X], put(timer=X))],
         "max_local_error_reset_streams": [("some", [some(X)], h2("max_local_error_reset_streams", (some(X),))), ("none", [NONE], h2("max_local_error_reset_streams", (NONE,)))]}
    if M.kind == "h2s": o.update({"max_frame_size": keep("max_frame_size"), "enable_connect_protocol": [("on", [], h2("enable_connect_protocol", ()))], "auto_date_header": flag("date")})
    else: o.update({"max_frame_size": opt("max_frame_size"), "initial_max_send_streams": keep("initial_max_send_streams"), "keep_alive_while_idle": flag("idle"), "max_concurrent_reset_streams": val("max_concurrent_reset_streams"), "reset_stream_duration": val("reset_stream_duration")})
    return o

def final(M, d):
    """what the documentation says of the connection: {key: value | predicate}, or None if making it panics"""
    P = M.P; en = lambda A, n, *f: ("adt", A["path"], A["vix"][n], n, f)
    Tm = P.adt("common::time::Time"); timer = en(Tm, "Timer", ("sym", T("arc", d["timer"]))) if d.get("timer") else en(Tm, "Empty")
    x = {}
    if M.kind in ("h1s", "h1c"):
        RS, WS, KA = (P.adt(a) for a in ("proto::h1::io::ReadStrategy", "proto::h1::io::WriteStrategy", "proto::h1::conn::KA"))
        q, fl = en(WS, "Queue"), en(WS, "Flatten")
        mx = d["buf"] or ("int", 8192 + 4096 * 100)
        ix = [f[0] for f in RS["variants"][RS["vix"]["Adaptive"]][2]].index("max")
        x.update({"state.title_case_headers": d["title"], "state.preserve_header_case": d["case"], "state.h1_max_headers": d["headers"], "state.h1_parser_config": d["pc"], "io.write_buf.max_buf_size": mx, "io.io": IO,
                  "io.write_buf.strategy": {None: lambda v: v in (q, fl), TRUE: q, FALSE: fl}[d["writev"]] if d.get("pipeline") != TRUE else fl, "io.read_buf_strategy": en(RS, "Exact", d["exact"]) if d.get("exact") else lambda v: is_adt(v, "Adaptive") and v[4][ix] == mx})
        if M.kind == "h1s":
            kind, t = d["hrt"]
            if not d["timer"]:
                if kind == "set" and is_adt(t, "Some"): return None
                t = NONE
            x.update({"state.allow_half_close": d["half"], "state.keep_alive": en(KA, "Disabled") if d["ka"] == FALSE else lambda v: is_adt(v, "Busy") or is_adt(v, "Idle"), "state.date_header": d["date"], "io.flush_pipeline": d["pipeline"], "state.timer": timer, "state.h1_header_read_timeout": t})
        else:
            x.update({"state.h09_responses": d["h09"], "io.flush_pipeline": FALSE, "state.keep_alive": lambda v: is_adt(v, "Busy") or is_adt(v, "Idle"), "state.allow_half_close": FALSE})
            if M.cfg == "b": x["state.preserve_header_order"] = d["order"]
        return x
    anyint = lambda v: len(v) == 1 and v[0][0] == "int"
    x.update({k: v for k, v in d.items() if k.startswith("h2.")})
    x["h2.initial_window_size"] = (d["swnd"],) if d["swnd"] else anyint; x["h2.initial_connection_window_size"] = (d["cwnd"],) if d["cwnd"] else anyint
    bdp = some(d["swnd"]) if d["adaptive"] == TRUE else NONE
    png = {"ping.bdp_initial_window": bdp, "ping.keep_alive_interval": d["interval"], "ping.keep_alive_timeout": d["timeout"], "ping.keep_alive_while_idle": d.get("idle", TRUE)}
    if M.kind == "h2s": x.update(png); x.update({"date_header": d["date"], "timer": timer})
    elif is_adt(bdp, "Some") or is_adt(d["interval"], "Some"): x.update(png); x["ping.timer"] = timer
    return x

def judge(ctx, M, G, outs, exp, tx, key):
    if exp is None: ctx.check(not outs, G, "panic:" + key, "a connection is made although a timeout is set without a timer: " + tx); return
    ctx.check(bool(outs), G, "made:" + key, "no connection is made: " + tx)
    for o in outs:
        for k, w in exp.items():
            g = o.get(k)
            good = g is not None and (w(g) if callable(w) else g == w)
            if not good: ctx.bad("%s:%s" % (k, key), "%s is %s%s: %s" % (k, show1(g), "" if callable(w) else " instead of " + show1(w), tx), G)
            else: ctx.ok(G)
        if M.kind in ("h2s", "h2c"):
            for k in o:
                if k not in exp: ctx.bad("%s:%s" % (k, key), "%s is %s although nothing asks for it: %s" % (k, show1(o[k]), tx), G)
def show1(v):
    if v is None: return "unset"
    if isinstance(v, tuple) and v and isinstance(v[0], tuple): return ", ".join(show(y)[:60] for y in v)
    return show(v)[:80] if v else "set"

def builder(ctx, M):
    G = "options of %s" % M.path
    b0 = M.new(); d0 = defaults(M)
    judge(ctx, M, G, M.make(b0), final(M, dict(d0)), "%s: nothing set" % M.path, "default")
    OX, OY = options(M, X), options(M, Y)
    tried = 0
    for n2 in OX:
        for c2, a2, u2 in OX[n2]:
            for n1 in [None] + list(OY):
                for c1, a1, u1 in OY[n1] if n1 else [(None, [], None)]:
                    d = dict(d0); b = [(b0, dict(BIG))]; tx = M.path
                    for n, c, a, u in ((n1, c1, a1, u1), (n2, c2, a2, u2)):
                        if n is None: continue
                        b = M.set(b[0][0], n, a, b[0][1]) if b else []
                        u(d); tx += ": %s(%s)" % (n, ", ".join(show1(z) for z in a))
                    key = "%s=%s" % (n2, c2) + (" after %s=%s" % (n1, c1) if n1 else "")
                    ctx.check(len(b) == 1, G, "set:" + key, "setting an option has %d outcomes: %s" % (len(b), tx))
                    if not b: continue
                    judge(ctx, M, G, M.make(b[0][0], b[0][1]), final(M, d), tx, key)
                    tried += 1
    ctx.note("%s: %d options, %d settings and pairs of settings" % (M.path, len(OX), tried)) if hasattr(ctx, "note") else None
    ctx.floor(G, 60 if M.kind != "h2c" else 60)
    if "max_buf_size" in OX:
        S = {X[1]: ("rng", 0, 8191, frozenset())}
        ctx.check(not M.set(b0, "max_buf_size", [X], S), G, "small", "%s: a buffer smaller than the minimum is accepted" % M.path)

def contexts(v, path):
    return [x for x in adts(v) if x[1] == path]

def consumed(ctx, P):
    """from the connection's state to the parser and the encoder"""
    G = "options used for messages"
    ctx.rule("the parser configuration, header limit, HTTP/0.9 switch and case switch of the connection reach the parser of every head, and httparse, unchanged; the title case, Date switch and keep-alive reach the encoder of every head; with the case switch on every header kept is kept with its spelling, with it off none")
    L = connlib.Lib(ctx); CX = P.adt("proto::h1::ParseContext"); EN = P.adt("proto::h1::Encode")
    cn = [f[0] for f in CX["variants"][0][2]]; en = [f[0] for f in EN["variants"][0][2]]
    OPT = {k: init("STATE." + k) for k in ("h1_parser_config", "h1_max_headers", "preserve_header_case", "h09_responses", "preserve_header_order", "title_case_headers", "date_header")}
    got = []
    def parse(e, st, c):
        if c.fn is None or not c.short.endswith("Buffered::parse"): return None
        a = [x for y in c.args for x in contexts(e.snapshot(st, deref(e, st, y)), CX["path"])]
        return [(PENDING, ("parse", "pending", a[0] if a else None))]
    def clone(e, st, c):
        if c.mname == "clone" and "ParserConfig" in c.short: return [(deref(e, st, c.args[0]), None)]
        return None
    over = {k: v for k, v in OPT.items() if k in L.sfields}
    bits = {v[1]: ("rng", 0, 1, frozenset()) for k, v in OPT.items() if k not in ("h1_parser_config", "h1_max_headers")}
    fns = {f.name: f for f in L.ent}
    for role in ("server", "client"):
        for t in L.run(fns["poll_read_head"], role, "Init", "Body" if role == "client" else "Init", "Idle" if role == "server" else "Busy", over=over, facts=bits, extra=[(lambda c, e, st: True, clone), (lambda c, e, st: True, parse)]):
            for x in t.ev:
                if x[0] != "parse" or len(x) < 3: continue
                if x[2] is None: ctx.bad("context:" + role, "no parse context reaches the parser", G); continue
                for k, v in OPT.items():
                    if k in cn: ctx.check(x[2][4][cn.index(k)] == v, G, "parse:%s:%s" % (role, k), "%s: the parser gets %s instead of the connection's %s" % (role, show(x[2][4][cn.index(k)])[:60], k))
        for ka in ("Busy", "Idle", "Disabled"):
            for t in L.run(fns["write_head"], role, "Body" if role == "server" else "Init", "Init", ka, over=over, facts=bits, extra=[(lambda c, e, st: True, clone)]):
                for x in t.ev:
                    if x[0] != "encode_head": continue
                    a = contexts(x[2], EN["path"])
                    if not a: ctx.bad("encode:" + role, "no message reaches the encoder", G); continue
                    for k, v in OPT.items():
                        if k in en: ctx.check(a[0][4][en.index(k)] == v, G, "encode:%s:%s" % (role, k), "%s: the encoder gets %s instead of the connection's %s" % (role, show(a[0][4][en.index(k)])[:60], k))
                    if "keep_alive" in en: ctx.check(t.st.val_int(a[0][4][en.index("keep_alive")]) == 0 or ka != "Disabled" or role == "client", G, "encode-ka:" + role, "%s: a head is encoded with keep_alive=%s while keep-alive is %s" % (role, show(a[0][4][en.index("keep_alive")])[:40], ka))
    # the read loop
    f = P.fn("Buffered::parse")
    seen = []
    def on(e, st, c):
        if c.mname == "parse" and (c.trait or "").endswith("Http1Transaction") or c.fn is not None and c.fn.local and c.mname == "parse_headers" and not c.fn.blocks:
            if any(x[0] == "head" for x in st.aut or ()): return "stop"
            a = [x for y in c.args for x in contexts(e.snapshot(st, deref(e, st, y)), CX["path"])]
            return [(ok(NONE), ("head", a[0] if a else None))]
        if c.mname == "poll_read_from_io":
            if sum(1 for x in st.aut or () if x[0] == "read") > 1: return "stop"
            return [(ready(ok(("int", 7))), ("read",))]
        if c.mname == "clone" and "ParserConfig" in c.short: return [(deref(e, st, c.args[0]), None)]
        return None
    Bf = P.adt("proto::h1::io::Buffered")
    kw = {k: v for k, v in OPT.items() if k in cn}
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, on), c20.ERRS], limit=200))
    e.run(f, [mref("self"), mref("cx"), parselib.ctx_value(P, **kw)], heap={cell("self"): mk(P, Bf["path"], read_buf=init("READ_BUF")), cell("cached"): NONE, cell("reqm"): NONE, cell("oninf"): NONE}, facts=bits)
    n = 0
    for st in [s for s, v in e.finals] + [s for s, c in e.rule.stopped]:
        for x in st.aut or ():
            if x[0] != "head": continue
            if x[1] is None: ctx.bad("loop", "no parse context reaches the role's parser", G); continue
            for k, v in kw.items(): n += 1; ctx.check(x[1][4][cn.index(k)] == v, G, "loop:" + k, "the read loop hands %s to the parser instead of the connection's %s" % (show(x[1][4][cn.index(k)])[:60], k))
    ctx.check(n > 0, G, "loop-none", "the read loop never parses")
    # the parsers
    for role in ("Server", "Client"):
        for case in (TRUE, FALSE):
            def hp(e, st, c):
                if "httparse" in c.short and c.mname.startswith("parse") and c.args: 
                    got.append((role, c.mname, e.snapshot(st, deref(e, st, c.args[0]))))
                    if any(x[0] == "end" for x in st.aut or ()): return "stop"
                if c.fn is not None and c.fn.local and c.mname in ("append", "try_append") and "HeaderCaseMap" in c.fn.n: return [(UNIT if c.mname == "append" else ok(UNIT), ("case",))]
                return None
            f = P.trait_method("proto::h1::role::" + role, "Http1Transaction", "parse")
            old = hdrlib.CAP; hdrlib.CAP = 2
            try:
                e = ctx.engine(rule=Rec([(lambda c, e, st: True, hp)] + parselib.handlers(P, ["content-length"], role), limit=400)); e.widen_from = 6
                e.run(f, [mref("buf"), parselib.ctx_value(P, preserve_header_case=case)], heap={cell("buf"): init("BUF"), cell("cached"): NONE, cell("reqm"): init("REQ_METHOD"), cell("oninf"): NONE})
            finally: hdrlib.CAP = old
            for st, v in e.finals:
                ev = st.aut or ()
                if unwrap(v, "Ok", "Some") is None: continue
                kept = sum(1 for x in ev if x[0] == "mappend"); cases = sum(1 for x in ev if x[0] == "case"); maps = [x for x in ev if x[0] == "extinsert" and x[1][0] in ("adt", "sym", "ovr") and "CaseMap" in repr(x[1])]
                tx = "%s: %d headers kept, %d spellings kept%s" % (role, kept, cases, ", handed over" if maps else "")
                if case == FALSE: ctx.check(not cases and not maps, G, "case-off:" + role, "spellings are kept although the option is off: " + tx)
                else: ctx.check(cases == kept and len(maps) == 1, G, "case-on:" + role, "the spelling of headers is lost although the option is on: " + tx)
    for role, m, v in dedup(got): ctx.check(v == init("PCONF"), G, "httparse:%s:%s" % (role, m), "%s: %s is called with another configuration (%s)" % (role, m, show(v)[:60]))
    ctx.check({r for r, _, _ in got} == {"Server", "Client"}, G, "httparse", "httparse is not called by both roles")
    # the wrapper
    f = P.fn("role::encode_headers")
    def enc(e, st, c):
        if c.mname == "encode" and (c.trait or "").endswith("Http1Transaction"): return [(init("ENCODER"), ("encode", e.snapshot(st, c.args[0]), c.args[1]))]
        return None
    e = ctx.engine(rule=Rec([(lambda c, e, st: True, enc)], limit=100)); e.run(f, [init("ENC"), mref("dst")])
    for st, v in e.finals: ctx.check([x for x in st.aut or () if x[0] == "encode"] == [("encode", init("ENC"), mref("dst"))] and v == init("ENCODER"), G, "wrapper", "encode_headers does not hand the message to the role unchanged")
    ctx.floor(G, 40)

def run(ctx):
    ctx.rule("every option, alone and after every other option, changes exactly its documented effect on the connection made: the HTTP/1 connection's state and buffers, the h2 crate's builder calls, the ping configuration, the timer and the Date switch")
    ctx.rule("options never set have their documented defaults; a header timeout without a timer and a buffer below the minimum panic")
    for cfg, path, kind in (("a", "server::conn::http1", "h1s"), ("a", "client::conn::http1", "h1c"), ("b", "client::conn::http1", "h1c"), ("a", "server::conn::http2", "h2s"), ("a", "client::conn::http2", "h2c")):
        builder(ctx, Maker(ctx, cfg, path, kind))
    consumed(ctx, ctx.prog())
