"""One HTTP/2 stream: the server's H2Stream future and the client's ClientTask, with the h2 crate,
service, body, executor and upgrade channel replaced by all their outcomes.  Functions that take
the message's header map are recorded ("hfn", id, args) and their effects computed separately."""
from rt import *
import hdrlib, c20
from hdrlib import strip
from clientlib import PIN

REPLY, SFUT, RES, RPARTS, RBODY, HRES, STATUS, TXS, SENDERR, SVCERR, REASON, RSTERR = (init(x) for x in (
    "REPLY_HANDLE", "SERVICE_FUTURE", "RESPONSE", "RESPONSE_PARTS", "RESPONSE_BODY", "RESPONSE_HEAD", "RESPONSE_STATUS", "SEND_STREAM", "SEND_ERR", "SERVICE_ERR", "RESET_REASON", "RESET_ERR"))
PIPE, PUP, PPING, PRECV, EXEC, H2UP, UPTASK, DATEV, LENV, PIPEERR = (init(x) for x in ("PIPE", "PENDING_UPGRADE", "PING", "RECV_STREAM", "EXEC", "H2UPGRADED", "UPGRADE_TASK", "DATE_VALUE", "EXACT_LEN", "PIPE_ERR"))

def takes_map(P, f):
    """index of the `&mut HeaderMap` parameter of a local function, or None"""
    if f is None or not f.local or not f.blocks or f.trait: return None
    for i in range(1, f.argc + 1):
        t = P.ty(f.locals[i][0])
        if t[0] == "ref" and t[1] and t[2][0] == "adt" and t[2][1].endswith("HeaderMap"): return i - 1
    return None

def hfn_handler(P):
    def h(e, st, c):
        ix = takes_map(P, c.fn)
        if ix is None: return None
        rest = tuple(e.snapshot(st, a) for i, a in enumerate(c.args) if i != ix)
        return [(e.fresh(st, "site", c.short, c.site[0], c.site[1]), ("hfn", c.fn.id, rest))]
    return h

def one_map(e, st, c): return "H"

def server_handlers(P, memo=None):
    def h(e, st, c):
        m, s = c.mname, c.short
        r = recv(e, st, c) if c.args else None
        if s.endswith("content_length_parse_all"):
            def nz(x):
                l = init("CLEN"); x.facts[l[1]] = ("rng", 1, 2**63, frozenset()); return some(l)
            return [(NONE, ("cl", "none")), (some(("int", 0)), ("cl", "zero")), (nz, ("cl", "nonzero"))]
        if r == SFUT and m == "poll": return [(PENDING, ("service", "pending")), (ready(ok(RES)), ("service", "ok")), (ready(err(SVCERR)), ("service", "err"))]
        if r == REPLY:
            if m == "send_response": return [(ok(TXS), ("send_response", "ok", e.snapshot(st, c.args[1]), c.args[2])), (err(SENDERR), ("send_response", "err", e.snapshot(st, c.args[1]), c.args[2]))]
            if m == "send_reset": return [(UNIT, ("reset", e.snapshot(st, c.args[1])))]
            if m == "poll_reset": return [(PENDING, ("poll_reset", "pending")), (ready(ok(REASON)), ("poll_reset", "reset")), (ready(err(RSTERR)), ("poll_reset", "err"))]
            return [(e.fresh(st, "site", s, c.site[0], c.site[1]), ("reply", m))]
        if r == RES and s.startswith("http::Response"):
            if m == "into_parts": return [(("tup", (RPARTS, RBODY)), None)]
            if m == "into_body": return [(RBODY, None)]
            if m == "body": return [(("ref", (("C", RBODY), ()), 0), None)]
        if s == "http::Response::from_parts": return [(HRES, None)]
        if r in (RES, HRES) and s.startswith("http::Response"):
            if m == "headers_mut": return [(mref("H"), None)]
            if m == "headers": return [(sref("H"), None)]
            if m == "status": return [(STATUS, None)]
        if r == RBODY:
            if m == "is_end_stream":
                p = [x for x in (st.aut or ()) if x[0] == "eos"]
                if p: return [(p[-1][1], None)]
                return [(TRUE, ("eos", TRUE)), (FALSE, ("eos", FALSE))]
            if m == "size_hint": return [(init("HINT"), None)]
        if r == init("HINT") and m == "exact": return [(some(LENV), ("exact", "some")), (NONE, ("exact", "none"))]
        if c.fn is not None and c.fn.local:
            if "PipeToSendStream" in s and m == "poll": return [(PENDING, ("pipe", "pending")), (ready(ok(UNIT)), ("pipe", "ok")), (ready(err(PIPEERR)), ("pipe", "err"))]
            if s.endswith("PipeToSendStream::new"): return [(PIPE, ("newpipe", c.args[0], c.args[1]))]
            if s.endswith("upgrade::pair"): return [(("tup", (H2UP, UPTASK)), ("tunnel",) + tuple(c.args))]
            if s.endswith("Upgraded::new"): return [(("sym", T("upgraded", c.args[0], e.snapshot(st, c.args[1]))), None)]
            if r == PUP: return [(UNIT, ("pending_upgrade", m) + tuple(e.snapshot(st, a) for a in c.args[1:]))]
            if "date::" in s and not c.args: return [(DATEV, ("date",))]
        if m == "execute_upgrade": return [(UNIT, ("exec_upgrade", e.snapshot(st, c.args[1])))]
        if m in ("h2_reason",) and c.fn is not None and c.fn.local: return [(("sym", T("h2_reason", e.snapshot(st, c.args[0]))), None)]
        return None
    return [(lambda c, e, st: True, h), (lambda c, e, st: True, hfn_handler(P)), c20.ERRS] + hdrlib.map_handlers(one="H") + hdrlib.iter_handlers()

def run_server(ctx, cfg="a", connect=False, body=False, date=None, extra=(), watch=()):
    from displib import DRule
    from h2slib import SP
    P = ctx.prog(cfg)
    S = P.adt("proto::h2::server::H2Stream"); St = P.adt("proto::h2::server::H2StreamState"); Cp = P.adt("proto::h2::server::ConnectParts")
    vi = St["vix"]["Body" if body else "Service"]
    vals = {"fut": SFUT, "pipe": PIPE, "connect_parts": some(mk(P, Cp["path"], pending=PUP, ping=PPING, recv_stream=PRECV)) if connect else NONE}
    st = ("adt", St["path"], vi, "Body" if body else "Service", tuple(vals.get(f[0], init("H2StreamState." + f[0])) for f in St["variants"][vi][2]))
    v = mk(P, S["path"], reply=REPLY, state=st, exec=EXEC, **({} if date is None else dict(date_header=date)))
    f = P.fn("proto::h2::server::H2Stream::poll2", optional=True) or P.trait_method(S["path"], "Future", "poll")
    rule = DRule(list(extra) + server_handlers(P), watch=watch)
    e = ctx.engine(cfg, rule=rule, drops=bool(watch))
    e.run(f, [PIN(mref("self")), mref("cx")], heap={cell("self"): v})
    return [SP(e, f, st, r, False) for st, r in e.finals] + [SP(e, f, st, None, True) for st, c in rule.stopped]

def norm(v):
    """without references and dereferences (elements of collections are compared by what they denote)"""
    while True:
        if v[0] == "rf": v = v[1]
        elif v[0] == "sym" and TERMS[v[1]][0] == "deref": v = TERMS[v[1]][1]
        else: return v

# ---- value comparisons and string operations on header values
def str_handlers():
    def h(e, st, c):
        m = c.mname
        if m in ("eq", "ne", "eq_ignore_ascii_case") and len(c.args) == 2:
            a, b = [strip(e, st, x) for x in c.args]
            t = lambda v: v[1] if v[0] == "str" else bytes(v[1]).decode("latin1") if v[0] == "bytes" and v[1] and not isinstance(v[1], str) else None
            s, o = (t(b), a) if t(b) is not None else (t(a), b)
            if s is None or o[0] not in ("sym",): return None
            o = norm(e.snapshot(st, o))
            y, n = (TRUE, FALSE) if m != "ne" else (FALSE, TRUE)
            p = [x for x in (st.aut or ()) if x[0] == "cmp" and x[1] == o and x[2].lower() == s.lower()]
            if p: return [(y if p[-1][3] else n, None)]
            return [(y, ("cmp", o, s, True, m)), (n, ("cmp", o, s, False, m))]
        if m == "to_str" and c.args:
            v = norm(recv(e, st, c))
            p = [x for x in (st.aut or ()) if x[0] == "tostr" and x[1] == v]
            o = [(ok(("sym", T("str", v))), ("tostr", v, True)), (err(init("TO_STR_ERR")), ("tostr", v, False))]
            if p: return [(o[0 if p[-1][2] else 1][0], None)]
            return o
        if m in ("trim", "trim_start", "trim_end", "trim_matches") and c.args and not c.fn:
            return [(("sym", T(m, norm(e.snapshot(st, strip(e, st, c.args[0]))))), None)]
        return None
    return (lambda c, e, st: True, h)

def fn_effects(ctx, cfg, fid, rest):
    """event sequences of a local function that takes &mut HeaderMap"""
    P = ctx.prog(cfg)
    cache = ctx.__dict__.setdefault("_fx", {})
    if (cfg, fid, rest) in cache: return cache[(cfg, fid, rest)]
    f = P.fns[fid]
    ix = takes_map(P, f)
    R = Rec([str_handlers()] + hdrlib.map_handlers(one="H") + hdrlib.iter_handlers(), limit=140)
    e = ctx.engine(cfg, rule=R)
    args = list(rest); args.insert(ix, mref("H"))
    e.run(f, args, heap={cell("H"): init("H")})
    cache[(cfg, fid, rest)] = [tuple(st.aut or ()) for st, v in e.finals]
    return cache[(cfg, fid, rest)]
