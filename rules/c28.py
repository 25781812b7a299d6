"""HTTP/2 heads never carry connection-specific fields."""
from rt import *
import h2streamlib as H, clientlib, c20
from clientlib import Cli, PIN, client_task, h2_handlers
LEVEL = "other"
FORBIDDEN = ("connection", "proxy-connection", "keep-alive", "transfer-encoding", "upgrade")

def absent(seq, name):
    """is name known absent after the event sequence (None: never touched)"""
    r = None
    for x in seq:
        if x[0] == "hset" and x[3] == name: r = False
        elif x[0] == "hset" and not isinstance(x[3], str): r = False
        elif x[0] == "hrm" and x[2] == name: r = True
        elif x[0] == "has" and x[2] == name: r = not x[3] if not (r is True) else r
        elif x[0] == "hclear": r = True
        elif x[0] == "end" and x[1][0] == "values" and x[1][2] == name and x[2] == 0 and r is not False: r = True
    return r

def te_trailers_only(seq):
    """TE was looked at completely and every value is exactly 'trailers'"""
    tag = [x[1] for x in seq if x[0] == "end" and x[1][0] == "values" and x[1][2] == "te"]
    if not tag: return False
    n = [x[2] for x in seq if x[0] == "end" and x[1] == tag[-1]][-1]
    import hdrlib
    for i in range(n):
        v = hdrlib.elem(tag[-1], i)
        ok_ = False
        for x in seq:
            if x[0] == "cmp" and x[2].lower() == "trailers" and x[3]:
                u = x[1]
                while u != v and u[0] == "sym" and TERMS[u[1]][0] in ("str", "trim", "call"):
                    u = TERMS[u[1]][1 if TERMS[u[1]][0] != "call" else 2]
                ok_ = ok_ or u == v
        if not ok_: return False
    return True

def removed_names(seq): return [x[2] for x in seq if x[0] == "hrm"]

def tokens(seq):
    """(complete, expected names): what the Connection lines of this path nominate"""
    import hdrlib
    ends = [x for x in seq if x[0] == "end" and x[1][0] == "values" and x[1][2] == "connection"]
    if not ends: return False, []
    tag, n = ends[-1][1], ends[-1][2]
    out = []
    for i in range(n):
        v = hdrlib.elem(tag, i)
        t = [x for x in seq if x[0] == "tostr" and x[1] == v]
        if not t: return False, []
        if not t[-1][2]: continue           # not a token list
        sp = [x for x in seq if x[0] == "end" and x[1][0] == "split" and ("sym", T("str", v)) == x[1][1] and x[1][2] in (("int", 44), ("str", ","))]
        if not sp: return False, []
        for j in range(sp[-1][2]): out.append(hdrlib.elem(sp[-1][1], j))
    return True, out

def is_token(name, tok):
    v = name
    trimmed = False
    while v != tok:
        while v[0] in ("rf", "ref") and len(v) > 1 and isinstance(v[1], tuple) and v[0] == "rf": v = v[1]
        if v == tok: break
        if v[0] != "sym": return False
        t = TERMS[v[1]]
        if t[0] == "trim": trimmed = True; v = t[1]
        elif t[0] == "call" and len(t) >= 3: v = t[2]
        elif t[0] in ("fld", "as", "deref"): v = t[1]
        else: return False
    return trimmed

def judge(ctx, seq, kind, label, txt, only=None):
    """obligations at the point where the head is sent; seq: flattened events of this path"""
    for n in FORBIDDEN:
        ctx.check(absent(seq, n) is True, "connection-specific field absent", "%s:%s" % (label, n), "a head can be sent over HTTP/2 with the field %s; %s" % (n, txt))
    t = absent(seq, "te")
    ctx.check(t is True or kind == "Request" and t is not False and te_trailers_only(seq), "TE absent or exactly trailers", label + ":te", "a head can be sent over HTTP/2 with a TE that is not allowed; " + txt)
    had = [x for x in seq if x[0] == "has" and x[2] == "connection"]
    first = next((x for x in seq if x[0] in ("has", "end") and (x[2] == "connection" or x[0] == "end" and x[1][0] == "values" and x[1][2] == "connection")), None)
    nominated = []
    if first is not None and (first[0] == "has" and not first[3] or first[0] == "end" and first[2] == 0): ctx.ok("no Connection line, nothing nominated")
    else:
        full, toks = tokens(seq)
        ctx.check(full, "every Connection line is read", label + ":nominated-all", "not every Connection header line (or not every token of one) is taken into account; " + txt)
        rms = [n[1] for n in removed_names(seq) if not isinstance(n, str) and n[0] == "?"]
        for k in toks:
            ctx.check(any(is_token(r, k) for r in rms), "nominated field removed", label + ":nominated", "a field nominated by Connection is not removed; " + txt)
        nominated = [r for r in rms if any(is_token(r, k) for k in toks)]
    for n in removed_names(seq):
        if isinstance(n, str): good = n in FORBIDDEN or n == "te" or n == "content-length" and label == "tunnel"
        else: good = n[1] in nominated
        if n == "te" and kind == "Request" and good:
            good = any(x[0] == "cmp" and x[2].lower() == "trailers" and not x[3] for x in seq)
        ctx.check(good, "nothing else is removed", "%s:extra:%s" % (label, n if isinstance(n, str) else "?"), "the field %s is removed from a head sent over HTTP/2; %s" % (n if isinstance(n, str) else show(n[1]), txt))
    ctx.check(not any(x[0] == "hclear" for x in seq), "nothing else is removed", label + ":clear", txt)

def expand(ctx, cfg, ev):
    """all flattenings of a path's head events (alternatives inside recorded functions)"""
    alts = [()]
    for x in ev:
        if x[0] == "hfn":
            fx = H.fn_effects(ctx, cfg, x[1], x[2])
            fx = list(dict.fromkeys(fx))
            alts = [a + f for a in alts for f in fx]
            if len(alts) > 4000: raise Exception("too many combinations of head changes")
        elif x[0] in ("has", "hset", "hrm", "hall", "hclear", "elem", "end", "cmp", "tostr", "hiter"):
            alts = [a + (x,) for a in alts]
    return list(dict.fromkeys(alts))

def sends(ctx, cfg, paths, what, kind, label):
    seen = set()
    for p in paths:
        for i, x in enumerate(p.ev):
            if x[0] != what: continue
            pre = p.ev[:i]
            tun = any(y[0] == "cl" for y in pre) and kind == "Response" or any(y[0] == "connect?" and y[1] == TRUE for y in pre)
            key = tuple(y for y in pre if y[0] in ("hfn", "has", "hset", "hrm", "hall", "hclear", "elem", "end", "cmp", "tostr", "hiter"))
            if (key, tun) in seen: ctx.ok("send points on paths"); continue
            seen.add((key, tun))
            ctx.ok("send points on paths")
            for seq in expand(ctx, cfg, pre):
                judge(ctx, seq, kind, "tunnel" if tun else label, "%s (%s) before %s: %s" % (p.f.n, where(p.f.span), what, " ".join("%s %s" % (y[0], " ".join(str(z) for z in y[1:] if isinstance(z, str))) for y in seq)[:500]))

def run(ctx):
    ctx.rule("on every path to h2's send_request / send_response the head's header map has been cleaned: Connection and what every line of it nominates, Proxy-Connection, Keep-Alive, Transfer-Encoding, Upgrade removed; TE removed unless (request) every value is exactly 'trailers'; nothing else removed and nothing forbidden added afterwards")
    cfg = "a"; P = ctx.prog(cfg)
    for connect in (False, True):
        sends(ctx, cfg, H.run_server(ctx, cfg, connect=connect), "send_response", "Response", "response")
    C = Cli(ctx, cfg)
    f = P.trait_method(P.adt("proto::h2::client::ClientTask")["path"], "Future", "poll")
    hs = [(lambda c, e, st: True, H.hfn_handler(P))] + h2_handlers(P, C)[:0]
    import hdrlib
    ps = []
    for fut in (False, True):
        ps += C.run(f, [PIN(mref("self")), mref("cx")], {cell("self"): client_task(P, fut, "Retry")}, kind="Retry", extra=hs + h2_handlers(P, C) + hdrlib.map_handlers(one="H"))
    sends(ctx, cfg, ps, "send_request", "Request", "request")
    ctx.floor("send points on paths", 6); ctx.floor("nominated field removed", 4); ctx.floor("connection-specific field absent", 100)
    # every other place that sends a head
    known = set()
    for e in ctx._engs: known |= e.fns_seen
    for g in P.fns.values():
        if not g.local: continue
        for b in g.blocks:
            t = b[1]
            if t and t[0] == "call":
                n = ctx.prog(cfg).short(callee(P, t))
                if n.startswith("h2::") and n.split("::")[-1] in ("send_request", "send_response", "send_informational", "push_request"):
                    ctx.check(g.n in known or g.id in known, "sending functions analysed", "site:" + g.n, "%s sends an HTTP/2 head but is not on an analysed path" % g.n)
    ctx.floor("sending functions analysed", 2)

def callee(P, t):
    return t[1].get("n", "") if isinstance(t[1], dict) else ""
