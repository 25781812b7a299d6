"""Typestate of the HTTP/1 connection: reuse only after both messages completed cleanly."""
from rt import *
from connlib import *
LEVEL = "other"
OPS = None

def read_complete(t):
    """the incoming message was completely received during the operation (or before it)"""
    if t.pre[0] == "KeepAlive": return True
    ev = t.ev
    for i, x in enumerate(ev):
        if x[0] == "decode" and x[1] == "trailers": return True
        if x[0] == "deof" and x[1] == TRUE:
            prev = [y for y in ev[:i] if y[0] == "decode"]
            if prev and prev[-1][1] in ("data", "empty"): return True
    if t.has("parse", "ok"):
        # zero-length body: the parsed length compares equal to zero
        dec = fget(t.lib.P, t.st, MSG, "proto::h1::ParsedMessage", "decode", eng=t.e)
        n = dec
        for _ in range(3):
            if n[0] == "sym" and t.st.val_int(n) == 0: return True
            n = t.e.project(t.st, n, ("f", 0, "0", None, None))
    return False

def write_complete(t):
    """the outgoing message was completely written in a way that permits reuse"""
    if t.pre[1] == "KeepAlive": return True
    ev = t.ev
    def lastis(tag): 
        l = [x for x in ev if x[0] == tag]
        return l[-1][1] if l else None
    if t.has("encend", TRUE): return True
    if (t.has("end", "none") or t.has("end", "some")) and lastis("elast") == FALSE and lastis("eclose") == FALSE: return True
    if t.has("trailers", "some") and lastis("elast") == FALSE and lastis("eclose") == FALSE: return True
    if lastis("eeof") == TRUE and lastis("elast") == FALSE and (t.has("encode") or t.has("encode_head", "ok")): return True
    return False

def msg_keep_alive(t):
    v = fget(t.lib.P, t.st, MSG, "proto::h1::ParsedMessage", "keep_alive", eng=t.e)
    return t.st.val_int(v)

def run(ctx):
    L = Lib(ctx)
    ctx.rule("every operation reachable from outside the connection code is interpreted from all 60 abstract states, for both roles; the resulting transitions must satisfy the reuse typestate")
    setup = {"set_" }
    need = {"poll_read_head", "poll_read_body", "write_head", "write_body", "end_body", "poll_flush", "poll_drain_or_close_read", "close_read", "close_write"}
    ntr = {}
    for role in ("server", "client"):
        for f in L.ent:
            if f.name.startswith("set_") or f.name in ("disable_date_header",):
                pres = [("Init", "Init", "Busy"), ("Body", "Body", "Disabled"), ("Closed", "KeepAlive", "Busy"), ("Init", "Init", "Idle")]
            else: pres = [(r, w, k) for r in READ for w in WRITE for k in KA]
            for p in pres:
                if not allowed(f.name, role, *p): continue
                for t in L.run(f, role, *p): one(ctx, t); ntr[f.name] = ntr.get(f.name, 0) + 1
    ctx.note("transitions per operation: %s" % ntr)
    idle_made = ctx.obl.get("going idle", 0)
    ctx.floor("going idle", 4)
    ctx.floor("message completion is justified", 20)
    ctx.floor("closed stays closed", 300)
    ctx.floor("decode failure closes", 4)
    ctx.floor("drained or closed", 20)

def one(ctx, t):
    pr, pw, pk = t.pre; r, w, k = t.post
    key = "%s:%s" % (t.role, t.f.name)
    if "?" in t.post:
        ctx.bad("unknown:" + key, "the state after %s cannot be determined: %s" % (t.f.n, t.text())); return
    ctx.check(not (pr == "Closed" and r != "Closed") and not (pw == "Closed" and w != "Closed"), "closed stays closed", "reopen:" + key, "a closed direction becomes usable again: " + t.text())
    ctx.check(not (pk == "Disabled" and k != "Disabled"), "disabled keep-alive is permanent", "reenable:" + key, "keep-alive is re-enabled: " + t.text())
    # going (back) to the start of a message
    if (r == "Init" and pr != "Init") or (w == "Init" and pw != "Init"):
        good = r == "Init" and w == "Init" and k == "Idle" and read_complete(t) and write_complete(t) and pk != "Disabled" and not (t.has("parse", "ok") and msg_keep_alive(t) != 1)
        why = []
        if not read_complete(t): why.append("the incoming message is not complete")
        if not write_complete(t): why.append("the outgoing message is not complete")
        if pk == "Disabled" or k != "Idle": why.append("keep-alive is not available")
        ctx.check(good, "going idle", "reuse:" + key, "the connection is reused although %s: %s" % (" and ".join(why) or "the state is inconsistent", t.text()))
    if k == "Idle" and pk != "Idle":
        ctx.check(r == "Init" and w == "Init", "idle means both sides are at a message start", "idle:" + key, "keep-alive becomes idle while a message is in progress: " + t.text())
        m = t.sf("method")
        ctx.check(is_adt(m, "None"), "going idle forgets the request method", "method:" + key, "the connection goes idle but still remembers the request method: " + t.text())
    if pk == "Idle" and k == "Idle" and (t.has("parse", "ok") or (t.role == "client" and t.has("encode_head", "ok"))):
        if not (r == "Init" and w == "Init" and pr == "Init"):
            ctx.bad("busy:" + key, "a message was started but the connection still counts as idle: " + t.text(), "a started message makes the connection busy")
        else: ctx.ok("a started message makes the connection busy")
    # completion of one direction
    if r == "KeepAlive" and pr != "KeepAlive":
        ctx.check(read_complete(t), "message completion is justified", "readdone:" + key, "reading counts as complete although the body was not: " + t.text())
    if w == "KeepAlive" and pw != "KeepAlive":
        ctx.check(write_complete(t), "message completion is justified", "writedone:" + key, "writing counts as cleanly complete although it was not: " + t.text())
    # failures
    if t.has("decode", "err") or t.has("parse", "err"):
        ctx.check(r == "Closed", "decode failure closes", "decerr:" + key, "a decode failure leaves reading open: " + t.text())
    if t.has("decode", "other"):
        ctx.check(r == "Closed", "decode failure closes", "decother:" + key, "an unknown body frame leaves reading open: " + t.text())
    if t.has("encode_head", "err") or t.has("end", "err"):
        ctx.check(w == "Closed", "encode failure closes", "encerr:" + key, "an encode failure leaves writing open: " + t.text())
    if t.has("ioread", "err"):
        ctx.check(r == "Closed" and w == "Closed" and k == "Disabled", "transport failure closes", "ioerr:" + key, "a transport read error leaves the connection open: " + t.text())
    if t.has("ioread", "eof"):
        ctx.check(r == "Closed" and k == "Disabled", "end of input closes reading", "ioeof:" + key, "end of input leaves reading open: " + t.text())
    # the body that is being read/written is the one announced
    if t.has("parse", "ok"):
        ka = msg_keep_alive(t)
        ctx.check(ka == 1 or k == "Disabled", "a message that asks to close disables keep-alive", "msgka:" + key, "a message without keep-alive does not disable it: " + t.text())
        nd = [x for x in t.ev if x[0] == "newdec"]
        if r in ("Body", "Continue"):
            dec = fget(t.lib.P, t.st, MSG, "proto::h1::ParsedMessage", "decode", eng=t.e)
            ctx.check(len(nd) == 1 and nd[0][1] == dec and t.rv[4][0] == DNEW, "the body is decoded as announced", "newdec:" + key, "the body decoder does not get the parsed length: " + t.text())
        ctx.check(r != "Init" or k == "Idle" and w == "Init", "a parsed head leaves the initial state", "stuck:" + key, "after a parsed head the connection would parse again: " + t.text())
    if t.has("encode_head", "ok") and w == "Body":
        ctx.check(t.wv[4][0] == E2 and not (t.get("eeof") and t.get("eeof")[-1][1] == TRUE), "the body is encoded as announced", "newenc:" + key, "the body encoder in use is not the one the head was encoded with: " + t.text())
    if t.has("encode_head", "ok"):
        ctx.check(w != "Init" or r == "Init" and k == "Idle", "a written head leaves the initial state", "rewrite:" + key, "after writing a head another one could be written: " + t.text())
    if pw == "Body" and w == "Body" and not t.has("encode_head", "ok"):
        ctx.check(t.wv[4][0] == E1, "the encoder is kept", "encswap:" + key, "the body encoder is replaced: " + t.text())
        fin = t.get("eeof") and t.get("eeof")[-1][1] == TRUE or t.has("end", "none") or t.has("end", "some") or t.has("encend") or t.has("trailers", "some")
        ctx.check(not fin, "a finished body leaves the body state", "bodystuck:" + key, "a finished outgoing body stays open: " + t.text())
    if pr in ("Body", "Continue") and r in ("Body", "Continue"):
        ctx.check(t.rv[4][0] == D, "the decoder is kept", "decswap:" + key, "the body decoder is replaced: " + t.text())
        d = [x[1] for x in t.ev if x[0] == "deof"]
        ctx.check(not (d and d[-1] == TRUE) and not t.has("decode", "trailers"), "a finished body leaves the body state", "readstuck:" + key, "a finished incoming body stays open: " + t.text())
    # named operations
    n = t.f.name
    if n == "poll_drain_or_close_read":
        ctx.check(r in ("Init", "KeepAlive", "Closed") and not (r == "KeepAlive" and not read_complete(t)) , "drained or closed", "drain:" + key, "an abandoned body is neither drained nor closed: " + t.text())
    if n == "close_read": ctx.check(r == "Closed" and k == "Disabled", "close_read", "close_read:" + key, t.text())
    if n == "close_write": ctx.check(w == "Closed" and k == "Disabled", "close_write", "close_write:" + key, t.text())
    if n == "disable_keep_alive":
        ctx.check(k == "Disabled" and (pk != "Idle" or r == w == "Closed"), "disable_keep_alive", "disable:" + key, "disabling keep-alive does not disable it (or leaves an idle connection open): " + t.text())
    # nothing may sit in a state that can neither be reused nor closed once both sides are done
    if not t.has("ioread", "eof") and t.has("poll_flush", "ok") or n == "poll_read_body" and r != "Body" and pr in ("Body", "Continue"):
        # (with body bytes still queued the decision is left to the flush that writes them)
        ctx.check(t.has("can_headers_buf", FALSE) or (r, w) not in (("KeepAlive", "KeepAlive"), ("Closed", "KeepAlive"), ("KeepAlive", "Closed")), "finished exchange is reused or closed", "limbo:" + key,
                  "both messages are done but the connection is neither reused nor closed: " + t.text())
        if (pr, pw, pk) == ("KeepAlive", "KeepAlive", "Busy") and t.has("poll_flush", "ok") and not t.get("ioread"):
            ctx.check(k == "Idle", "a clean exchange permits reuse", "noreuse:" + key, "a clean exchange does not return the connection to idle: " + t.text())
