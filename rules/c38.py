"""Locks: order, re-entrancy and what runs under them (dataflow over every body)."""
from rt import *
LEVEL = "other"
GUARDS = ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "MappedMutexGuard", "ReentrantLockGuard")
LOCKS = ("lock", "read", "write")
# what may run under a lock because the lock's purpose is to run it: (lock class, callee) - see DESIGN
ALLOWED = [
    ("FuturesUnordered", ""),                       # the C executor's driver: polls (and drops) the tasks
    ("ping::Shared", "::rt::Timer::"), ("ping::Shared", "crate::rt"), ("ping::Shared", "PingPong::"), ("ping::Shared", "Waker::wake_by_ref"), ("ping::Shared", "rt::timer::"), ("ping::Shared", "rt::Timer"), ("ping::Shared", "rt::Sleep"), ("ping::Shared", "rt::timer::Sleep"),
    ("oneshot::Receiver", "oneshot::Receiver"), ("oneshot::Receiver", "Future::poll"),
]

def tstr(t):
    if not isinstance(t, tuple): return str(t)
    if t[0] == "adt": return t[1] + ("<%s>" % ", ".join(tstr(x) for x in t[2]) if t[2] else "")
    return " ".join(tstr(x) for x in t if x != ())

def guards_in(t):
    """inner types of the lock guards a type contains"""
    if not isinstance(t, tuple): return set()
    out = set()
    if t and t[0] == "adt" and any(t[1].endswith(g) for g in GUARDS) and t[2]: out.add(tstr(t[2][-1] if t[2][-1] != "..." else t[2][0]))
    if t and t[0] in ("ref", "ptr", "rawptr"): return set()
    for x in t:
        if isinstance(x, tuple): out |= guards_in(x)
    return out

class Locks:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.byid = {}
        for f in P.fns.values():
            if f.local: s.byid.setdefault(f.id, f)
        s.impls = {}
        for f in P.fns.values():
            if f.local and f.trait: s.impls.setdefault((f.trait, f.name), []).append(f)
        s.gl = {}
    def lty(s, f, i):
        l = f.locals[i][0]
        return s.P.ty(l) if isinstance(l, int) else l
    def glocals(s, f):
        k = f.key
        if k not in s.gl:
            g = {}
            for i in range(len(f.locals)):
                x = guards_in(s.lty(f, i))
                if x: g[i] = x
            s.gl[k] = g
        return s.gl[k]
    def callees(s, info):
        """(local bodies a call may run, name, is it code the crate does not know)"""
        if "op" in info: return [], "a function pointer", True
        fnlike = (info.get("trait") or "").rsplit("::", 1)[-1] in ("Fn", "FnMut", "FnOnce")
        r = info.get("res") or info
        n = r.get("n") or info.get("n", "")
        if r.get("local") and r["id"] in s.byid: return [s.byid[r["id"]]], n, False
        a = (info.get("args") or [None])[0]
        a = s.P.ty(a) if isinstance(a, int) else None
        if info.get("trait") and a is not None: n = "%s of %s" % (n, tstr(a))
        if fnlike and (a is None or a[0] not in ("closure", "fndef")): return [], n, True
        if info.get("trait") and not info.get("res"):
            l = s.impls.get((info["trait"], info["name"]), [])
            if info["trait"].split("::")[1:2] in (["convert"], ["cmp"], ["fmt"], ["ops"]) and info["trait"].rsplit("::", 1)[-1] not in ("Fn", "FnMut", "FnOnce", "Drop"): return l, n, False
            return l, n, a is None or a[0] not in ("prim", "ref") and bool(foreign_types(s.P, a)) or a[0] == "closure"
        return [], n, False
    def closures(s, info):
        out = []
        for a in list(info.get("args") or []) + list((info.get("res") or {}).get("args") or []):
            t = s.P.ty(a) if isinstance(a, int) else a
            st = [t]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    if x and x[0] in ("closure", "coroutine") and len(x) > 1 and x[1] in s.byid: out.append(s.byid[x[1]])
                    st += [y for y in x if isinstance(y, tuple)]
        return out
    def takes(s, f, info):
        """lock class a call acquires (blocking)"""
        n = (info.get("res") or info).get("n") or info.get("n", "")
        m = info.get("name")
        if m in LOCKS and ("Mutex" in n or "RwLock" in n or "ReentrantLock" in n):
            a = info.get("args") or []
            t = s.P.ty(a[0]) if a and isinstance(a[0], int) else None
            return tstr(t) if t is not None else "?"
        return None
    def summary(s, f, seen=()):
        """locks a function may take, and unknown code it may run, itself or through what it calls"""
        if f.key in s.memo: return s.memo[f.key]
        if f.key in seen: return (frozenset(), frozenset())
        acq, usr = set(), set()
        s.memo[f.key] = (frozenset(), frozenset())
        for b in f.blocks:
            t = b[1]
            if len(b) > 2 and b[2]: continue
            if t[0] != "call": continue
            k = s.takes(f, t[1])
            if k: acq.add((k, f.n))
            fs, n, u = s.callees(t[1])
            if u or s.foreign(n): usr.add((n, f.n))
            for g in fs + s.closures(t[1]):
                a, v = s.summary(g, seen + (f.key,)); acq |= a; usr |= v
        s.memo[f.key] = (frozenset(acq), frozenset(usr))
        return s.memo[f.key]
    @staticmethod
    def foreign(n):
        """library calls that run wakers or tasks"""
        n = n.split(" of ")[0]; last = n.rsplit("::", 1)[-1]
        return last in ("wake", "wake_by_ref", "wake_all") or last.startswith("poll") or ("oneshot" in n or "mpsc" in n) and last in ("send", "try_send", "close", "close_channel")

def analyse(ctx, P, L, f, edges, G):
    gl = L.glocals(f)
    if not gl: return 0
    nb = len(f.blocks); inn = [None] * nb; inn[0] = frozenset(); work = [0]; n = 0
    def step(bi, held, rec):
        b = f.blocks[bi]; held = set(held)
        def mvop(o):
            if o and o[0] == "mv" and o[1][0] in gl and (not o[1][1] or True): held.discard(o[1][0])
        for st in b[0]:
            if st[0] == "=":
                d, rv = st[1], st[2]
                ops = []
                if rv[0] == "use": ops = [rv[1]]
                elif rv[0] == "agg": ops = rv[2]
                elif rv[0] == "cast": ops = [rv[2]]
                mv = [o for o in ops if isinstance(o, list) and o and o[0] == "mv" and o[1][0] in held]
                for o in mv: mvop(o)
                if mv and d[0] in gl: held.add(d[0])
            elif st[0] == "dead": held.discard(st[1])
        t = b[1]
        if t[0] == "call":
            k = L.takes(f, t[1])
            had = {c for l in held for c in gl[l]}
            for o in t[2]: mvop(o)
            now = {c for l in held for c in gl[l]}
            if rec: rec(t, k, now, had)
            if t[3] and t[3][0] in gl: held.add(t[3][0])
        elif t[0] == "drop":
            if rec and held and not (t[1][0] in gl): rec(t, None, {c for l in held for c in gl[l]}, None)
            if t[1][0] in gl and not t[1][1]: held.discard(t[1][0])
        return held
    while work:
        bi = work.pop()
        out = step(bi, inn[bi], None)
        for sx in L.P.succ(f.blocks[bi][1]):
            old = inn[sx]; new = frozenset(out) | (old or frozenset())
            if old is None or new != old: inn[sx] = new; work.append(sx)
    sites = 0
    for bi in range(nb):
        if inn[bi] is None or (len(f.blocks[bi]) > 2 and f.blocks[bi][2]): continue
        def rec(t, k, now, had):
            nonlocal sites
            line = t[-1][1] if isinstance(t[-1], list) else 0
            if t[0] == "drop":
                ty = L.lty(f, t[1][0])
                bad = tasks_in(P, ty) if not t[1][1] else []
                for c in now:
                    sites += 1
                    ctx.check(not bad or any(a in c and not w for a, w in ALLOWED), G[1], "drop:%s" % f.n, "%s (%s:%s) drops a %s while it holds the lock of %s: the value's own code runs under the lock" % (f.n, f.span[0], line, tstr(ty)[:60], c[:60]))
                return
            fs, n, u = L.callees(t[1])
            acq, usr = set(), set()
            if k: acq.add((k, f.n)); sites += 1
            if u or L.foreign(n): usr.add((n, f.n))
            for g in fs + L.closures(t[1]):
                a, v = L.summary(g); acq |= a; usr |= v
            for c in now:
                for a, w in acq: edges.setdefault((c, a), (f, line, w))
                for x, w in usr:
                    sites += 1
                    ok_ = any(cl in c and al in x for cl, al in ALLOWED)
                    ctx.check(ok_, G[1], "user:%s:%s" % (f.n, x.rsplit("::", 2)[-1]), "%s (%s:%s) runs %s (in %s) while it holds the lock of %s" % (f.n, f.span[0], line, x, w, c[:80]))
                    if "FuturesUnordered" in c: edges.setdefault((c, "*tasks"), (f, line, w))
                if not usr: sites += 1; ctx.check(True, G[1], "plain", "")
        step(bi, inn[bi], rec)
    return sites

def tasks_in(P, t): return [x for x in foreign_types(P, t) if x[0] == "adt" or "Future" in tstr(x)]

def foreign_types(P, t, depth=0, seen=()):
    if not isinstance(t, tuple) or not t or depth > 8: return []
    if t[0] in ("param", "dyn", "alias"): return [t]
    if t[0] in ("ref", "ptr", "rawptr", "fnptr", "fndef"): return []
    if t[0] == "adt":
        if t[1].endswith("Waker") or "TaskFuture" in t[1]: return [t]
        if any(t[1].endswith(g) for g in GUARDS): return []
        a = P.adts.get(t[1])
        out = []
        if a is not None and t[1] not in seen and t[1].split("::")[0] not in ("std", "core", "alloc"):
            for v in a["variants"]:
                for fl in v[2]:
                    ft = P.ty(fl[1]) if isinstance(fl[1], int) else None
                    if ft is not None: out += foreign_types(P, ft, depth + 1, seen + (t[1],))
        for x in t[2]: out += foreign_types(P, x, depth + 1, seen)
        return out
    out = []
    for x in t[1:]: out += foreign_types(P, x, depth + 1, seen)
    return out

def run(ctx):
    ctx.rule("every lock acquisition in every function, and everything that runs (through local calls, trait implementations and closures) while its guard may be held: no lock is taken while one of the same kind is held, and the held-before relation has no cycle; the C executor's driver lock is held while tasks run, so it comes before every other lock")
    ctx.rule("under a lock nothing of the user's runs: no waker, task, callback, trait object or generic method, and no drop of such a value - except the driver's tasks, and under the ping lock the connection's own timer, clock and the waker of the task being polled, and the one poll of the pending upgrade under its lock")
    for cfg in ("a", "b"):
        P = ctx.prog(cfg); L = Locks(P)
        edges, sites, acq = {}, 0, 0
        G = ("lock order", "code under a lock")
        for f in P.fns.values():
            if not f.local: continue
            ctx.fns.add(f.n); sites += analyse(ctx, P, L, f, edges, G)
            for b in f.blocks:
                if b[1][0] == "call" and L.takes(f, b[1][1]) and not (len(b) > 2 and b[2]):
                    acq += 1; ctx.check(True, "lock acquisitions", "acq", "")
        locks = {a for f in P.fns.values() if f.local for a, w in L.summary(f)[0]}
        drv = [l for l in locks if "FuturesUnordered" in l]
        roots = [f for f in P.fns.values() if f.local and (f.name.startswith("hyper_") and f.name != "hyper_executor_poll" or f.name == "execute" and (f.trait or "").endswith("rt::Executor"))]
        inside = {a for f in roots for a, w in L.summary(f)[0]}
        for d in drv:
            for o in locks:
                if o not in drv or o in inside: edges.setdefault((d, o), (None, 0, "the tasks it polls"))
        succ = {}
        for (a, b), w in edges.items():
            if b == "*tasks": continue
            succ.setdefault(a, set()).add(b)
            ctx.check(a != b, G[0], "twice:" + a[:50], "%s takes the lock of %s while it may already hold it (%s)" % (w[0].n if w[0] else "a task polled by the executor", a[:80], w[2]))
        for (a, b), w in sorted(edges.items(), key=str):
            if b == "*tasks" or a == b: continue
            todo, seen = [b], set()
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += succ.get(x, ())
            ctx.check(a not in seen, G[0], "order:%s" % "|".join(sorted((a[:40], b[:40]))), "the lock of %s is taken while that of %s is held (%s), and elsewhere the other way round" % (b[:60], a[:60], "%s line %s" % (w[0].n, w[1]) if w[0] else w[2]))
        ctx.note("%s: %d acquisitions, %d call sites under a lock, locks: %s" % (cfg, acq, sites, sorted(x[:50] for x in locks))) if hasattr(ctx, "note") else None
    ctx.floor("lock acquisitions", 8); ctx.floor(G[1], 10); ctx.floor(G[0], 2)
