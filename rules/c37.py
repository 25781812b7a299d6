"""The C API: what every function of capi/include/hyper.h does with panics, null, ownership and failures."""
from rt import *
import build, re, os
LEVEL = "other"

# which handles a function takes over, from the documentation in hyper.h (everything ending in _free takes its only argument)
TAKES = {"hyper_body_foreach": {"body"}, "hyper_request_set_body": {"body"}, "hyper_clientconn_handshake": {"io", "options"}, "hyper_clientconn_send": {"req"},
         "hyper_executor_push": {"task"}, "hyper_waker_wake": {"waker"}}
# pointers C code must not pass as null: buffers, byte strings with a length, and data that is only handed back
REQUIRED = ("struct hyper_buf", "uint8_t", "void")
OPTIONAL = {"hyper_request_set_uri_parts": {"scheme", "authority", "path_and_query"}}
OUTSIDE = ("std::panic::catch_unwind", "std::io::_eprint", "std::fmt::Arguments", "core::fmt::rt::", "std::process::abort", "std::ptr::", "core::ptr::", "std::panic::AssertUnwindSafe")

def header():
    s = open(os.path.join(build.REPO, "capi/include/hyper.h")).read()
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    s = re.sub(r"//[^\n]*", "", s)
    fns = {}
    for m in re.finditer(r"(?:^|\n)\s*((?:const\s+|struct\s+|enum\s+)*\w+[\s*]+)(hyper_\w+)\s*\(([^;{}]*?)\)\s*;", s):
        if "typedef" in m.group(1): continue
        ps = []
        for a in re.split(r",(?![^(]*\))", m.group(3)):
            a = " ".join(a.split())
            if a in ("void", ""): continue
            n = re.search(r"(\w+)$", a).group(1)
            ps.append((n, a[:-len(n)].strip()))
        fns[m.group(2)] = (" ".join(m.group(1).split()), ps)
    enums = {}
    for m in re.finditer(r"typedef\s+enum\s*\w*\s*\{(.*?)\}\s*(\w+)\s*;", s, re.S):
        v, vs = 0, {}
        for it in m.group(1).split(","):
            it = it.strip()
            if not it: continue
            if "=" in it: it, x = [y.strip() for y in it.split("=")]; v = int(x, 0)
            vs[it] = v; v += 1
        enums[m.group(2)] = vs
    defs = {m.group(1): m.group(2).strip("()") for m in re.finditer(r"#define\s+(HYPER_\w+)\s+(\S+)", s)}
    return fns, enums, defs

def handle(t): return re.match(r"(const )?struct hyper_\w+ ?\*$", t) is not None
def pointer(t): return t.endswith("*")

def arg(n): return init("ARG_" + n)

def body_of(P, f):
    """the code that does the work: what is given to catch_unwind, and with which captured arguments"""
    for b in f.blocks:
        t = b[1]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("n", "").endswith("catch_unwind"): return True
    return False

def outside(ctx, P, name, f):
    G = "no panic leaves"
    for i, b in enumerate(f.blocks):
        if len(b) > 2 and b[2]: continue
        t = b[1]
        if t[0] == "call":
            n = P.short(t[1].get("n", "?")) if isinstance(t[1], dict) else "?"
            ctx.check(any(n.startswith(x) or x in n for x in OUTSIDE), G, "outside:%s:%s" % (name, n), "%s (%s) calls %s outside of catch_unwind: a panic in it would unwind into C" % (name, where(f.span), n))
        elif t[0] == "assert": ctx.bad("outside:%s:assert" % name, "%s (%s) can panic outside of catch_unwind" % (name, where(f.span)), G)
        else: ctx.ok(G)

class Run:
    """one abstract run of a C function; `null` names the pointer argument that is null (all others are not)"""
    def __init__(s, ctx, name, f, params, null=None):
        P = s.P = ctx.prog("b"); s.name, s.f, s.null, s.params = name, f, null, params
        s.hits = set()
        leaf = {arg(n)[1]: n for n, t in params}
        s.leaf = leaf
        def of(e, st, v, n=0):
            """the argument a value is (a cast of)"""
            if v[0] == "sym":
                ls = absint.LEAVES[v[1]]
                for x in ls:
                    if x in leaf and TERMS[v[1]][0] in ("init", "cast", "trunc", "uneval"): return leaf[x]
                return None
            if v[0] == "adt" and len(v[4]) >= 1 and n < 4: return of(e, st, v[4][0], n + 1)
            return None
        s.of = of
        def h(e, st, c):
            m, sh = c.mname, c.short
            a = [of(e, st, x) for x in c.args]
            a0 = a[0] if a else None
            if m == "is_null" and a0: return [(TRUE if a0 == null else FALSE, None)]
            if m in ("as_ref", "as_mut") and a0 and "ptr" in sh: return [(NONE, None)] if a0 == null else [(some(("ref", (("H", c.args[0][1]), ()), 1)), None)]
            if m == "new" and "NonNull" in sh and a0: return [(NONE, None)] if a0 == null else [(some(c.args[0]), None)]
            if m == "from_raw" and a0: return [(c.args[0], ("take", a0, sh.split("::")[-2]))]
            if m in ("read", "read_unaligned", "read_volatile", "replace") and a0 and "ptr" in sh: return [(e.fresh(st, "site", sh, c.site[0], c.site[1]), ("take", a0, "read"))]
            if m == "drop_in_place" and a0: return [(UNIT, ("take", a0, "drop"))]
            if m in ("forget", "leak") and a0 or m == "new" and "ManuallyDrop" in sh and a0: return [(c.args[0] if m != "forget" else UNIT, ("keep", a0))]
            if m == "into_raw": return [(c.args[0], ("keep", a0) if a0 else ("give", e.snapshot(st, c.args[0]), c.args[0]))]
            if m in ("from_raw_parts", "from_raw_parts_mut") and a0: return [(("ref", (("H", absint.T("bytes", c.args[0])), ()), 1), ("bytes", a0))]
            if m in ("from_utf8", "from_bytes", "from_maybe_shared", "build", "try_from", "parse") and not (c.fn is not None and c.fn.local):
                r = e.fresh(st, "site", sh, c.site[0], c.site[1])
                return [(ok(r), ("step", m, "ok")), (err(init("STEP_ERR")), ("step", m, "err"))]
            return None
        e = s.e = ctx.engine("b", rule=Rec([(lambda c, e, st: True, h)]))
        clo = []
        def grab(e, st, c):
            if c.mname == "catch_unwind": clo.append(e.snapshot(st, c.args[0])); return "stop"
            return None
        e0 = ctx.engine("b", rule=Rec([(lambda c, e, st: True, grab), (lambda c, e, st: True, h)]))
        wrap = e0.deref_path
        args = [arg(n) for n, t in params]
        def deref(v, eng=e0):
            n = of(eng, None, v)
            if n: s.hits.add(n)
            return type(eng).deref_path(eng, v)
        e0.deref_path = deref
        e0.run(f, args)
        s.direct = [(st, v) for st, v in e0.finals]
        s.finals = list(s.direct)
        e.deref_path = lambda v: deref(v, e)
        for cv in clo[:1]:
            v = cv
            while v[0] == "adt": v = v[4][0]
            g = P.fns.get(v[1]) if v[0] == "clo" else None
            if g is None: s.finals = None; return
            ref = P.ty(g.locals[1][0])[0] == "ref"
            e.run(g, [mref("env") if ref else v], heap={cell("env"): v} if ref else {})
            s.finals = s.finals + list(e.finals)
    def ev(s, st): return st.aut or ()

def owns(ctx, name, r, taken, params):
    G = "handles are taken where documented"
    for st, v in r.finals:
        ev = r.ev(st)
        for n, t in params:
            if not handle(t): continue
            bal, mx = 0, 0
            for x in ev:
                if x[:2] == ("take", n): bal += 1; mx = max(mx, bal)
                if x[:2] == ("keep", n): bal -= 1
            k = "%s:%s" % (name, n)
            ctx.check(mx <= 1, G, "twice:" + k, "%s takes %s over twice: it is freed twice" % (name, n))
            if n in taken: ctx.check(bal == 1, G, "kept:" + k, "%s is documented to take %s over, but a path neither frees nor stores it (%s)" % (name, n, short(ev)))
            else: ctx.check(bal == 0, G, "stolen:" + k, "%s takes %s over (it is freed or moved) although its caller still owns it (%s)" % (name, n, short(ev)))
        for x in ev:
            if x[0] == "give": ctx.check(v == x[2] or v == x[1] or e_same(r, st, v, x) or nothing_made(st, v, x), "what is made is returned", "leak:" + name, "%s makes an object for C and does not return it (returns %s, made %s)" % (name, show(v)[:50], show(x[2])[:50]))

def e_same(r, st, v, x):
    if v[0] == "sym" and x[2][0] == "sym": return absint.LEAVES[v[1]] == absint.LEAVES[x[2][1]]
    return False

def nothing_made(st, v, x):
    """null instead of what was made, because that is the place holder for an empty value"""
    if v[0] == "sym" and "null" not in show(v): return False
    return any(c[0] == "in" and set(c[1]) == {1} and show_t(i).startswith("cmp(Eq") and "dangling" in show_t(i) for i, c in st.facts.items())

def short(ev): return ", ".join(" ".join(str(y) for y in x if isinstance(y, str)) for x in ev) or "no step"

def failed(P, ret, v):
    """is this return value one that says failure"""
    if ret == "void": return True
    if "hyper_code" in ret: return v[0] == "adt" and v[3] not in ("HYPERE_OK",)
    if "hyper_task_return_type" in ret: return is_adt(v, "HYPER_TASK_EMPTY")
    if v[0] == "int": return v[1] == 0
    return "null" in show(v)


def api(P, fns, ctx):
    G = "the header's functions are the library's"
    out = {}
    for n, (ret, ps) in sorted(fns.items()):
        fs = [f for f in P.fns.values() if f.local and f.name == n and not f.coroutine]
        ctx.check(len(fs) == 1, G, "missing:" + n, "%s is declared in hyper.h and defined %d times" % (n, len(fs)))
        if len(fs) != 1: continue
        f = fs[0]
        ctx.check(f.argc == len(ps), G, "params:" + n, "%s takes %d arguments in hyper.h and %d in %s" % (n, len(ps), f.argc, where(f.span)))
        if f.argc == len(ps):
            for i, (p, t) in enumerate(ps):
                rt = P.ty(f.locals[i + 1][0])
                ctx.check((rt[0] in ("ptr", "rawptr")) == pointer(t) or rt[0] in ("fnptr", "fn", "adt", "other"), G, "param:%s:%s" % (n, p), "%s: %s is %s in hyper.h and %s in %s" % (n, p, t, rt, where(f.span)))
            out[n] = f
    return out

def nulls(ctx, n, f, ret, ps):
    G = "null is looked for first"
    for p, t in ps:
        if not pointer(t): continue
        m = re.match(r"(?:const )?(struct \w+|\w+) ?\*+$", t)
        base = m.group(1) if m else t
        opt = p in OPTIONAL.get(n, ())
        if base in REQUIRED and not opt: continue
        r = Run(ctx, n, f, ps, null=p)
        k = "%s:%s" % (n, p)
        if r.finals is None: ctx.bad("closure:" + n, "the body of %s could not be found" % n, G); continue
        hit = p in r.hits or any(x[0] in ("take", "bytes") and x[1] == p for st, v in r.finals for x in r.ev(st))
        ctx.check(not hit, G, "deref:" + k, "%s (%s) follows %s although it is null" % (n, where(f.span), p))
        ctx.check(bool(r.finals), G, "noreturn:" + k, "%s does not return when %s is null" % (n, p))
        for st, v in r.finals:
            if not opt: ctx.check(failed(ctx.prog("b"), ret, v), "a null handle is reported", "null:" + k, "%s (%s) reports success (%s) although %s is null" % (n, where(f.span), show(v)[:50], p))

def results(ctx, n, r, ret):
    G = "a failed step is reported"
    if "hyper_code" not in ret or "*" in ret: return
    for st, v in r.finals:
        steps = [x for x in r.ev(st) if x[0] == "step"]
        bad = [x for x in steps if x[2] == "err"]
        if bad: ctx.check(failed(r.P, ret, v), G, "swallowed:" + n, "%s returns %s although %s failed" % (n, show(v)[:50], bad[-1][1]))
        ctx.check(v[0] == "adt" and v[1].endswith("hyper_code"), G, "code:" + n, "%s returns %s, which could not be decided" % (n, show(v)[:50]))

def panics(ctx, n, f, ret, ps):
    """what the function says when its work panicked"""
    G = "a panic is reported"
    def h(e, st, c):
        if c.mname == "catch_unwind": return [(err(init("PANIC")), ("panicked",))]
        return None
    e = ctx.engine("b", rule=Rec([(lambda c, e, st: True, h)]))
    e.run(f, [arg(p) for p, t in ps])
    for st, v in e.finals:
        if ("panicked",) not in (st.aut or ()): continue
        ctx.check(ret != "void" and failed(ctx.prog("b"), ret, v), G, "panic:" + n, "%s (%s) reports %s although its work panicked" % (n, where(f.span), show(v)[:50]))
    ctx.ok(G)

def enums_(ctx, P, enums):
    G = "the header's codes are the library's"
    for en, vs in sorted(enums.items()):
        a = P.adt(en)
        lib = {v: a["discr"][i] for v, i in a["vix"].items()}
        for v, x in vs.items(): ctx.check(lib.get(v) == x, G, "%s:%s" % (en, v), "%s is %d in hyper.h and %s in the library" % (v, x, lib.get(v)))
        for v in lib: ctx.check(v in vs, G, "%s:%s" % (en, v), "%s of %s is not in hyper.h" % (v, en))

def codes(ctx, P):
    G = "errors have their code"
    f = P.fn("hyper_error::code")
    K = P.adt("error::Kind"); U = P.adt("error::User")
    want = {"Parse": "HYPERE_INVALID_PEER_MESSAGE", "IncompleteMessage": "HYPERE_UNEXPECTED_EOF"}
    vs = []
    for k in sorted(K["vix"]):
        n = len(K["fix"][K["vix"][k]])
        if k == "User": vs += [(k + ":" + u, mk(P, K, k, **{x: mk(P, U, u) for x in K["fix"][K["vix"][k]]})) for u in sorted(U["vix"])]
        else: vs.append((k, mk(P, K, k, **{x: init("K_" + k) for x in K["fix"][K["vix"][k]]})))
    for name, kv in vs:
        def kind(e, st, c): return [(sref("kind"), None)]
        e = ctx.engine("b", rule=Rec([(lambda c, e, st: c.mname == "kind" and c.short.endswith("Error::kind"), kind)]))
        e.run(f, [sref("self")], heap={cell("kind"): kv})
        w = "HYPERE_ABORTED_BY_CALLBACK" if name == "User:AbortedByCallback" else want.get(name, "HYPERE_ERROR")
        for st, v in e.finals:
            ctx.check(is_adt(v, w), G, "code:" + name, "the error kind %s has the code %s instead of %s" % (name, show(v)[:50], w))
    ctx.floor(G, 15)
    G = "a task's value has its type"
    tys = {"()": "HYPER_TASK_EMPTY", "Error": "HYPER_TASK_ERROR", "hyper_clientconn": "HYPER_TASK_CLIENTCONN", "hyper_response": "HYPER_TASK_RESPONSE", "hyper_buf": "HYPER_TASK_BUF"}
    seen = set()
    for f in P.fns.values():
        if not f.local or f.name != "as_task_type" or not f.trait or not f.trait.endswith("AsTaskType"): continue
        who = str(f.n).split(" as ")[0].lstrip("<").split("::")[-1]
        if who not in tys:
            ctx.bad("type:" + who, "the task value %s has no type known to hyper.h" % f.n, G); continue
        seen.add(who)
        e = ctx.engine("b", rule=Rec([])); e.run(f, [sref("self")])
        for st, v in e.finals: ctx.check(is_adt(v, tys[who]), G, "type:" + who, "a task value of type %s is reported as %s" % (who, show(v)[:50]))
    ctx.check(seen == set(tys), G, "types", "the kinds of task values are %s" % sorted(seen))

def answers(ctx, P, defs):
    """what a C callback answers is taken for what hyper.h says it is"""
    G = "a callback's answer is taken for what it says"
    D = {k: int(v) for k, v in defs.items() if v.isdigit()}
    def go(f, args, val, out=None, heap=None):
        def h(e, st, c):
            t = P.fns[c.site[0]].blocks[c.site[1]][1]
            if isinstance(t[1], dict) and "n" in t[1]:
                if c.mname == "advance": return [(UNIT, ("advance", c.args[1]))]
                if c.mname == "from_raw": return [(c.args[0], ("take", c.args[0]))]
                if c.mname == "is_null": return [(TRUE, ("null",)), (FALSE, ("some",))]
                if c.fn is not None and c.fn.local and c.short.endswith(("new_body_write_aborted", "new_user_aborted_by_callback", "new_body_write")) or c.mname == "new" and "io::Error" in c.short:
                    return [(init("ERR_" + c.mname), ("err", c.mname))]
                return None
            muts = []
            for a in c.args: e.mut_refs(st, a, muts)
            for i, pth in enumerate(muts): e.havoc(st, pth, c, i)
            return [(val, ("asked",))]
        e = ctx.engine("b", rule=Rec([(lambda c, e, st: True, h)]))
        e.run(f, args, heap=heap or {})
        return [(st, v) for st, v in e.finals if ("asked",) in (st.aut or ())]
    IO = P.adt("hyper_io")
    pin = lambda x: ("adt", "std::pin::Pin", 0, "Pin", (x,))
    N = init("COUNT")
    for trait, m, a in (("rt::io::Read", "poll_read", [pin(mref("io")), mref("cx"), init("CURSOR")]), ("rt::io::Write", "poll_write", [pin(mref("io")), mref("cx"), sref("bytes")])):
        f = P.trait_method("hyper_io", trait, m)
        for nm, val in (("HYPER_IO_PENDING", ("int", D["HYPER_IO_PENDING"])), ("HYPER_IO_ERROR", ("int", D["HYPER_IO_ERROR"])), ("a count", ("int", 5)), ("zero", ("int", 0))):
            fin = go(f, a, val)
            ctx.check(bool(fin), G, "asked:" + m, "%s of hyper_io does not ask its callback" % m)
            for st, v in fin:
                adv = [x for x in st.aut if x[0] == "advance"]
                if nm == "HYPER_IO_PENDING": good = is_adt(v, "Pending") and not adv
                elif nm == "HYPER_IO_ERROR": good = is_adt(v, "Ready") and is_adt(v[4][0], "Err") and not adv
                elif m == "poll_read": good = is_adt(v, "Ready") and is_adt(v[4][0], "Ok") and [x[1] for x in adv] == [val]
                else: good = is_adt(v, "Ready") and is_adt(v[4][0], "Ok") and v[4][0][4][0] == val
                ctx.check(good, G, "%s:%s" % (m, nm), "when the callback answers %s, %s (%s) gives %s%s" % (nm, m, where(f.span), show(v)[:60], " and counts %s bytes" % show(adv[0][1]) if adv else ""))
    f = P.fn("UserBody::poll_data")
    for nm, val in (("HYPER_POLL_READY", D["HYPER_POLL_READY"]), ("HYPER_POLL_PENDING", D["HYPER_POLL_PENDING"]), ("HYPER_POLL_ERROR", D["HYPER_POLL_ERROR"]), ("something else", 77)):
        fin = go(f, [mref("self"), mref("cx")], ("int", val))
        ctx.check(bool(fin), G, "asked:poll_data", "a C body does not ask its callback")
        for st, v in fin:
            took = any(x[0] == "take" for x in st.aut)
            in_ = lambda *ns: is_adt(v, "Ready") and (is_adt(v[4][0], "None") if ns == ("None",) else is_adt(v[4][0], "Some") and is_adt(v[4][0][4][0], ns[0]))
            if nm == "HYPER_POLL_READY": good = in_("None") and not took if ("null",) in st.aut else in_("Ok") and took
            elif nm == "HYPER_POLL_PENDING": good = is_adt(v, "Pending")
            else: good = in_("Err")
            ctx.check(good, G, "poll_data:" + nm, "when the callback answers %s, poll_data (%s) gives %s" % (nm, where(f.span), show(v)[:80]))
    ctx.floor(G, 12)

def run(ctx):
    ctx.rule("every function that hyper.h declares exists once in the library with the same arguments, does its work inside catch_unwind, and calls nothing outside of it that can panic; hyper.h and the library agree on every result code and task type")
    ctx.rule("each function is interpreted with each pointer it must check null in turn: the null pointer is never followed, taken over or read, and the function returns its failure value")
    ctx.rule("on every path of every function, the handles it is documented to take are freed or stored exactly once, those it is lent are neither freed nor kept, and what it makes for C is what it returns")
    ctx.rule("a hyper_code function in which parsing or building failed does not return HYPERE_OK; every error kind and task value has its documented code or type; what a C callback answers (pending, error, count, ready, anything else) is taken for that")
    P = ctx.prog("b")
    fns, enums, defs = header()
    ctx.check(len(fns) >= 55, "the header's functions are the library's", "header", "only %d functions found in hyper.h" % len(fns))
    D = {k for k in defs if k.startswith(("HYPER_IO_", "HYPER_POLL_"))}
    ctx.check(len(D) == 5, "the header's codes are the library's", "defines", "the answers of C callbacks in hyper.h: %s" % sorted(D))
    lib = api(P, fns, ctx)
    exported = {f.name for f in P.fns.values() if f.local and f.pub and f.name.startswith("hyper_") and any(isinstance(b[1][1], dict) and b[1][1].get("n", "").endswith("catch_unwind") for b in f.blocks if b[1][0] == "call")}
    for n in sorted(exported - set(fns)): ctx.bad("undeclared:" + n, "%s is exported but not declared in hyper.h" % n, "the header's functions are the library's")
    for n, f in sorted(lib.items()):
        ret, ps = fns[n]
        ctx.fns.add(f.key)
        outside(ctx, P, n, f)
        r = Run(ctx, n, f, ps)
        ctx.check(r.finals is not None and (bool(r.finals)), "no panic leaves", "noreturn:" + n, "%s never returns, or its body was not found" % n)
        if not r.finals: continue
        ctx.paths += len(r.finals)
        owns(ctx, n, r, TAKES.get(n, {p for p, t in ps if n.endswith("_free")}), ps)
        results(ctx, n, r, ret)
        nulls(ctx, n, f, ret, ps)
        panics(ctx, n, f, ret, ps)
    enums_(ctx, P, enums)
    codes(ctx, P)
    answers(ctx, P, defs)
    ctx.floor("no panic leaves", 100); ctx.floor("null is looked for first", 90); ctx.floor("a null handle is reported", 45)
    ctx.floor("handles are taken where documented", 50); ctx.floor("what is made is returned", 8); ctx.floor("a failed step is reported", 12); ctx.floor("the header's codes are the library's", 12)
