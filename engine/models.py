"""Models of library functions (std, http, bytes): value semantics only."""
import absint as A
from absint import model, mmodel, T, sym, UNIT, TRUE, FALSE, INT_RNG, _EMPTY, c_norm

def fin(e, st, c, v): return e.finish(st, c.dest, c.target, v)

# ---- memory
@model("std::mem::replace", "core::mem::replace")
def _(e, st, c):
    p = e.deref_path(c.args[0])
    old = e.read(st, p)
    if e.rule and e.rule.wants_assign: e.rule.on_assign(e, st, p, c.args[1], c.line, None)
    e.write(st, p, c.args[1])
    return fin(e, st, c, old)

@model("std::mem::swap", "core::mem::swap")
def _(e, st, c):
    p, q = e.deref_path(c.args[0]), e.deref_path(c.args[1])
    a, b = e.read(st, p), e.read(st, q)
    e.write(st, p, b); e.write(st, q, a)
    return fin(e, st, c, UNIT)

@model("std::mem::take", "core::mem::take")
def _(e, st, c):
    p = e.deref_path(c.args[0])
    old = e.read(st, p)
    e.write(st, p, sym("call", "Default::default"))
    return fin(e, st, c, old)

@model("std::option::Option::take")
def _(e, st, c):
    p = e.deref_path(c.args[0])
    old = e.read(st, p)
    nv = ("adt", "std::option::Option", 0, "None", ())
    if e.rule and e.rule.wants_assign: e.rule.on_assign(e, st, p, nv, c.line, None)
    e.write(st, p, nv)
    return fin(e, st, c, old)

@model("std::option::Option::replace")
def _(e, st, c):
    p = e.deref_path(c.args[0])
    old = e.read(st, p)
    nv = ("adt", "std::option::Option", 1, "Some", (c.args[1],))
    if e.rule and e.rule.wants_assign: e.rule.on_assign(e, st, p, nv, c.line, None)
    e.write(st, p, nv)
    return fin(e, st, c, old)

@model("std::boxed::Box::new", "std::boxed::Box::pin", "std::boxed::Box::from_raw", "std::rc::Rc::new")
def _(e, st, c):
    if c.short.endswith("from_raw"): return fin(e, st, c, c.args[0])
    cell = ("B", c.site, 0)
    n = 0
    live = None
    while cell in st.heap and n < 3:
        n += 1; cell = ("B", c.site, n)
    st.heap[cell] = c.args[0]
    return fin(e, st, c, ("ref", (cell, ()), 1))

@model("std::boxed::Box::into_raw", "std::boxed::Box::into_pin", "std::boxed::Box::leak")
def _(e, st, c): return fin(e, st, c, c.args[0])

@model("std::mem::drop", "std::mem::forget", "core::mem::drop")
def _(e, st, c):
    if e.rule and e.rule.on_drop and c.short.endswith("drop"):
        cell = (("B", ("drop", c.site)), ())
        st.heap[cell[0]] = c.args[0]
        ty = c.targs[0] if c.targs else ("other", "?")
        term = ["drop", None, None, c.target, None, c.line]
        st.frames[-1]
        r = e.rule.on_drop(e, st, cell, ty, term)
        if r is not None: return r
    if e.drops and c.short.endswith("drop") and c.targs:
        cell = (("B", ("drop", c.site)), ())
        st.heap[cell[0]] = c.args[0]
        e.write(st, c.dest, UNIT)
        if c.target is None: return []
        return e.run_drops(st, cell, c.targs[0], c.target)
    return fin(e, st, c, UNIT)

# ---- pointers
def _deref(e, st, c):
    a = c.args[0]
    if a[0] != "ref": 
        return None
    x = e.read(st, a[1])
    # Box / Pin around a known pointer
    if x[0] == "ref": return fin(e, st, c, ("ref", x[1], a[2] and x[2]))
    if x[0] == "adt" and len(x[4]) == 1 and x[4][0][0] == "ref": return fin(e, st, c, x[4][0])
    if x[0] in ("str", "bytes"): return fin(e, st, c, x)
    sn = e.snapshot(st, x)
    return fin(e, st, c, ("ref", (("H", T("call", "deref", sn)), ()), 1 if c.mname.endswith("mut") else 0))

@mmodel("deref", "deref_mut")
def _(e, st, c): return _deref(e, st, c)

@mmodel("as_ref", "as_mut", "borrow", "as_bytes", "as_str", "as_slice", "as_mut_slice", "iter")
def _(e, st, c):
    a = c.args[0]
    if c.short.startswith("std::option") or c.short.startswith("std::result") or "Pin" in c.short: return None
    if c.mname == "iter" : return None
    if a[0] == "ref" and a[2]:
        # a view of a mutable place: must not havoc it
        if c.mname in ("as_mut", "as_mut_slice"):
            sn = e.snapshot(st, ("ref", a[1], 0))
            return fin(e, st, c, ("ref", (("H", T("call", c.mname, sn)), ()), 1))
    if a[0] == "str" and c.mname == "as_bytes": return fin(e, st, c, ("bytes", tuple(a[1].encode())))
    if a[0] == "ref":
        x = e.read(st, a[1])
        if x[0] == "str" and c.mname == "as_bytes": return fin(e, st, c, ("bytes", tuple(x[1].encode())))
        if x[0] in ("bytes",): return fin(e, st, c, x)
    return None

# ---- cloning / conversions that preserve the value
@mmodel("clone", "cloned", "copied", "to_owned")
def _(e, st, c):
    if c.mname in ("cloned", "copied") and ("Option" in c.short): return None
    if c.mname in ("cloned", "copied"): return None
    a = c.args[0]
    if a[0] == "ref":
        v = e.read(st, a[1])
        if "Arc" in c.short or "Rc" in c.short: return fin(e, st, c, v)
        return fin(e, st, c, v)
    return None

@model("<T as std::convert::Into>::into", "std::convert::Into::into")
def _(e, st, c):
    return None

# ---- equality
@mmodel("eq", "ne")
def _(e, st, c):
    if len(c.args) != 2: return None
    if "Option" in c.short and False: return None
    neg = c.mname == "ne"
    out = []
    for s, r in e.eq_fork(st, c.args[0], c.args[1]):
        v = TRUE if (r != neg) else FALSE
        out += e.finish(s, c.dest if s is st else c.dest, c.target, v)
    return out

@mmodel("lt", "le", "gt", "ge")
def _(e, st, c):
    if len(c.args) != 2: return None
    a, b = c.args
    while a[0] == "ref": a = e.read(st, a[1])
    while b[0] == "ref": b = e.read(st, b[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.mname]
    # http::Version and similar C-like wrappers: compare discriminants
    def disc(v):
        if v[0] == "adt" and len(v[4]) == 1 and v[4][0][0] == "adt" and not v[4][0][4]:
            return e.discr(st, v[4][0], v[4][0][1])
        return None
    da, db = disc(a), disc(b)
    if da is not None or db is not None:
        k = a if da is not None else b
        inner = k[4][0][1]
        def dd(v, d):
            if d is not None: return d
            return e.discr(st, e.project(st, v, ("f", 0, "0", None, None)), inner)
        return fin(e, st, c, e.compare(st, op, dd(a, da), dd(b, db)))
    return fin(e, st, c, e.compare(st, op, a, b))

@model("std::cmp::min", "std::cmp::impls::<impl std::cmp::Ord for usize>::min")
def _(e, st, c):
    return minmax(e, st, c, True)
@model("std::cmp::max", "std::cmp::impls::<impl std::cmp::Ord for usize>::max")
def _(e, st, c):
    return minmax(e, st, c, False)
def minmax(e, st, c, mn):
    a, b = c.args
    lt = e.compare(st, "Lt", a, b, "usize")
    k = st.val_int(lt)
    if k is not None: return fin(e, st, c, (a if k else b) if mn else (b if k else a))
    if repr(b) < repr(a): a, b = b, a
    return fin(e, st, c, e.typed(st, sym("call", "min" if mn else "max", a, b), "usize"))

# ---- integers
def chk(op, name):
    def m(e, st, c):
        a, b = c.args
        ai, bi = st.val_int(a), st.val_int(b)
        ty = intty(c)
        hi = INT_RNG.get(ty, (0, 2**64 - 1))[1]
        if ai is not None and bi is not None:
            r = ai + bi if op == "Add" else ai - bi if op == "Sub" else ai * bi
            if 0 <= r <= hi: return fin(e, st, c, ("adt", "std::option::Option", 1, "Some", (("int", r),)))
            return fin(e, st, c, ("adt", "std::option::Option", 0, "None", ()))
        (al, ah), (bl, bh) = e.interval(st, a), e.interval(st, b)
        if None not in (al, ah, bl, bh):
            if op == "Add" and ah + bh <= hi or op == "Mul" and ah * bh <= hi or op == "Sub" and al >= bh:
                return fin(e, st, c, ("adt", "std::option::Option", 1, "Some", (e.arith(st, op, a, b),)))
        if op == "Sub":       # unsigned: None exactly when a < b
            out = []
            for s, r in e.fork_bool(st, e.compare(st, "Lt", a, b, ty)):
                out += fin(e, s, c, ("adt", "std::option::Option", 0, "None", ()) if r else ("adt", "std::option::Option", 1, "Some", (e.arith(s, "Sub", a, b),)))
            return out
        return fin(e, st, c, sym("call", name, a, b))
    return m
def intty(c):
    n = c.name
    i = n.find("<impl ")
    return n[i + 6:n.index(">", i)] if i >= 0 else "usize"
for op, nm in (("Add", "checked_add"), ("Sub", "checked_sub"), ("Mul", "checked_mul")):
    A.MODELS["core::num::" + nm] = chk(op, nm)
def sat(e, st, c):
    a, b = c.args
    ai, bi = st.val_int(a), st.val_int(b)
    nm, ty = c.mname, intty(c)
    if ai is not None and bi is not None:
        r = ai - bi if "sub" in nm else ai + bi if "add" in nm else ai * bi
        return fin(e, st, c, ("int", min(max(r, 0), INT_RNG.get(ty, (0, 2**64 - 1))[1])))
    if nm == "saturating_sub" and ty.startswith("u"):
        out = []
        for s, r in e.fork_bool(st, e.compare(st, "Lt", a, b, ty)):
            out += fin(e, s, c, ("int", 0) if r else e.arith(s, "Sub", a, b))
        return out
    return fin(e, st, c, e.typed(st, sym("call", nm, a, b), ty))
for nm in ("saturating_sub", "saturating_add", "saturating_mul"):
    A.MODELS["core::num::" + nm] = sat

# ---- StatusCode predicates: all are ranges of the code
def code_of(e, st, v):
    while v[0] == "ref": v = e.read(st, v[1])
    v = e.project(st, v, ("f", 0, "0", None, None))
    v = e.project(st, v, ("f", 0, "0", None, None))
    v = e.project(st, v, ("f", 0, "0", None, None)) if v[0] in ("sym", "adt") else v
    v = e.as_int(v)
    if v[0] == "sym" and v[1] not in st.facts: st.facts[v[1]] = ("rng", 100, 999, _EMPTY)
    return v
def rng(lo, hi):
    def m(e, st, c):
        v = code_of(e, st, c.args[0])
        k = st.val_int(v)
        if k is not None: return fin(e, st, c, TRUE if lo <= k <= hi else FALSE)
        out = []
        s1 = st.fork()
        if e.assume_rng(s1, v, lo, hi): out += e.finish(s1, c.dest, c.target, TRUE)
        s2 = st.fork()
        if lo > 100 and e.assume_rng(s2, v, None, lo - 1): out += e.finish(s2, c.dest, c.target, FALSE)
        if e.assume_rng(st, v, hi + 1, None): out += e.finish(st, c.dest, c.target, FALSE)
        return out
    return m
for n, lo in (("is_informational", 100), ("is_success", 200), ("is_redirection", 300), ("is_client_error", 400), ("is_server_error", 500)):
    A.MODELS["http::StatusCode::" + n] = rng(lo, lo + 99)
@model("http::StatusCode::as_u16")
def _(e, st, c): return fin(e, st, c, code_of(e, st, c.args[0]))
@model("<http::StatusCode as std::cmp::PartialEq>::eq")
def _(e, st, c):
    a, b = code_of(e, st, c.args[0]), code_of(e, st, c.args[1])
    out = []
    for s, r in e.fork_bool(st, e.compare(st, "Eq", a, b, "u16")):
        out += e.finish(s, c.dest, c.target, TRUE if r else FALSE)
    return out

# ---- slices / strings
@mmodel("len")
def _(e, st, c):
    a = c.args[0]
    if a[0] in ("str", "bytes"): return fin(e, st, c, e.length(st, a))
    v = a
    while v[0] == "ref": v = e.read(st, v[1])
    if v[0] in ("str", "bytes", "arr"): return fin(e, st, c, e.length(st, v))
    return fin(e, st, c, e.typed(st, sym("len", e.snapshot(st, a)), "usize"))

@mmodel("is_empty", "has_remaining")
def _(e, st, c):
    a = c.args[0]
    v = a
    while v[0] == "ref": v = e.read(st, v[1])
    if v[0] in ("str", "bytes", "arr"): return fin(e, st, c, TRUE if e.length(st, v)[1] == 0 else FALSE)
    l = e.typed(st, sym("len", e.snapshot(st, a)), "usize")
    r = e.compare(st, "Eq", l, ("int", 0))
    if c.mname == "has_remaining": r = e.neg(st, r)
    return fin(e, st, c, r)

@mmodel("remaining")
def _(e, st, c):
    return fin(e, st, c, e.typed(st, sym("len", e.snapshot(st, c.args[0])), "usize"))

@mmodel("into_iter")
def _(e, st, c):
    if "IntoIterator" in c.short and c.short.startswith("<I as"): return fin(e, st, c, c.args[0])
    return None
@mmodel("into_future")
def _(e, st, c): return fin(e, st, c, c.args[0])

@mmodel("from", "into")
def _(e, st, c):
    t = (c.trait or "").split("::")[-1]
    if t not in ("From", "Into") or len(c.args) != 1 or not c.targs or len(c.targs) < 2: return None
    if c.targs[0] == c.targs[1] and c.targs[0][0] not in ("param",): return fin(e, st, c, c.args[0])
    return None
